//go:build go1.21

package model_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

func TestVHSensitive(t *testing.T) {
	c := vh.New(t, "names built around the sensitive words in all letter cases, with values around the switch words")
	defer c.Done()
	words := []string{"pwd", "password", "passphrase", "secret", "private"}
	vals := []string{"", "x", "true", "TRUE", "false", "Off", "on", "0", "1", "no", "Yes", "y", "n", "t", "F", "yess", "2", "hunter2", " on"}
	sw := map[string]bool{}
	for _, w := range strings.Fields("true t 1 on y yes false f 0 off n no") {
		sw[w] = true
	}
	try := func(key, val string) {
		c.Try("sensitive", fmt.Sprintf("%q=%q", key, val), func() string {
			want := false
			for _, w := range words {
				want = want || strings.Contains(strings.ToLower(key), w)
			}
			want = want && !sw[strings.ToLower(val)]
			if got := model.IsSensitiveKeyVal(key, val); got != want {
				return fmt.Sprintf("IsSensitiveKeyVal is %v, want %v", got, want)
			}
			return ""
		})
	}
	for _, w := range words {
		for m := 0; m < 1<<len(w); m++ {
			b := []byte(w)
			for i := range b {
				if m>>i&1 == 1 {
					b[i] -= 32
				}
			}
			for _, v := range vals {
				try(string(b), v)
			}
		}
		for _, pre := range []string{"", "my.", "pw", "db-", "PASSWOR", "p", "é"} {
			for _, suf := range []string{"", ".x", "s", "d", "-2", "word"} {
				for _, v := range vals {
					try(pre+w+suf, v)
					try(pre+w[:len(w)-1]+suf, v)
					try(pre+w[1:]+suf, v)
					try(pre+w[:2]+"."+w[2:]+suf, v)
				}
			}
		}
	}
	parts := []string{"pass", "word", "phrase", "pwd", "sec", "ret", "pri", "vate", ".", "p", "w", "d", "SECRET", "Priv", "ATE"}
	for i := 0; i < 20000; i++ {
		try(vh.Str(c.R, parts, 1+c.R.Intn(5)), vh.Pick(c.R, vals...))
	}
}
