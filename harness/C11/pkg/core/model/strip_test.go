//go:build go1.21

package model_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

func oneFlow(lines []string) string {
	in := append([]string{}, lines...)
	got := model.StripFlowForExecute(in, ":")
	if fmt.Sprintf("%q", in) != fmt.Sprintf("%q", lines) {
		return "the flow was changed"
	}
	var want []string
	for _, l := range lines {
		if t := strings.TrimSpace(l); t != "" && t[0] != '#' {
			want = append(want, t)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("kept %q, not %q", got, want)
	}
	for i, g := range got {
		w := want[i]
		ends := strings.HasSuffix(w, ":") && !strings.HasSuffix(w, `\:`)
		switch {
		case i == len(want)-1 || ends:
			if g != w {
				return fmt.Sprintf("line %q became %q", w, g)
			}
		case !strings.HasPrefix(g, w+" ") || strings.TrimSpace(g[len(w):]) != ":":
			return fmt.Sprintf("line %q became %q", w, g)
		}
	}
	return ""
}

func TestVHStrip(t *testing.T) {
	c := vh.New(t, "flows of command lines, blank lines, comments and separators at the ends of lines")
	defer c.Done()
	one := func(lines []string) {
		c.Try("strip", fmt.Sprintf("%q", lines), func() string { return oneFlow(lines) })
	}
	els := []string{"", " ", "#", " # c", "a", " a ", "a:", "a :", "a #b", ":", " : ", "a\\:", "#:", "x# :", "\t#"}
	c.For(50, func() {
		vh.Lists(els, 3, func(l []string) {
			if c.More() {
				one(l)
			}
		})
	})
	parts := []string{"#", ":", "a", " ", "\t", "\\", "\n", "x=y", "世", "\u00a0", "{", "}", "'", "\""}
	for c.More() {
		var lines []string
		for i := c.R.Intn(7); i >= 0; i-- {
			if c.R.Intn(2) == 0 {
				lines = append(lines, vh.Pick(c.R, els...))
			} else {
				lines = append(lines, vh.Str(c.R, parts, 6))
			}
		}
		one(lines)
	}
}
