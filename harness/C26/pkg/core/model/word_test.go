//go:build go1.21

package model_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/utils"
	"github.com/innerr/ticat/pkg/vh"
)

func oneWord(lead, w string) string {
	q := utils.QuoteStrIfHasSpace(w)
	line := "first " + lead + q + " last"
	var got []string
	if p, why := vh.Panics(func() { got = model.FlowStrToStrs(line) }); p {
		return fmt.Sprintf("quoted as %q it cannot be read: %v", q, why)
	}
	if len(got) != 3 || got[0] != "first" || got[1] != lead+w || got[2] != "last" {
		return fmt.Sprintf("quoted as %q, the flow %q is read as %q", q, line, got)
	}
	if q != w && !strings.ContainsAny(w, " \t\r\n\"'`\\;&|<>()") {
		return fmt.Sprintf("a plain word is written as %q", q)
	}
	return ""
}

var alphabet = []string{"a", "B", "0", "2", " ", "\t", "\n", "\r", "\"", "'", "\\", ":", ";", "&", "|", "<", ">", "(", ")", "`", "$", "=", "{", "}", "^", "#", ".", "%", "é", "界", "\u00a0", "\u2028", "--", "$("}

func TestVHWord(t *testing.T) {
	c := vh.New(t, "a word of a stored flow is read back as the same word")
	defer c.Done()
	check := func(lead, w string) {
		c.Try("word", fmt.Sprintf("%q after %q", w, lead), func() string { return oneWord(lead, w) })
	}
	for _, a := range alphabet {
		for _, b := range alphabet {
			check("", a+b)
			for _, d := range []string{"a", " ", "\"", "'", "\\"} {
				check("k=", a+d+b)
				check("", d+a+d+b)
			}
		}
	}
	for c.More() {
		lead := vh.Pick(c.R, "", "k=", "{a.b=", "x")
		if w := vh.Str(c.R, alphabet, 1+c.R.Intn(12)); w != "" {
			check(lead, w)
		}
	}
}

// the reading of a stored flow as the contracts describe it (ShStep)
func read(q string) (text string, whole bool) {
	m := 0
	for i := 0; i < len(q); i++ {
		b := q[i]
		switch {
		case m == 3 || m == 4:
			text, m = text+q[i:i+1], m-3
		case m == 1 && b == '"' || m == 2 && b == '\'':
			m = 0
		case m == 1 && b == '\\':
			m = 4
		case m == 0 && b == '"':
			m = 1
		case m == 0 && b == '\'':
			m = 2
		case m == 0 && b == '\\':
			m = 3
		case m == 0 && strings.IndexByte(" \t\r\n`;&|<>()", b) >= 0:
			return "", false
		default:
			text += q[i : i+1]
		}
	}
	return text, m == 0
}

func TestVHReader(t *testing.T) {
	c := vh.New(t, "package shellwords reads texts as the contracts assume")
	defer c.Done()
	for c.More() {
		q := vh.Str(c.R, alphabet, 1+c.R.Intn(9))
		text, whole := read(q)
		if !whole {
			continue
		}
		c.Try("reader", fmt.Sprintf("%q", q), func() string {
			if got := model.FlowStrToStrs("x" + q + " y"); len(got) != 2 || got[0] != "x"+text || got[1] != "y" {
				return fmt.Sprintf("read as %q, not %q", got, "x"+text)
			}
			return ""
		})
	}
}
