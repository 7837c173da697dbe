//go:build go1.21

package parser_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/parser"
	"github.com/innerr/ticat/pkg/vh"
)

type tok struct {
	s   string
	sep bool
}

// words reads one argument left to right.
func words(arg, sep string, pre, suf []string) (r []tok) {
	if arg == "" {
		return []tok{{"", false}}
	}
	text, word, open := "", "", false
	for i := 0; i < len(arg); {
		rest := arg[i:]
		if strings.HasPrefix(rest, "\\"+sep) {
			text, word, open = text+sep, word+sep, true
			i += 1 + len(sep)
			continue
		}
		if !strings.HasPrefix(rest, sep) {
			text, word, open = text+rest[:1], word+rest[:1], true
			i++
			continue
		}
		kept := false
		for _, p := range pre {
			kept = kept || strings.HasSuffix(text, p)
		}
		for _, p := range suf {
			kept = kept || strings.HasPrefix(rest[len(sep):], p)
		}
		text += sep
		i += len(sep)
		if kept {
			word, open = word+sep, true
			continue
		}
		if open {
			r = append(r, tok{word, false})
		}
		word, open = "", false
		r = append(r, tok{sep, true})
	}
	if open {
		r = append(r, tok{word, false})
	}
	return r
}

func expect(argv []string, sep string, pre, suf []string) (flat []string, segs [][]string, global bool) {
	flat, segs = []string{}, [][]string{}
	curr := []string{}
	first := true
	global = true
	for _, a := range argv {
		for _, t := range words(a, sep, pre, suf) {
			if first && t.sep {
				global = false
			}
			first = false
			flat = append(flat, t.s)
			if t.sep {
				segs = append(segs, curr)
				curr = []string{}
			} else {
				curr = append(curr, strings.TrimSpace(t.s))
			}
		}
	}
	return flat, append(segs, curr), global
}

func check(argv []string, sep string, pre, suf []string) string {
	flat, segs, global := expect(argv, sep, pre, suf)
	keep := append([]string{}, argv...)
	p := parser.NewSequenceParser(sep, pre, suf)
	if got := p.Normalize(argv); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", flat) {
		return fmt.Sprintf("Normalize gives %q, want %q", got, flat)
	}
	got, isGlobal := p.Parse(argv)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", segs) {
		return fmt.Sprintf("Parse gives %q, want %q", got, segs)
	}
	if isGlobal != global {
		return fmt.Sprintf("first segment global: %v, want %v", isGlobal, global)
	}
	if fmt.Sprintf("%q", keep) != fmt.Sprintf("%q", argv) {
		return "the argument list was changed"
	}
	return ""
}

func TestVHSequence(t *testing.T) {
	c := vh.New(t, "an argument list is cut into words and segments as a left to right reading says")
	defer c.Done()
	type conf struct {
		sep      string
		pre, suf []string
	}
	confs := []conf{
		{":", []string{"http", "HTTP", "https", "HTTPS"}, []string{}},
		{":", []string{"a"}, []string{"/"}},
		{":", nil, []string{"//", "b"}},
		{"::", []string{"a"}, []string{"/"}},
		{":", nil, nil},
		{"ab", []string{"a"}, []string{"b"}},
	}
	try := func(f conf, argv []string) {
		c.Try("sequence", fmt.Sprintf("sep %q prefixes %q suffixes %q argv %q", f.sep, f.pre, f.suf, argv), func() string {
			return check(argv, f.sep, f.pre, f.suf)
		})
	}
	al := []string{":", "\\", "a", " ", "/", "http"}
	n := 4
	if c.Deep {
		n = 6
	}
	for _, f := range confs {
		f := f
		vh.Strings(al, n, func(s string) {
			try(f, []string{s})
			if len(s) < 4 {
				try(f, []string{"", s, s})
				try(f, []string{s, ":", " b "})
			}
		})
	}
	al = []string{":", ":", "\\", "a", "b", " ", "/", "http", "https", "HTTP", "HTTPS", "Http", "\t", "\r", "\v", "\f", "\n", "\u00a0", "\u2003", "\u200b", "\x85", "\u0085", "\xff", "é", "::", "ab"}
	for c.More() {
		f := vh.Pick(c.R, confs...)
		var argv []string
		for k := c.R.Intn(5); k >= 0; k-- {
			argv = append(argv, vh.Str(c.R, al, c.R.Intn(9)))
		}
		try(f, argv)
	}
}
