//go:build go1.21

package model_test

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

var ref = regexp.MustCompile(`(?s)\[\[(.*?)\]\]`)
var list = regexp.MustCompile(`(?s)^(.*?)\*\*(.*?)\[\[\*(.*?)\*\]\](.*?)\*\*(.*)$`)

type names struct{ env, args map[string]string }

func (n names) val(k string) (string, bool) {
	if v, ok := n.env[k]; ok {
		return v, true
	}
	v := n.args[k]
	return v, v != ""
}

// text: each reference replaced, each missing name noted
func (n names) text(s string, miss *[]string) string {
	return ref.ReplaceAllStringFunc(s, func(m string) string {
		k := m[2 : len(m)-2]
		if v, ok := n.val(k); ok {
			return v
		}
		*miss = append(*miss, k)
		return m
	})
}

func (n names) line(s string) (out, miss []string) {
	// the marks count only in this order: list opened before the first list reference, closed after it
	i := strings.Index(s, "[[*")
	m := list.FindStringSubmatch(s)
	if i > 0 && m != nil && strings.Contains(s[:i], "**") {
		k := strings.TrimSpace(m[3])
		v, ok := n.val(k)
		if !ok {
			t := n.text(s, &miss)
			return []string{t}, append(miss, k)
		}
		if m[1] != "" {
			out = append(out, strings.TrimSpace(n.text(m[1], &miss)))
		}
		head, tail := n.text(m[2], &miss), n.text(m[4], &miss)
		for _, x := range strings.Split(v, ",") {
			out = append(out, strings.TrimSpace(head+strings.TrimSpace(x)+tail))
		}
		if m[5] != "" {
			out = append(out, strings.TrimSpace(n.text(m[5], &miss)))
		}
		return
	}
	return []string{n.text(s, &miss)}, miss
}

func newCmd() *model.Cmd {
	tree := model.NewCmdTree(model.CmdTreeStrsForTest())
	return tree.AddSub("x").RegEmptyCmd("help").AddArg("a", "").AddArg("b", "")
}

func render(cmd *model.Cmd, n names, lines []string, allow bool) (out []string, full bool, panicked bool) {
	env := model.NewEnv()
	for k, v := range n.env {
		env.Set(k, v)
	}
	argv := model.ArgVals{}
	for k, v := range n.args {
		argv[k] = model.ArgVal{Raw: v, Provided: true}
	}
	panicked, _ = vh.Panics(func() {
		out, full = model.RenderTemplateStrLines(lines, "flow", cmd, argv, env, allow)
	})
	if !panicked {
		for k, v := range n.env {
			if env.GetRaw(k) != v {
				out = append(out, "env changed: "+k)
			}
		}
	}
	return
}

func oneCase(cmd *model.Cmd, n names, lines []string) string {
	var want, miss []string
	for _, l := range lines {
		if strings.HasPrefix(strings.TrimSpace(l), "#") {
			continue
		}
		o, m := n.line(l)
		want, miss = append(want, o...), append(miss, m...)
	}
	got, full, panicked := render(cmd, n, lines, true)
	switch {
	case panicked:
		return "rendering crashed where missing values are allowed"
	case full != (len(miss) == 0):
		return fmt.Sprintf("fully rendered: %v, but without a value: %q", full, miss)
	case fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want):
		return fmt.Sprintf("rendered as %q, not as %q", got, want)
	}
	got, full, panicked = render(cmd, n, lines, false)
	switch {
	case panicked != (len(miss) != 0):
		return fmt.Sprintf("reported: %v, without a value: %q", panicked, miss)
	case !panicked && (!full || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want)):
		return fmt.Sprintf("rendered as %q (%v), not as %q", got, full, want)
	}
	return ""
}

func TestVHTemplate(t *testing.T) {
	c := vh.New(t, "flow lines of text, references and list marks, with values that contain the same")
	defer c.Done()
	cmd := newCmd()
	vals := []string{"v", "", "1,2", " p , q ", "[[a]]", "[[b]]", "[[e.f]]", "[[", "]]", "x[[*a*]]y", "**", ",", "RANDOM", "#", "世"}
	parts := []string{"[[a]]", "[[b]]", "[[e.f]]", "[[g]]", "[[no]]", "[[", "]]", "[", "]", "**", "*", " ", "x", "[[*a*]]", "[[*e.f*]]", "[[*no*]]", "[[* g *]]", "a", "#", "\n", "世", ":", "[[]]", "[[ a ]]", "[[h]]"}
	one := func(n names, lines []string) {
		c.Try("render", fmt.Sprintf("lines %q env %q args %q", lines, n.env, n.args), func() string { return oneCase(cmd, n, lines) })
	}
	fix := names{map[string]string{"e.f": "[[a]],z", "g": "1,2"}, map[string]string{"a": "A[[e.f]]", "b": ""}}
	c.For(30, func() {
		for _, a := range parts {
			for _, b := range parts {
				one(fix, []string{a + b})
				for _, d := range parts {
					one(fix, []string{a + b + d})
					if !c.More() {
						return
					}
				}
			}
		}
	})
	for c.More() {
		n := names{map[string]string{}, map[string]string{}}
		for _, k := range []string{"e.f", "g", "a"} {
			if c.R.Intn(3) > 0 {
				n.env[k] = vh.Pick(c.R, vals...)
			}
		}
		for _, k := range []string{"a", "b", "h"} {
			if c.R.Intn(3) > 0 {
				n.args[k] = vh.Pick(c.R, vals...)
			}
		}
		var lines []string
		for i := c.R.Intn(4); i >= 0; i-- {
			s := vh.Str(c.R, parts, 8)
			if c.R.Intn(3) == 0 {
				s = vh.Str(c.R, parts, 3) + "**" + vh.Str(c.R, parts, 3) + vh.Pick(c.R, "[[*a*]]", "[[*g*]]", "[[*e.f*]]", "[[*b*]]") + vh.Str(c.R, parts, 3) + "**" + vh.Str(c.R, parts, 3)
			}
			lines = append(lines, s)
		}
		one(n, lines)
	}
}
