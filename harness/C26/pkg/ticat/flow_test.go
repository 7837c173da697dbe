//go:build go1.21

package ticat_test

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"unicode"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

func world(dir string) *vhe.World {
	w := vhe.New(dir)
	w.Cmd("tool").AddArg("first", "d1", "f").AddArg("second", "d2", "s2").AddArg("third", "")
	w.Cmd("tool.sub").AddArg("only", "")
	w.Cmd("plain")
	w.Cmd("dir.leaf").AddArg("one", "")
	w.CC.EnvAbbrs.GetOrAddSub("deep").AddAbbrs("dp")
	w.CC.EnvAbbrs.GetOrAddSub("deep").GetOrAddSub("key").AddAbbrs("k")
	w.CC.EnvAbbrs.GetOrAddSub("dir").GetOrAddSub("known").AddAbbrs("kn")
	return w
}

// what the parsed flow says, in a form of its own
func says(f *model.ParsedCmds) (r []string) {
	r = append(r, fmt.Sprint("first is global: ", f.GlobalCmdIdx >= 0))
	for _, cmd := range f.Cmds {
		if len(cmd.Segments) == 0 {
			continue // does nothing
		}
		t := strings.Repeat("^", cmd.TrivialLvl)
		for _, seg := range cmd.Segments {
			name := "-"
			if seg.Matched.Cmd != nil {
				name = seg.Matched.Cmd.DisplayPath()
			}
			var kvs []string
			for k, v := range seg.Env {
				kvs = append(kvs, fmt.Sprintf("%q=%q arg:%v sys:%v", k, v.Val, v.IsArg, v.IsSysArg))
			}
			sort.Strings(kvs)
			t += "/" + name + "[" + strings.Join(kvs, " ") + "]"
		}
		r = append(r, t)
	}
	return
}

func parse(w *vhe.World, words []string) *model.ParsedCmds {
	return w.CC.Parser.Parse(w.CC.Cmds, w.CC.EnvAbbrs, append([]string{}, words...)...)
}

func good(f *model.ParsedCmds) bool {
	for _, cmd := range f.Cmds {
		if cmd.ParseResult.Error != nil {
			return false
		}
	}
	return true
}

func roundTrip(w *vhe.World, words []string) string {
	f := parse(w, words)
	if !good(f) {
		return ""
	}
	want := says(f)
	text := model.SaveFlowToStr(f, w.CC.Cmds.Strs.PathSep, "^", w.Env)
	var back []string
	if p, why := vh.Panics(func() { back = model.FlowStrToStrs(text) }); p {
		return fmt.Sprintf("saved as %q, which cannot be read: %v", text, why)
	}
	g := parse(w, back)
	if !good(g) {
		for _, cmd := range g.Cmds {
			if cmd.ParseResult.Error != nil {
				return fmt.Sprintf("saved as %q, which is rejected: %v", text, cmd.ParseResult.Error)
			}
		}
	}
	if got := says(g); strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("saved as %q, which says %q, not %q", text, got, want)
	}
	return ""
}

var alphabet = []string{"a", "B", "0", "2", " ", "\t", "\n", "\"", "'", "\\", ":", ";", "&", "|", "<", ">", "(", ")", "`", "$", "=", "#", ".", "%", "é", "界", "http:", "^", "-"}

func escaped(v string) string { return strings.ReplaceAll(v, ":", "\\:") }

// the value can be said on a command line: no blanks at its ends, no brackets
func sayable(v string) bool {
	return v != "" && v != "--" && strings.TrimFunc(v, unicode.IsSpace) == v
}

func value(c *vh.C) string {
	for {
		if v := vh.Str(c.R, alphabet, 1+c.R.Intn(7)); sayable(v) {
			return v
		}
	}
}

func block(c *vh.C, keys ...string) []string {
	var kvs []string
	for i := 0; i < 1+c.R.Intn(2); i++ {
		kvs = append(kvs, vh.Pick(c.R, keys...)+"="+escaped(value(c)))
	}
	switch c.R.Intn(3) {
	case 0:
		return append(append([]string{"{"}, kvs...), "}")
	case 1:
		kvs[0] = "{" + kvs[0]
		kvs[len(kvs)-1] += "}"
		return kvs
	}
	kvs[0] = "{" + kvs[0]
	return append(kvs, "}")
}

func glue(words []string, w string) []string {
	words = append([]string{}, words...)
	words[len(words)-1] += w
	return words
}

func args(c *vh.C, names ...string) (r []string) {
	vals := false
	perm := c.R.Perm(len(names))
	switch c.R.Intn(3) {
	case 0:
		for i := 0; i < c.R.Intn(len(names)+1); i++ {
			v := value(c)
			if strings.Contains(v, "=") {
				v = "x"
			}
			if i > 0 && c.R.Intn(8) == 0 {
				v = ""
			}
			r = append(r, escaped(v))
		}
	case 1:
		vals = true
	}
	if vals {
		for _, i := range perm[:1+c.R.Intn(len(perm))] {
			r = append(r, names[i]+"="+escaped(value(c)))
		}
		if c.R.Intn(4) == 0 {
			r = append(r, "%delay=3")
		}
	}
	return
}

func command(c *vh.C) (r []string) {
	for c.R.Intn(6) == 0 {
		r = append(r, "^")
	}
	free := []string{"x", "deep.key", "dp.k", "deep.other", "tool.first", "sys.x", "dir.known"}
	if c.R.Intn(4) == 0 {
		r = append(r, block(c, free...)...)
	}
	switch c.R.Intn(6) {
	case 0:
		return append(r, "plain")
	case 1:
		if c.R.Intn(2) == 0 {
			return append(r, "tool.sub")
		}
		r = append(r, glue([]string{"tool.sub"}, "")...)
		return append(r, args(c, "only")...)
	case 2:
		return append(append(r, "dir.leaf"), args(c, "one")...)
	case 3:
		b := block(c, "x", "known", "kn", "other.one")
		b[0] = "dir" + b[0]
		b[len(b)-1] += vh.Pick(c.R, ".leaf", "leaf")
		return append(append(r, b...), args(c, "one")...)
	case 4:
		if len(r) == 0 {
			r = block(c, free...)
		}
		return r
	}
	return append(append(r, "tool"), args(c, vh.Pick(c.R, "first", "f"), vh.Pick(c.R, "second", "s2"), "third")...)
}

func line(c *vh.C, n int) (r []string) {
	if c.R.Intn(3) == 0 {
		r = append(r, ":")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			r = append(r, ":")
		}
		r = append(r, command(c)...)
	}
	return
}

func TestVHFlow(t *testing.T) {
	c := vh.New(t, "a saved flow is read back as the same commands with the same settings and arguments")
	defer c.Done()
	w := world(vh.Work())
	for _, words := range [][]string{{"tool", "x", ""}, {"tool", "x", "", "y"}} {
		words := words
		c.Try("flow", fmt.Sprintf("%q", words), func() string { return roundTrip(w, words) })
	}
	for _, a := range alphabet {
		for _, b := range alphabet {
			if v := a + b; sayable(v) {
				for _, words := range [][]string{
					{"tool", "first=" + escaped(v), ":", "plain"}, {"tool", "second=" + escaped("q q"+v), "first=" + escaped(v+"z")},
					{"{x=" + escaped(v) + "}", "plain"}, {"dir{y=" + escaped(v) + "}.leaf", "u"}} {
					words := words
					c.Try("flow", fmt.Sprintf("%q", words), func() string { return roundTrip(w, words) })
				}
			}
		}
	}
	for c.More() {
		words := line(c, 1+c.R.Intn(3))
		c.Try("flow", fmt.Sprintf("%q", words), func() string { return roundTrip(w, words) })
	}
}

// saved and run
func TestVHRun(t *testing.T) {
	c := vh.New(t, "running a saved flow does what the saved command line does")
	defer c.Done()
	for n := 0; c.More(); n++ {
		var words []string
		for {
			words = line(c, 1+c.R.Intn(3))
			if f := parse(world(vh.Work()), words); good(f) && len(f.Cmds) > 0 && f.GlobalCmdIdx >= 0 && !f.Cmds[0].IsEmpty() {
				break
			}
		}
		// the text of a flow may hold no line break, and a comment mark or a template means something else
		all := strings.Join(words, "")
		if strings.ContainsAny(all, "\n#%") || strings.Contains(all, "[[") {
			continue
		}
		c.Try("run", fmt.Sprintf("%q", words), func() string {
			dir := filepath.Join(vh.Work(), fmt.Sprint("r", n%50))
			os.RemoveAll(dir)
			a, b := world(dir), world(dir)
			a.Out.Text.Reset()
			ok, p := a.Run(append([]string{"flow.save", "vhsaved", ":"}, words...)...)
			if !ok || p != nil {
				return ""
			}
			if ok, p = b.Run("flow.load", filepath.Join(dir, "flows")); !ok || p != nil {
				return fmt.Sprintf("the saved flow cannot be loaded: %v %v", ok, p)
			}
			ok, p = b.Run("vhsaved")
			if !ok || p != nil {
				return fmt.Sprintf("the saved flow does not run: %v %v\n%s\n%s", ok, p, b.Out.Text.String(), a.Out.Text.String())
			}
			x := world(dir) // the words after 'flow.save' are not at the start of the line
			if ok, p = x.Run(append([]string{":"}, words...)...); !ok || p != nil {
				return ""
			}
			if got, want := fmt.Sprint(b.Log), fmt.Sprint(x.Log); got != want {
				return fmt.Sprintf("the saved flow ran %s, not %s", got, want)
			}
			return ""
		})
	}
}
