//go:build go1.21

package ticat_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

type rule struct {
	kind, on, with string
	cnt            int
}

type program struct {
	flows map[string][]string // commands of the flows
	rules []rule
	calls []string
}

func ruleOf(cmd string) (rule, bool) {
	f := strings.SplitN(cmd, "|", 3)
	if len(f) < 3 {
		return rule{}, false
	}
	r := rule{f[0], f[1], f[2], 1}
	if strings.HasSuffix(r.kind, ".all") {
		r.kind, r.cnt = strings.TrimSuffix(r.kind, ".all"), -1
	}
	return r, true
}

// run: what the program should do with the commands, at most n calls.
func (p *program) run(cmds []string, depth int) bool {
	var list []string
	for _, cmd := range cmds {
		if ru, ok := ruleOf(cmd); ok {
			if ru.kind == "clear" {
				p.rules = nil
			} else {
				p.rules = append(p.rules, ru)
			}
			continue
		}
		before, after, origin, gone := []string{}, []string{}, []string{cmd}, false
		var left []rule
		for _, r := range p.rules {
			if gone || r.on != strings.Fields(cmd)[0] {
				left = append(left, r)
				continue
			}
			switch r.kind {
			case "replace":
				origin, gone = []string{r.with}, true
			case "remove":
				origin, gone = nil, true
			case "insert":
				before = append(before, r.with)
			case "after":
				after = append([]string{r.with}, after...)
			}
			if r.cnt > 0 {
				r.cnt--
			}
			if r.cnt != 0 {
				left = append(left, r)
			}
		}
		p.rules = left
		list = append(append(append(list, before...), origin...), after...)
	}
	for _, cmd := range list {
		name := strings.Fields(cmd)[0]
		if sub, ok := p.flows[name]; ok {
			if depth > 12 || !p.run(sub, depth+1) {
				return false
			}
			continue
		}
		p.calls = append(p.calls, cmd)
		if len(p.calls) > 60 {
			return false
		}
	}
	return true
}

// words of a command as typed
func typed(cmd string) []string {
	ru, ok := ruleOf(cmd)
	if !ok {
		return strings.Fields(cmd)
	}
	all := ""
	if ru.cnt < 0 {
		all = ".all"
	}
	switch ru.kind {
	case "clear":
		return []string{"zrule.clear"}
	case "replace":
		return []string{"flow.replace" + all, "src=" + ru.on, "dest=" + ru.with}
	case "remove":
		return []string{"zrule.remove" + all, "target=" + ru.on}
	}
	return []string{"zrule." + ru.kind + all, "target=" + ru.on, "new=" + ru.with}
}

func line(cmds []string) string {
	var r []string
	for _, cmd := range cmds {
		var ws []string
		for _, w := range typed(cmd) {
			if strings.Contains(w, " ") {
				w = "'" + w + "'"
			}
			ws = append(ws, w)
		}
		r = append(r, strings.Join(ws, " "))
	}
	return strings.Join(r, " : ")
}

func TestVHRulesInPrograms(t *testing.T) {
	c := vh.New(t, "flow-altering commands apply to the matching commands of the running flows, in order, as often as announced")
	defer c.Done()
	r := c.R
	plain := []string{"za", "zb", "zb.za"}
	for c.More() {
		p := &program{flows: map[string][]string{}}
		num := 0
		names := append([]string{}, plain...)
		cmd := func() string {
			s := names[r.Intn(len(names))]
			if _, ok := p.flows[s]; !ok && r.Intn(2) == 0 {
				num++
				s += fmt.Sprintf(" x=%d", num)
			}
			return s
		}
		any := func() string {
			if r.Intn(3) != 0 {
				return cmd()
			}
			kind := vh.Pick(r, "replace", "replace", "replace", "remove", "insert", "after")
			if r.Intn(12) == 0 {
				return "clear||"
			}
			with := cmd()
			if kind == "remove" {
				with = ""
			}
			return kind + vh.Pick(r, "", ".all") + "|" + names[r.Intn(len(names))] + "|" + with
		}
		list := func() (cmds []string) {
			for i := r.Intn(4); i >= 0; i-- {
				cmds = append(cmds, any())
			}
			return
		}
		for i := r.Intn(4); i > 0; i-- {
			l := list()
			name := fmt.Sprintf("zf%d", len(p.flows))
			p.flows[name] = l
			names = append(names, name)
		}
		top := list()
		if !p.run(top, 0) {
			continue
		}
		desc := line(top)
		for _, n := range vh.Keys(p.flows) {
			desc += "\n  " + n + ": " + line(p.flows[n])
		}
		c.Try("flow.rules", desc, func() string {
			w := vhe.New(vh.Work())
			for _, n := range plain {
				w.Cmd(n).AddArg("x", "")
			}
			reg := func(path string, f model.PowerCmd, args ...string) {
				n := w.Node(path)
				n.SetSource("")
				cmd := n.RegPowerCmd(f, "rule").SetQuiet().SetIsBlenderCmd()
				for _, a := range args {
					cmd.AddArg(a, "")
				}
			}
			reg("zrule.remove", builtin.BlenderRemoveOnce, "target")
			reg("zrule.remove.all", builtin.BlenderRemoveForAll, "target")
			reg("zrule.insert", builtin.BlenderInsertOnce, "target", "new")
			reg("zrule.insert.all", builtin.BlenderInsertForAll, "target", "new")
			reg("zrule.after", builtin.BlenderInsertAfterOnce, "target", "new")
			reg("zrule.after.all", builtin.BlenderInsertAfterForAll, "target", "new")
			reg("zrule.clear", builtin.BlenderClear)
			for n, l := range p.flows {
				w.Flow(n, line(l))
			}
			var words []string
			for i, s := range top {
				if i != 0 {
					words = append(words, ":")
				}
				words = append(words, typed(s)...)
			}
			ok, panicked := w.Run(words...)
			if !ok || panicked != nil {
				return fmt.Sprintf("failed: %v %s", panicked, w.Out.Text.String())
			}
			var got []string
			for _, call := range w.Log {
				s := call.Name
				if call.Argv["x"] != "" {
					s += " x=" + call.Argv["x"]
				}
				got = append(got, s)
			}
			if fmt.Sprint(got) != fmt.Sprint(p.calls) {
				return fmt.Sprintf("ran %q, expected %q", got, p.calls)
			}
			return ""
		})
	}
}
