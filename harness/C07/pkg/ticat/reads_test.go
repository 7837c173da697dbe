//go:build go1.21

package ticat_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

type envOp struct {
	key  string
	kind uint
}

// call: a command of a flow and the keys set for it only.
type call struct {
	name string
	keys []string
}

type opsProgram struct {
	ops      map[string][]envOp
	flows    map[string][]call
	globals  map[string][]string
	sure     map[string]bool
	maybe    map[string]bool
	session  map[string]bool
	all      []string
	fatals   []string
	commands int
}

func (p *opsProgram) check(flow []call, scope map[string]bool) {
	for _, it := range flow {
		p.commands++
		if p.commands > 200 {
			return
		}
		has := map[string]bool{}
		for k := range scope {
			has[k] = true
		}
		for _, k := range it.keys {
			has[k] = true
		}
		f := strings.SplitN(it.name, " ", 2)
		if f[0] == "zset" {
			p.sure[f[1]] = true
			p.session[f[1]] = true
			continue
		}
		if f[0] == "zdel" {
			p.sure[f[1]], p.maybe[f[1]] = false, false
			delete(p.session, f[1])
			continue
		}
		var order []string
		byKey := map[string][]envOp{}
		for _, o := range p.ops[it.name] {
			if byKey[o.key] == nil {
				order = append(order, o.key)
			}
			byKey[o.key] = append(byKey[o.key], o)
		}
		for _, k := range order {
			for _, o := range byKey[k] {
				switch o.kind {
				case model.EnvOpTypeWrite:
					p.sure[k] = true
				case model.EnvOpTypeMayWrite:
					p.maybe[k] = true
				default:
					if p.sure[k] || has[k] || p.session[k] {
						continue
					}
					s := k + " " + model.EnvOpStr(o.kind)
					if p.maybe[k] {
						s += "/maybe"
					} else if o.kind == model.EnvOpTypeRead {
						p.fatals = append(p.fatals, s+" by "+it.name)
					}
					p.all = append(p.all, s+" by "+it.name)
				}
			}
		}
		if sub, ok := p.flows[it.name]; ok {
			for _, k := range p.globals[it.name] {
				has[k] = true
			}
			p.check(sub, has)
		}
	}
}

func flowLine(cmds []call, globals []string) string {
	set := func(keys []string) string {
		if len(keys) == 0 {
			return ""
		}
		return "{" + strings.Join(keys, "=1 ") + "=1} "
	}
	var r []string
	for _, it := range cmds {
		f := strings.SplitN(it.name, " ", 2)
		name := it.name
		if len(f) == 2 {
			name = f[0] + " key=" + f[1]
			if f[0] == "zset" {
				name += " value=1"
			}
		}
		r = append(r, set(it.keys)+name)
	}
	return set(globals) + strings.Join(r, " : ")
}

func TestVHReadsInPrograms(t *testing.T) {
	c := vh.New(t, "programs of nested flows over commands with env operations: what the check reports and whether the program runs, against the operations before each read")
	defer c.Done()
	r := c.R
	keys := []string{"zk", "zl", "zm"}
	for c.More() {
		p := &opsProgram{ops: map[string][]envOp{}, flows: map[string][]call{}, globals: map[string][]string{}, sure: map[string]bool{}, maybe: map[string]bool{}, session: map[string]bool{}}
		var names []string
		pick := func() string { return vh.Pick(r, keys...) }
		del := r.Intn(3) == 0
		some := func() (l []string) {
			if r.Intn(4) == 0 {
				l = append(l, pick())
			}
			return
		}
		newOps := func(name string) {
			for j := r.Intn(4); j > 0; j-- {
				p.ops[name] = append(p.ops[name], envOp{pick(), []uint{model.EnvOpTypeRead, model.EnvOpTypeMayRead, model.EnvOpTypeWrite, model.EnvOpTypeMayWrite, model.EnvOpTypeMayRead}[r.Intn(5)]})
			}
		}
		for i := 0; i < 4; i++ {
			n := fmt.Sprintf("zc%d", i)
			newOps(n)
			names = append(names, n)
		}
		list := func() (l []call) {
			for i := 1 + r.Intn(4); i > 0; i-- {
				it := call{name: names[r.Intn(len(names))]}
				switch r.Intn(8) {
				case 0:
					it.name = "zset " + pick()
				case 1:
					if del {
						it.name = "zdel " + pick()
					}
				}
				if len(l) > 0 {
					it.keys = some()
				}
				l = append(l, it)
			}
			return
		}
		for i := r.Intn(4); i > 0; i-- {
			n := fmt.Sprintf("zf%d", i)
			l := list()
			if r.Intn(2) == 0 {
				newOps(n)
			}
			p.globals[n] = some()
			p.flows[n] = l
			names = append(names, n)
		}
		top := list()
		p.check(top, map[string]bool{})
		if p.commands > 200 {
			continue
		}
		desc := flowLine(top, nil)
		for _, n := range vh.Keys(p.flows) {
			desc += "\n  " + n + ": " + flowLine(p.flows[n], p.globals[n])
		}
		for _, n := range names {
			for _, o := range p.ops[n] {
				desc += "\n  " + n + " " + o.key + "=" + model.EnvOpStr(o.kind)
			}
		}
		c.Try("CheckEnvOps", desc, func() string {
			w := vhe.New(vh.Work())
			reg := func(path string, f model.PowerCmd, args ...string) {
				n := w.Node(path)
				n.SetSource("")
				cmd := n.RegPowerCmd(f, "op")
				for _, a := range args {
					cmd.AddArg(a, "")
				}
			}
			reg("zset", builtin.SetEnvKeyValue, "key", "value")
			reg("zdel", builtin.RemoveEnvValNotSave, "key")
			for _, n := range names {
				var cmd *model.Cmd
				if l, ok := p.flows[n]; ok {
					cmd = w.Flow(n, flowLine(l, p.globals[n]))
				} else {
					cmd = w.Cmd(n)
				}
				for _, o := range p.ops[n] {
					cmd.AddEnvOp(o.key, o.kind)
				}
			}
			var words []string
			for i, it := range top {
				if i != 0 {
					words = append(words, ":")
				}
				words = append(words, strings.Fields(flowLine([]call{it}, nil))...)
			}
			for _, fatal := range []bool{true, false} {
				flow := w.CC.Parser.Parse(w.CC.Cmds, w.CC.EnvAbbrs, words...)
				if err := flow.FirstErr(); err != nil {
					return fmt.Sprintf("not parsed: %v", err.Error)
				}
				var res []model.EnvOpsCheckResult
				before := fmt.Sprint(w.Env.FlattenAll())
				model.CheckEnvOps(w.CC, flow, w.Env.Clone(), &model.EnvOpsChecker{}, fatal, builtin.EnvOpCmds(), &res)
				if before != fmt.Sprint(w.Env.FlattenAll()) {
					return "the check changed the env"
				}
				var got []string
				for _, it := range res {
					s := it.Key
					switch {
					case it.ReadNotExist:
						s += " read"
					case it.MayReadNotExist:
						s += " may-read"
					case it.ReadMayWrite:
						s += " read/maybe"
					case it.MayReadMayWrite:
						s += " may-read/maybe"
					}
					got = append(got, s+" by "+it.Cmd.Name())
				}
				want := p.all
				if fatal {
					want = p.fatals
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Sprintf("fatal only %v: reported %q, expected %q", fatal, got, want)
				}
			}
			ok, panicked := w.Run(words...)
			if panicked != nil {
				return fmt.Sprintf("panicked: %v", panicked)
			}
			if ok != (len(p.fatals) == 0) {
				return fmt.Sprintf("ran: %v, %d fatal reports expected: %q; %s", ok, len(p.fatals), p.fatals, w.Out.Text.String())
			}
			if !ok && len(w.Log) != 0 {
				return fmt.Sprintf("refused but ran %v", w.Names())
			}
			return ""
		})
	}
}
