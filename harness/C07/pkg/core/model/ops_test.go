//go:build go1.21

package model

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/vh"
)

func opsText(res []EnvOpsCheckResult) string {
	var r []string
	for _, it := range res {
		s := it.Key
		for _, f := range []struct {
			on   bool
			name string
		}{{it.ReadNotExist, "read"}, {it.MayReadNotExist, "may-read"}, {it.ReadMayWrite, "read/maybe"}, {it.MayReadMayWrite, "may-read/maybe"}} {
			if f.on {
				s += " " + f.name
			}
		}
		var ws []string
		for _, w := range it.MayWriteCmdsBefore {
			ws = append(ws, w.Cmd.Owner().Name())
		}
		if len(ws) > 0 {
			s += " after " + strings.Join(ws, " ")
		}
		r = append(r, s+" by "+it.Cmd.Name())
	}
	return strings.Join(r, ", ")
}

func TestVHReadsOfCommands(t *testing.T) {
	c := vh.New(t, "random commands with read, may-read, write and may-write operations checked one after another, reports against the operations before")
	defer c.Done()
	r := c.R
	keys := []string{"k", "l", "k.l", "m"}
	for c.More() {
		tree := NewCmdTree(CmdTreeStrsForTest())
		type op struct {
			key  string
			kind uint
		}
		num := 1 + r.Intn(5)
		var cmds []*Cmd
		var ops [][]op
		desc := ""
		for i := 0; i < num; i++ {
			cmd := tree.AddSub(fmt.Sprintf("c%d", i)).RegEmptyCmd("help").AddArg("a", "")
			var l []op
			for j := r.Intn(5); j > 0; j-- {
				l = append(l, op{vh.Pick(r, keys...), []uint{EnvOpTypeRead, EnvOpTypeMayRead, EnvOpTypeWrite, EnvOpTypeMayWrite}[r.Intn(4)]})
			}
			for _, o := range l {
				k := o.key
				if k == "m" {
					k = "[[a]]"
				}
				cmd.AddEnvOp(k, o.kind)
				desc += fmt.Sprintf("%s %s:%s\n", cmd.Owner().Name(), o.key, EnvOpStr(o.kind))
			}
			cmds = append(cmds, cmd)
			ops = append(ops, l)
		}
		env := NewEnv().NewLayer(EnvLayerSession)
		for _, k := range keys {
			if r.Intn(5) == 0 {
				env.Set(k, vh.Pick(r, "v", "", "0"))
			}
		}
		fatal := r.Intn(2) == 0
		type known struct {
			sure, maybe bool
			by          []string
		}
		state := map[string]*known{}
		for _, k := range keys {
			state[k] = &known{}
		}
		var want []string
		for i, l := range ops {
			// operations are checked key by key, in the order the keys are declared
			var order []string
			byKey := map[string][]op{}
			for _, o := range l {
				if byKey[o.key] == nil {
					order = append(order, o.key)
				}
				byKey[o.key] = append(byKey[o.key], o)
			}
			for _, k := range order {
				for _, o := range byKey[k] {
					s := state[k]
					switch o.kind {
					case EnvOpTypeWrite:
						s.sure = true
					case EnvOpTypeMayWrite:
						s.maybe = true
						s.by = append(s.by, fmt.Sprintf("c%d", i))
					default:
						if s.sure || env.GetRaw(k) != "" || fatal && (s.maybe || o.kind == EnvOpTypeMayRead) {
							continue
						}
						w := k + " " + EnvOpStr(o.kind)
						if s.maybe {
							w += "/maybe after " + strings.Join(s.by, " ")
						}
						want = append(want, w+fmt.Sprintf(" by c%d", i))
					}
				}
			}
		}
		c.Try("EnvOpsChecker.OnCallCmd", fmt.Sprintf("%senv %v fatal only %v", desc, env.FlattenAll(), fatal), func() string {
			checker := EnvOpsChecker{}
			provs := FirstArg2EnvProviders{}
			var res []EnvOpsCheckResult
			for i, cmd := range cmds {
				parsed := ParsedCmd{Segments: []ParsedCmdSeg{{Matched: MatchedCmd{Name: fmt.Sprintf("c%d", i), Cmd: cmd.Owner()}}}}
				res = append(res, checker.OnCallCmd(env, ArgVals{"a": ArgVal{Raw: "m", Provided: true}}, parsed, ".", cmd, fatal, "c", provs)...)
			}
			if got := opsText(res); got != strings.Join(want, ", ") {
				return fmt.Sprintf("reported %q, expected %q", got, strings.Join(want, ", "))
			}
			return ""
		})
	}
}
