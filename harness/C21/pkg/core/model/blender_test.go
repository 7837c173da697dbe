//go:build go1.21

package model

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/vh"
)

// rule: what a live rule says, kept apart from the code under test.
type rule struct {
	kind string
	on   string
	with string
	cnt  int
}

func (r rule) String() string { return fmt.Sprintf("%s %s %s x%d", r.kind, r.on, r.with, r.cnt) }

// applyRules: the commands in the place of one, the rules left.
func applyRules(rules []rule, cmd string) (out []string, at int, left []rule) {
	before, after, origin, gone := []string{}, []string{}, []string{cmd}, false
	for _, r := range rules {
		if gone || r.on != strings.Fields(cmd)[0] {
			left = append(left, r)
			continue
		}
		switch r.kind {
		case "replace":
			origin, gone = []string{r.with}, true
		case "remove":
			origin, gone = nil, true
		case "insert":
			before = append(before, r.with)
		case "after":
			after = append([]string{r.with}, after...)
		}
		if r.cnt > 0 {
			r.cnt--
		}
		if r.cnt != 0 {
			left = append(left, r)
		}
	}
	at = len(before)
	if gone {
		at = -1
	}
	return append(append(before, origin...), after...), at, left
}

func TestVHBlenderRules(t *testing.T) {
	c := vh.New(t, "live rules apply to the matching commands, in flow order, as often as announced; the other commands are unchanged")
	defer c.Done()
	names := []string{"za", "zb.za", "zb", "zc.za", "zd"}
	cc := &Cli{Cmds: NewCmdTree(CmdTreeStrsForTest())}
	for _, n := range names {
		cc.Cmds.GetOrAddSub(strings.Split(n, ".")...).RegEmptyCmd("help").AddArg("x", "")
	}
	env := NewEnvEx(EnvLayerDefault)
	env.SetInt("sys.stack-depth", 0)
	parsed := func(text string) ParsedCmd {
		f := strings.Fields(text)
		node := cc.Cmds.GetSub(strings.Split(f[0], ".")...)
		if node == nil {
			return ParsedCmd{Segments: []ParsedCmdSeg{{Matched: MatchedCmd{}}}, ParseResult: ParseResult{Input: f}}
		}
		p := ParsedEnv{}
		if len(f) > 1 {
			p["x"] = ParsedEnvVal{f[1], true, false, []string{"x"}, "x"}
		}
		return ParsedCmd{Segments: []ParsedCmdSeg{{p, MatchedCmd{f[0], node}}}}
	}
	text := func(p ParsedCmd) string {
		if p.LastCmdNode() == nil {
			return strings.Join(p.ParseResult.Input, " ")
		}
		s := p.LastCmdNode().DisplayPath()
		if v, ok := p.Last().Env["x"]; ok {
			s += " " + v.Val
		}
		return s
	}
	r := c.R
	num := 0
	cmd := func(unknown bool) string {
		s := names[r.Intn(len(names))]
		if unknown && r.Intn(12) == 0 {
			s = "unknown"
		}
		if r.Intn(2) == 0 {
			num++
			s += fmt.Sprintf(" %d", num)
		}
		return s
	}
	for c.More() {
		c.TryLog("flow.rules", func(say func(string, ...any)) string {
			bs := []*Blender{NewBlender()}
			models := [][]rule{nil}
			for step := 0; step < 2+r.Intn(10); step++ {
				w := r.Intn(len(bs))
				b := bs[w]
				switch r.Intn(7) {
				case 0, 1, 2:
					ru := rule{vh.Pick(r, "replace", "replace", "remove", "insert", "after"), names[r.Intn(3)], cmd(false), vh.Pick(r, -1, 1, 1, 2, 3)}
					say("blender %d: %v", w, ru)
					switch ru.kind {
					case "replace":
						b.AddReplace(parsed(ru.on), parsed(ru.with), ru.cnt)
					case "remove":
						ru.with = ""
						b.AddRemove(parsed(ru.on), ru.cnt)
					case "insert":
						b.AddInsert(parsed(ru.on), parsed(ru.with), ru.cnt)
					case "after":
						b.AddInsertAfter(parsed(ru.on), parsed(ru.with), ru.cnt)
					}
					models[w] = append(append([]rule{}, models[w]...), ru)
				case 3:
					if r.Intn(3) == 0 {
						say("blender %d is a clone of %d", len(bs), w)
						bs = append(bs, b.Clone())
						models = append(models, append([]rule{}, models[w]...))
					} else if r.Intn(6) == 0 {
						say("blender %d: clear", w)
						b.Clear()
						models[w] = nil
					}
				default:
					flow := &ParsedCmds{GlobalCmdIdx: -1}
					var in, want []string
					for i := r.Intn(7); i >= 0; i-- {
						in = append(in, cmd(true))
						flow.Cmds = append(flow.Cmds, parsed(in[len(in)-1]))
					}
					if r.Intn(2) == 0 {
						flow.GlobalCmdIdx = r.Intn(len(in))
					}
					glob, wantGlob := flow.GlobalCmdIdx, -1
					say("blender %d on %q, global %d", w, in, glob)
					wantChanged := false
					for i, s := range in {
						out, at, left := applyRules(models[w], s)
						wantChanged = wantChanged || len(out) != 1 || out[0] != s
						if i == glob && at >= 0 {
							wantGlob = len(want) + at
						}
						want = append(want, out...)
						models[w] = left
					}
					changed := b.Invoke(cc, env, flow)
					var got []string
					for _, p := range flow.Cmds {
						got = append(got, text(p))
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						return fmt.Sprintf("%q became %q, expected %q", in, got, want)
					}
					if wantChanged && !changed {
						return fmt.Sprintf("%q became %q but no change was reported", in, got)
					}
					if flow.GlobalCmdIdx != wantGlob {
						return fmt.Sprintf("%q became %q, the global command %d became %d, expected %d", in, got, glob, flow.GlobalCmdIdx, wantGlob)
					}
				}
				for i := range bs {
					if bs[i].IsEmpty() != (len(models[i]) == 0) {
						return fmt.Sprintf("blender %d: rules left %v, empty: %v", i, models[i], bs[i].IsEmpty())
					}
				}
			}
			return ""
		})
	}
}
