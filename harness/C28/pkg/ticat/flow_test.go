//go:build go1.21

package ticat_test

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

type node struct {
	name string
	subs []*node // nil for a plain command
}

// the calls a flow makes, told from its text alone
func walk(seq []*node, bad string, at int, cnt map[string]int) (calls []string, ok bool) {
	for _, n := range seq {
		if n.subs != nil {
			c, ok := walk(n.subs, bad, at, cnt)
			calls = append(calls, c...)
			if !ok {
				return calls, false
			}
			continue
		}
		calls = append(calls, n.name)
		cnt[n.name]++
		if n.name == bad && cnt[n.name] == at {
			return calls, false
		}
	}
	return calls, true
}

func text(seq []*node) string {
	var r []string
	for _, n := range seq {
		r = append(r, n.name)
	}
	return strings.Join(r, " : ")
}

func TestVHFlow(t *testing.T) {
	c := vh.New(t, "random flows of noting commands, with flows inside of flows, failing and panicking commands, against a walk of the flow's text")
	defer c.Done()
	dir := vh.Work()
	defer os.RemoveAll(dir)
	for c.More() {
		var flows []*node
		plain := []*node{{name: "va"}, {name: "vb"}, {name: "vc.d"}, {name: "vc"}}
		pick := func() *node {
			if len(flows) > 0 && c.R.Intn(3) == 0 {
				return flows[c.R.Intn(len(flows))]
			}
			return plain[c.R.Intn(len(plain))]
		}
		seq := func(n int) (r []*node) {
			for ; n > 0; n-- {
				r = append(r, pick())
			}
			return
		}
		desc := ""
		for i, k := 0, c.R.Intn(4); i < k; i++ {
			f := &node{name: fmt.Sprintf("vf%d", i), subs: seq(1 + c.R.Intn(4))}
			flows = append(flows, f)
			desc += f.name + "={" + text(f.subs) + "} "
		}
		main := seq(1 + c.R.Intn(5))
		bad, at, how := "", 0, c.R.Intn(4)
		if how > 0 {
			bad, at = plain[c.R.Intn(4)].name, 1+c.R.Intn(3)
		}
		rec := c.R.Intn(3) == 0
		quiet := map[string]bool{}
		if c.R.Intn(3) == 0 {
			quiet[plain[c.R.Intn(4)].name] = true
			quiet[plain[c.R.Intn(4)].name] = true
		}
		for _, n := range plain {
			if quiet[n.name] {
				desc += n.name + " is quiet, "
			}
		}
		in := fmt.Sprintf("%srun %q, call %d of %q fails (panic: %v), records: %v", desc, text(main), at, bad, how == 2, rec)
		c.Try("flow", in, func() string {
			d, _ := os.MkdirTemp(dir, "f")
			defer os.RemoveAll(d)
			w := vhe.New(d)
			if rec {
				w.Sessions()
			}
			num := 0
			passed := ""
			for _, p := range plain {
				if cmd := w.Cmd(p.name); quiet[p.name] {
					cmd.SetQuiet()
				}
				w.Do[p.name] = func(env *model.Env, _ *model.ParsedCmds) {
					if got := env.GetInt("vh.count"); got != num && passed == "" {
						passed = fmt.Sprintf("call %d sees vh.count = %d, the commands before it made it %d", len(w.Log), got, num)
					}
					num++
					env.GetLayer(model.EnvLayerSession).SetInt("vh.count", num)
				}
			}
			for _, f := range flows {
				w.Flow(f.name, strings.Fields(text(f.subs))...)
			}
			if how == 2 {
				w.Err[bad] = at
			} else if how > 0 {
				w.Fail[bad] = at
			}
			ok, p := w.Run(strings.Fields(text(main))...)
			want, wok := walk(main, bad, at, map[string]int{})
			if p != nil {
				if e, is := p.(error); !is || how != 2 || !strings.Contains(e.Error(), "vh: ") {
					return fmt.Sprint("crash: ", p)
				}
				ok = false
			}
			if fmt.Sprint(w.Names()) != fmt.Sprint(want) {
				return fmt.Sprintf("called %v, the flow says %v", w.Names(), want)
			}
			if ok != wok {
				return fmt.Sprintf("reported success: %v, all commands succeeded: %v", ok, wok)
			}
			return passed
		})
	}
}
