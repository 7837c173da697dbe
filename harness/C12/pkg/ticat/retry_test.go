//go:build go1.21

package ticat_test

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

type node struct {
	name string
	subs []*node
	file bool // flow with a script after it
}

// plan: the calls of a run of the flow; the first k calls are known to have succeeded already and are not
// made again, call number bad (from 1, counting only plain commands in flow order) fails.
type plan struct {
	calls []string
	pos   int // calls passed
	skip  int
	bad   int
}

func (p *plan) run(seq []*node) bool {
	for _, n := range seq {
		if n.subs != nil {
			if !p.run(n.subs) {
				return false
			}
			if !n.file {
				continue
			}
		}
		p.pos++
		name := n.name
		if n.file {
			name += "(script)"
		}
		if p.pos > p.skip {
			p.calls = append(p.calls, name)
		}
		if p.pos == p.bad {
			return false
		}
	}
	return true
}

func text(seq []*node) string {
	var r []string
	for _, n := range seq {
		r = append(r, n.name)
	}
	return strings.Join(r, " : ")
}

// world makes an instance in which the command number bad fails; base numbers the calls.
func world(dir string, plain []*node, flows []*node, bad int, crash bool, base int, seen map[int]int) (*vhe.World, func() []string) {
	w := vhe.New(dir)
	logf := filepath.Join(dir, "log")
	os.WriteFile(logf, nil, 0o644)
	num := base
	for _, p := range plain {
		p := p
		w.Cmd(p.name)
		w.Do[p.name] = func(env *model.Env, _ *model.ParsedCmds) {
			num++
			if seen != nil {
				seen[num] = env.GetInt("vh.count")
			}
			env.GetLayer(model.EnvLayerSession).SetInt("vh.count", env.GetInt("vh.count")+num)
			f, _ := os.OpenFile(logf, os.O_APPEND|os.O_WRONLY, 0o644)
			fmt.Fprintln(f, p.name)
			f.Close()
			fail := w.Fail
			if crash {
				fail = w.Err
			}
			if num == bad {
				fail[p.name] = countOf(w.Names(), p.name)
			} else {
				delete(fail, p.name)
			}
		}
	}
	for _, f := range flows {
		if !f.file {
			w.Flow(f.name, strings.Fields(text(f.subs))...)
			continue
		}
		sh := filepath.Join(dir, f.name+".bash")
		os.WriteFile(sh, []byte("echo '"+f.name+"(script)' >> "+logf+"\n"), 0o755)
		w.Node(f.name).RegFileNFlowCmd(strings.Fields(text(f.subs)), sh, "flow with a script", "vh")
	}
	return w, func() []string {
		b, _ := os.ReadFile(logf)
		return strings.Fields(string(b))
	}
}

func countOf(l []string, s string) (n int) {
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return
}

func TestVHRetry(t *testing.T) {
	c := vh.New(t, "flows are run with a failing command and records on, then retried from the record; the calls of the retry are compared with those that had not succeeded")
	defer c.Done()
	dir := vh.Work()
	defer os.RemoveAll(dir)
	for c.More() {
		var flows []*node
		plain := []*node{{name: "va"}, {name: "vb"}, {name: "vc.d"}, {name: "vc"}}
		seq := func(n int) (r []*node) {
			for ; n > 0; n-- {
				if len(flows) > 0 && c.R.Intn(3) == 0 {
					r = append(r, flows[c.R.Intn(len(flows))])
				} else {
					r = append(r, plain[c.R.Intn(len(plain))])
				}
			}
			return
		}
		desc := ""
		files := c.R.Intn(10) == 0
		for i, k := 0, c.R.Intn(4); i < k; i++ {
			f := &node{name: fmt.Sprintf("vf%d", i), subs: seq(1 + c.R.Intn(4)), file: files && c.R.Intn(2) == 0}
			flows = append(flows, f)
			desc += f.name + "={" + text(f.subs) + "} "
			if f.file {
				desc += "+script "
			}
		}
		main := seq(1 + c.R.Intn(5))
		bad, bad2 := 1+c.R.Intn(6), c.R.Intn(8)
		if files {
			bad = 0 // scripts do not count their calls
			bad2 = 0
		}
		crash := c.R.Intn(3) == 0
		if crash {
			desc += "(failing with an error) "
		}
		in := fmt.Sprintf("%srun %q, call %d fails; in the retry call %d", desc, text(main), bad, bad2)
		c.Try("retry", in, func() string {
			d, _ := os.MkdirTemp(dir, "f")
			defer os.RemoveAll(d)
			seen := map[int]int{}
			w, log := world(d, plain, flows, bad, crash, 0, seen)
			w.Sessions()
			ok, p := w.Run(strings.Fields(text(main))...)
			first := &plan{bad: bad}
			fok := first.run(main)
			if p != nil && (!crash || fok) || ok != fok || fmt.Sprint(log()) != fmt.Sprint(first.calls) {
				return fmt.Sprintf("first run: %v %v, calls %v, want %v", ok, p, log(), first.calls)
			}
			ids, _ := os.ReadDir(filepath.Join(d, "sessions"))
			if len(ids) != 1 {
				return "no record written"
			}
			path := model.ExecutedStatusFilePath{RootPath: filepath.Join(d, "sessions"), DirName: ids[0].Name(), FileName: "status"}
			_, rec := model.ParseExecutedFlow(path)
			if what := checkMasks(rec, rec.GenExecMasks()); what != "" {
				return what
			}
			done := first.pos
			if !fok {
				done--
			}
			// retry with the record
			seen2 := map[int]int{}
			base := done
			w2, log2 := world(d, plain, flows, bad2, crash, base, seen2)
			if files {
				os.MkdirAll(filepath.Join(d, "s2"), 0o755)
				w2.Env.GetLayer(model.EnvLayerSession).Set("session", filepath.Join(d, "s2"))
			}
			ok, p = w2.Run("session.retry", ids[0].Name())
			second := &plan{skip: done, bad: bad2}
			if bad2 <= done {
				second.bad = 0
			}
			sok := second.run(main)
			if p != nil && (!crash || sok) {
				return fmt.Sprint("crash in the retry: ", p)
			}
			if fmt.Sprint(log2()) != fmt.Sprint(second.calls) || ok != sok {
				return fmt.Sprintf("the retry ran %v (success %v), want %v (%v)", log2(), ok, second.calls, sok)
			}
			if !files && !fok {
				if seen2[done+1] != seen[done+1] {
					return fmt.Sprintf("the failed command starts with vh.count = %d, at first it was %d", seen2[done+1], seen[done+1])
				}
			}
			return ""
		})
	}
}

// checkMasks: one mask per recorded command, in order.
func checkMasks(rec *model.ExecutedFlow, masks []*model.ExecuteMask) string {
	if len(masks) != len(rec.Cmds) {
		return fmt.Sprintf("%d masks for %d commands", len(masks), len(rec.Cmds))
	}
	for i, m := range masks {
		r := rec.Cmds[i]
		pol, fpol := model.ExecPolicyExec, model.ExecPolicyExec
		if r.Result == "OK" && r.SubFlow == nil {
			pol = model.ExecPolicySkip
		}
		if r.Result == "OK" && r.SubFlow != nil {
			fpol = model.ExecPolicySkip
		}
		if m.Cmd != r.Cmd || m.OverWriteStartEnv != r.StartEnv || m.OverWriteFinishEnv != r.FinishEnv || m.ResultIfExecuted != r.Result || m.ExecutedCmd != r {
			return fmt.Sprintf("mask %d of %q does not belong to command %q", i, m.Cmd, r.Cmd)
		}
		if m.ExecPolicy != pol || m.FileNFlowExecPolicy != fpol {
			return fmt.Sprintf("command %q with result %q: policies %s, %s", r.Cmd, r.Result, m.ExecPolicy, m.FileNFlowExecPolicy)
		}
		if r.SubFlow != nil {
			if w := checkMasks(r.SubFlow, m.SubFlow); w != "" {
				return w
			}
		} else if len(m.SubFlow) != 0 {
			return fmt.Sprintf("masks for parts of %q that has none", r.Cmd)
		}
	}
	return ""
}

func TestVHMasks(t *testing.T) {
	c := vh.New(t, "random records, and runs of flows with some commands skipped by hand")
	defer c.Done()
	dir := vh.Work()
	defer os.RemoveAll(dir)
	var gen func(depth int) *model.ExecutedFlow
	gen = func(depth int) *model.ExecutedFlow {
		f := model.NewExecutedFlow("s")
		for n := c.R.Intn(4); n > 0; n-- {
			x := model.NewExecutedCmd(vh.Pick(c.R, "a", "b", "c.d"))
			x.Result = vh.Pick(c.R, model.ExecutedResultSucceeded, model.ExecutedResultSucceeded, model.ExecutedResultSkipped, model.ExecutedResultError, model.ExecutedResultIncompleted, model.ExecutedResultUnRun)
			x.IsDelay = c.R.Intn(4) == 0
			if c.R.Intn(2) == 0 {
				x.StartEnv, x.FinishEnv = model.NewEnvEx(model.EnvLayerSession), model.NewEnvEx(model.EnvLayerSession)
			}
			if depth > 0 && c.R.Intn(3) == 0 {
				x.SubFlow = gen(depth - 1)
			}
			f.Cmds = append(f.Cmds, x)
		}
		return f
	}
	var show func(f *model.ExecutedFlow) string
	show = func(f *model.ExecutedFlow) (s string) {
		for _, x := range f.Cmds {
			s += x.Cmd + ":" + string(x.Result) + " "
			if x.SubFlow != nil {
				s += "{" + show(x.SubFlow) + "} "
			}
		}
		return
	}
	c.For(10, func() {
		f := gen(3)
		c.Try("masks", show(f), func() string { return checkMasks(f, f.GenExecMasks()) })
	})
	for c.More() {
		n := 1 + c.R.Intn(5)
		var flow []string
		skip := map[int]bool{}
		for i := 0; i < n; i++ {
			if i > 0 {
				flow = append(flow, ":")
			}
			flow = append(flow, vh.Pick(c.R, "va", "vb"))
			if c.R.Intn(3) == 0 {
				skip[i] = true
			}
		}
		c.Try("by hand", fmt.Sprintf("%v, skipped by hand: %v", flow, skip), func() string {
			d, _ := os.MkdirTemp(dir, "f")
			defer os.RemoveAll(d)
			plain := []*node{{name: "va"}, {name: "vb"}}
			w, _ := world(d, plain, nil, 0, false, 0, nil)
			status := filepath.Join(d, "status")
			var masks []*model.ExecuteMask
			want := []string{}
			for i := 0; i < n; i++ {
				m := model.NewExecuteMask(flow[2*i])
				if skip[i] {
					m = m.Copy()
					m.ExecPolicy = model.ExecPolicySkip
				} else {
					want = append(want, flow[2*i])
				}
				masks = append(masks, m)
			}
			w.CC.SetFlowStatusWriter(model.NewExecutingFlow(status, w.CC.Parser.Parse(w.CC.Cmds, w.CC.EnvAbbrs, flow...), w.Env))
			ok, p := w.Exec(masks, flow...)
			if !ok || p != nil || fmt.Sprint(w.Names()) != fmt.Sprint(want) {
				return fmt.Sprintf("ran %v (%v %v), want %v", w.Names(), ok, p, want)
			}
			w.CC.FlowStatus.OnFlowFinish(w.Env, ok)
			_, rec := model.ParseExecutedFlow(model.ExecutedStatusFilePath{RootPath: d, DirName: ".", FileName: "status"})
			ms := rec.GenExecMasks()
			if len(ms) != n {
				return fmt.Sprintf("%d masks for %d commands", len(ms), n)
			}
			for i, m := range ms {
				if (m.ExecPolicy == model.ExecPolicySkip) == skip[i] {
					return fmt.Sprintf("command %d (%s), recorded as %q, skipped by hand: %v, policy for a retry: %s", i, m.Cmd, m.ResultIfExecuted, skip[i], m.ExecPolicy)
				}
			}
			return ""
		})
	}
}
