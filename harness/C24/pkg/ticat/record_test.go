//go:build go1.21

package ticat_test

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

type got struct {
	name, result string
	start        map[string]string
	leaf         bool
}

func flat(f *model.ExecutedFlow, into *[]got) {
	for _, c := range f.Cmds {
		g := got{c.Cmd, string(c.Result), nil, c.SubFlow == nil}
		if c.StartEnv != nil {
			g.start = c.StartEnv.Flatten(true, nil, false)
		}
		*into = append(*into, g)
		if c.SubFlow != nil {
			flat(c.SubFlow, into)
		}
	}
}

// read parses a record; crashed is a fault of the program, err a reported problem.
func read(path model.ExecutedStatusFilePath) (rec *model.ExecutedFlow, err error, crashed string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); !ok {
				crashed = fmt.Sprintf("panic with %T", r)
			} else if _, is := e.(runtime.Error); is {
				crashed = e.Error()
			} else {
				err = e
			}
		}
	}()
	_, rec = model.ParseExecutedFlow(path)
	return
}

func TestVHRecord(t *testing.T) {
	c := vh.New(t, "records written by real runs, cut off at every byte, read back")
	defer c.Done()
	dir := vh.Work()
	defer os.RemoveAll(dir)
	for c.More() {
		names := []string{"va", "vb", "vc", "vc.d"}
		var flows [][2]string
		pick := func() string {
			if len(flows) > 0 && c.R.Intn(3) == 0 {
				return flows[c.R.Intn(len(flows))][0]
			}
			return names[c.R.Intn(len(names))]
		}
		seq := func(n int) string {
			var l []string
			for ; n > 0; n-- {
				l = append(l, pick())
			}
			return strings.Join(l, " : ")
		}
		desc := ""
		for i, k := 0, c.R.Intn(3); i < k; i++ {
			f := [2]string{fmt.Sprintf("vf%d", i), seq(1 + c.R.Intn(3))}
			flows = append(flows, f)
			desc += f[0] + "={" + f[1] + "} "
		}
		main := seq(1 + c.R.Intn(4))
		bad, at, crash := names[c.R.Intn(4)], c.R.Intn(4), c.R.Intn(2) == 0
		val := vh.Str(c.R, []string{"a", "=", " ", "<", ">", "</", "</env-start>", "<cmd>", "\t", "é"}, 6)
		in := fmt.Sprintf("%srun %q, call %d of %s fails (with an error: %v), env value %q", desc, main, at, bad, crash, val)
		c.Try("record", in, func() string {
			d, _ := os.MkdirTemp(dir, "f")
			defer os.RemoveAll(d)
			w := vhe.New(d).Sessions()
			n := 0
			var starts []string
			for _, p := range names {
				w.Cmd(p)
				w.Do[p] = func(env *model.Env, _ *model.ParsedCmds) {
					starts = append(starts, env.GetRaw("vh.x"))
					n++
					env.GetLayer(model.EnvLayerSession).Set("vh.x", fmt.Sprint(n, val))
				}
			}
			if crash {
				w.Err[bad] = at
			} else {
				w.Fail[bad] = at
			}
			for _, f := range flows {
				w.Flow(f[0], strings.Fields(f[1])...)
			}
			ok, _ := w.Run(strings.Fields(main)...)
			ids, _ := os.ReadDir(filepath.Join(d, "sessions"))
			if len(ids) != 1 {
				return "no record written"
			}
			path := model.ExecutedStatusFilePath{RootPath: filepath.Join(d, "sessions"), DirName: ids[0].Name(), FileName: "status"}
			full, err, crashed := read(path)
			if crashed != "" || err != nil {
				return fmt.Sprint("the whole record: ", crashed, err)
			}
			var all []got
			flat(full, &all)
			// what the whole record says is what happened
			i := 0
			for _, g := range all {
				if !g.leaf || strings.HasPrefix(g.name, "vf") {
					continue
				}
				if i >= len(w.Log) || w.Log[i].Name != g.name {
					return fmt.Sprintf("record lists %v, called were %v", all, w.Names())
				}
				want := "OK"
				if i == len(w.Log)-1 && !ok {
					want = "ERR"
				}
				if g.result != want {
					return fmt.Sprintf("call %d of %s recorded as %s, was %s", i, g.name, g.result, want)
				}
				if g.start["vh.x"] != starts[i] {
					return fmt.Sprintf("call %d of %s started with vh.x=%q, record says %q", i, g.name, starts[i], g.start["vh.x"])
				}
				i++
			}
			if i != len(w.Log) {
				return fmt.Sprintf("record lists %v, called were %v", all, w.Names())
			}
			data, _ := os.ReadFile(path.Full())
			cut := path
			cut.FileName = "cut"
			for n := len(data) - 1; n >= 0; n-- {
				part := string(data[:n])
				os.WriteFile(cut.Full(), []byte(part), 0o644)
				rec, err, crashed := read(cut)
				if crashed != "" {
					return fmt.Sprintf("cut off at byte %d, after %q: %s", n, tail(part), crashed)
				}
				if err != nil {
					return fmt.Sprintf("cut off at byte %d, after %q: not readable: %v", n, tail(part), err)
				}
				var l []got
				flat(rec, &l)
				lines := strings.Split(part, "\n")
				cmds, oks := 0, 0
				for _, x := range lines {
					x = strings.TrimSpace(x)
					if strings.HasPrefix(x, "<cmd>") && strings.HasSuffix(x, "</cmd>") {
						cmds++
					}
					if x == "<cmd-result>OK</cmd-result>" {
						oks++
					}
				}
				if len(l) != cmds {
					return fmt.Sprintf("cut off at byte %d, after %q: %d commands are recorded, read are %v", n, tail(part), cmds, l)
				}
				for i, g := range l {
					if g.name != all[i].name {
						return fmt.Sprintf("cut off at byte %d: command %d read as %s, recorded was %s", n, i, g.name, all[i].name)
					}
					if g.start != nil && fmt.Sprint(g.start) != fmt.Sprint(all[i].start) {
						return fmt.Sprintf("cut off at byte %d: command %d started with %v, recorded was %v", n, i, g.start, all[i].start)
					}
					if g.result == "OK" {
						oks--
						if all[i].result != "OK" {
							return fmt.Sprintf("cut off at byte %d, after %q: command %d reported as succeeded, it did not", n, tail(part), i)
						}
					}
				}
				if oks < 0 {
					return fmt.Sprintf("cut off at byte %d, after %q: more commands reported as succeeded than have an end mark: %v", n, tail(part), l)
				}
			}
			return ""
		})
	}
}

func tail(s string) string {
	if len(s) > 60 {
		return "..." + s[len(s)-60:]
	}
	return s
}

func TestVHScheduled(t *testing.T) {
	c := vh.New(t, "records of flows with scheduled commands, the record of a scheduled command cut off at every byte")
	defer c.Done()
	dir := vh.Work()
	defer os.RemoveAll(dir)
	for c.More() {
		names := []string{"va", "vb", "vc"}
		before, after := c.R.Intn(2), c.R.Intn(2)
		var outcome [4]int
		for i := range outcome {
			outcome[i] = c.R.Intn(2)
		}
		c.Try("scheduled", fmt.Sprintf("%d commands, a scheduled one, %d commands; outcomes %v", before, after, outcome), func() string {
			d, _ := os.MkdirTemp(dir, "f")
			defer os.RemoveAll(d)
			w := vhe.New(d)
			for _, p := range names {
				w.Cmd(p)
			}
			parse := func(l ...string) *model.ParsedCmds { return w.CC.Parser.Parse(w.CC.Cmds, w.CC.EnvAbbrs, l...) }
			path := func(file string, sub ...string) string {
				p := filepath.Join(append([]string{d, "s"}, sub...)...)
				os.MkdirAll(p, 0o755)
				return filepath.Join(p, file)
			}
			var words []string
			for i := 0; i < before+1+after; i++ {
				if i > 0 {
					words = append(words, ":")
				}
				words = append(words, names[i])
			}
			flow := parse(words...)
			rec := model.NewExecutingFlow(path("status"), flow, w.Env)
			for i := 0; i < before+1+after; i++ {
				if i == before {
					rec.OnAsyncTaskSchedule(flow, i, w.Env, "1")
				} else {
					rec.OnCmdStart(flow, i, w.Env, "")
					rec.OnCmdFinish(flow, i, w.Env, outcome[i] == 1, nil, false)
				}
			}
			rec.OnFlowFinish(w.Env, true)
			bg := parse(names[before])
			rec = model.NewExecutingFlow(path("status", "1"), bg, w.Env)
			rec.OnCmdStart(bg, 0, w.Env, "")
			rec.OnCmdFinish(bg, 0, w.Env, outcome[3] == 1, nil, false)
			rec.OnFlowFinish(w.Env, outcome[3] == 1)
			data, _ := os.ReadFile(path("status", "1"))
			for n := len(data); n >= 0; n-- {
				part := string(data[:n])
				os.WriteFile(path("status", "1"), []byte(part), 0o644)
				got, err, crashed := read(model.ExecutedStatusFilePath{RootPath: d, DirName: "s", FileName: "status"})
				if crashed != "" || err != nil {
					return fmt.Sprintf("the record of the scheduled command cut off at byte %d, after %q: %v %s", n, tail(part), err, crashed)
				}
				if len(got.Cmds) != before+1+after {
					return fmt.Sprintf("cut off at byte %d: %d commands recorded, %d read", n, before+1+after, len(got.Cmds))
				}
				for i, x := range got.Cmds {
					if i == before {
						done := strings.Contains(part, "<flow-result>OK</flow-result>")
						if x.Cmd != names[i] || !x.IsDelay || (x.Result == "OK") != done {
							return fmt.Sprintf("the record of the scheduled command cut off at byte %d, after %q: %s scheduled=%v result %s, should be done=%v", n, tail(part), x.Cmd, x.IsDelay, x.Result, done)
						}
						if got.GetCmd(i) == nil || got.GetCmd(i).Cmd != names[i] {
							return "the scheduled command is not found"
						}
						if r := got.GetCmd(i).Result; r == "OK" && !strings.Contains(part, "<cmd-result>OK</cmd-result>") {
							return fmt.Sprintf("the record of the scheduled command cut off at byte %d, after %q: its command counts as done", n, tail(part))
						}
					} else if x.Cmd != names[i] || (x.Result == "OK") != (outcome[i] == 1) {
						return fmt.Sprintf("%s read with result %s", x.Cmd, x.Result)
					}
				}
			}
			return ""
		})
	}
}
