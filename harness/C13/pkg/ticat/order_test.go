//go:build go1.21

package ticat_test

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

var names = []string{"va", "vb", "vc", "vp", "vq", "vr"}

func prio(s string) bool { return strings.ContainsAny(s, "pqr") }

// order says what a command line executes: taken from the end, a priority command or a command after an
// empty segment goes to the front.
func order(segs []string) (run []string, moved int) {
	for {
		n := len(segs)
		if n <= 1 {
			break
		}
		k := n
		if segs[n-2] == "" {
			k = n - 2
		} else if prio(segs[n-1]) {
			k = n - 1
		}
		if k == n {
			break
		}
		run = append(run, segs[n-1])
		moved++
		segs = segs[:k]
		for len(segs) > 0 && segs[len(segs)-1] == "" {
			segs = segs[:len(segs)-1]
		}
	}
	run = append(run, segs...)
	out := []string{}
	for _, s := range run {
		if s != "" {
			out = append(out, s)
		}
	}
	return out, moved
}

func TestVHOrder(t *testing.T) {
	c := vh.New(t, "command lines of plain and priority commands and empty segments: the order they run in and the position of the global segment")
	defer c.Done()
	dir := vh.Work()
	defer os.RemoveAll(dir)
	try := func(segs []string, global bool) {
		var args []string
		for i, s := range segs {
			if i > 0 {
				args = append(args, ":")
			}
			if i == 0 && global && s != "" {
				args = append(args, "{vh.g=1}")
			}
			if s != "" {
				args = append(args, s)
			}
		}
		if len(args) == 0 || args[0] == ":" {
			global = false
		}
		// a command line that starts with ':' begins with an empty segment
		c.Try("order", strings.Join(args, " "), func() string {
			w := vhe.New(dir)
			where := ""
			for _, n := range names {
				n := n
				if prio(n) {
					w.Power(n).SetPriority()
				} else {
					w.Power(n)
				}
				w.Do[n] = func(env *model.Env, flow *model.ParsedCmds) {
					if where != "" {
						return
					}
					var l []string
					for _, x := range flow.Cmds {
						l = append(l, strings.Join(x.Path(), "."))
					}
					where = fmt.Sprintf("%v global %d", l, flow.GlobalCmdIdx)
					if env.GetRaw("vh.g") == "" && global && segs[0] != "" {
						where += " (global value not set)"
					}
				}
			}
			ok, p := w.Run(args...)
			want, moved := order(segs)
			if p != nil {
				// a single command in tail mode that has no use for it is refused
				if moved > 0 && moved+len(want) <= 4 && strings.Contains(fmt.Sprint(p), "tail-mode") && !prio(segs[len(segs)-1]) && len(w.Log) == 0 {
					return ""
				}
				return fmt.Sprint("crash: ", p)
			}
			if !ok || fmt.Sprint(w.Names()) != fmt.Sprint(want) {
				return fmt.Sprintf("success %v, ran %v, want %v", ok, w.Names(), want)
			}
			if global && segs[0] != "" && len(want) > 0 {
				g := moved
				n := 0
				for _, s := range tailOf(segs, moved) {
					if s == "" {
						n++
					}
				}
				g -= n
				if w := fmt.Sprintf("%v global %d", want, g); where != w {
					return fmt.Sprintf("flow %s, want %s", where, w)
				}
			}
			return ""
		})
	}
	// doc/spec/seq.md: <command-1> : <command-2> : <priority-a> : <priority-b> runs priority-a, priority-b, command-1, command-2
	c.TryKey("documented order", "several-priorities", "va : vb : vp : vq", func() string {
		w := vhe.New(dir)
		w.Power("va")
		w.Power("vb")
		w.Power("vp").SetPriority()
		w.Power("vq").SetPriority()
		w.Run("va", ":", "vb", ":", "vp", ":", "vq")
		if r := strings.Join(w.Names(), " "); r != "vp vq va vb" {
			return "ran in the order " + r + ", doc/spec/seq.md says vp vq va vb"
		}
		return ""
	})
	all := append([]string{""}, names[:5]...)
	for n := 1; n <= 4; n++ {
		vh.Lists(all, n, func(l []string) {
			if len(l) == n && c.More() && (n < 4 || c.Deep) {
				try(l, true)
			}
		})
	}
	for c.More() {
		var l []string
		for k := 1 + c.R.Intn(9); k > 0; k-- {
			l = append(l, vh.Pick(c.R, append([]string{"", "", ""}, names...)...))
		}
		try(l, c.R.Intn(2) == 0)
	}
}

func tailOf(segs []string, moved int) (r []string) {
	for k := 0; k < moved; k++ {
		n := len(segs)
		r = append(r, segs[n-1])
		if segs[n-2] == "" {
			segs = segs[:n-2]
		} else {
			segs = segs[:n-1]
		}
		for len(segs) > 0 && segs[len(segs)-1] == "" {
			segs = segs[:len(segs)-1]
		}
	}
	return
}
