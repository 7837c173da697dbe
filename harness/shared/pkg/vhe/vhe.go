//go:build go1.21

// Package vhe runs whole flows on the real program, in process, with commands of the check's own and all
// files in a scratch directory. It exists only in the test overlay of the checks.
package vhe

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/execute"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/ticat"
)

type Call struct {
	Name string
	Argv map[string]string
	Env  map[string]string
}

type World struct {
	TC   *ticat.TiCat
	CC   *model.Cli
	Ex   *execute.Executor
	Env  *model.Env
	Dir  string
	Log  []Call
	Fail map[string]int                                          // name -> fails at this call (1 = first), counted per world
	Err  map[string]int                                          // the same with a panic
	Do   map[string]func(env *model.Env, flow *model.ParsedCmds) // extra effect of a command
	n    map[string]int
	Out  *Screen
}

type Screen struct {
	Text strings.Builder
	n    int
}

func (s *Screen) Print(t string)      { s.n++; s.Text.WriteString(t) }
func (s *Screen) Error(t string)      { s.Text.WriteString(t) }
func (s *Screen) OutputtedLines() int { return s.n }

// New makes an instance with sessions off; dir is a scratch directory.
func New(dir string) *World {
	w := &World{TC: ticat.NewTiCat(), Dir: dir, Fail: map[string]int{}, Err: map[string]int{}, Do: map[string]func(*model.Env, *model.ParsedCmds){}, n: map[string]int{}, Out: &Screen{}}
	w.CC, w.Ex = w.TC.VH()
	w.CC.Screen = w.Out
	w.CC.CmdIO = model.NewCmdIO(strings.NewReader(""), &w.Out.Text, &w.Out.Text)
	w.Env = w.TC.Env
	def := w.Env.GetLayer(model.EnvLayerDefault)
	for _, k := range []string{"hub", "cache", "data", "flows", "sessions"} {
		def.Set("sys.paths."+k, filepath.Join(dir, k))
	}
	def.Set("sys.paths.env.snapshot", filepath.Join(dir, "snap"))
	def.Set("sys.paths.data.shared", filepath.Join(dir, "shared"))
	def.Set("sys.paths.ticat", filepath.Join(dir, "ticat"))
	def.Set("sys.session.id.ip", "127.0.0.1")
	def.SetBool("sys.session.disable", true)
	def.SetInt("display.width", 80)
	return w
}

// Sessions switches status records on.
func (w *World) Sessions() *World {
	w.Env.GetLayer(model.EnvLayerDefault).SetBool("sys.session.disable", false)
	os.MkdirAll(filepath.Join(w.Dir, "sessions"), 0o755)
	return w
}

// Node adds the tree node of a dotted path.
func (w *World) Node(path string) *model.CmdTree {
	return w.CC.Cmds.GetOrAddSubEx("vh", strings.Split(path, ".")...)
}

// Cmd registers a command that notes its calls.
func (w *World) Cmd(path string) *model.Cmd {
	return w.Node(path).RegCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow []model.ParsedCmd) bool {
		return w.note(path, argv, env, nil)
	}, "noting command", "vh")
}

// Power registers a power command that notes its calls.
func (w *World) Power(path string) *model.Cmd {
	n := w.Node(path)
	n.SetSource("")
	return n.RegPowerCmd(func(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, i int) (int, bool) {
		return i, w.note(path, argv, env, flow)
	}, "noting command")
}

func (w *World) note(path string, argv model.ArgVals, env *model.Env, flow *model.ParsedCmds) bool {
	c := Call{path, map[string]string{}, env.Flatten(true, []string{"sys.", "strs.", "display."}, false)}
	for k, v := range argv {
		c.Argv[k] = v.Raw
	}
	w.Log = append(w.Log, c)
	w.n[path]++
	if f := w.Do[path]; f != nil {
		f(env, flow)
	}
	if k := w.Err[path]; k != 0 && k == w.n[path] {
		panic(fmt.Errorf("vh: %s fails", path))
	}
	return !(w.Fail[path] != 0 && w.Fail[path] == w.n[path])
}

// Flow registers a flow command.
func (w *World) Flow(path string, flow ...string) *model.Cmd {
	return w.Node(path).RegFlowCmd(flow, "flow", "vh")
}

// Run executes a command line like the program does.
func (w *World) Run(args ...string) (ok bool, panicked any) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	ok = w.Ex.Run(w.CC, w.Env, "dummy", args...)
	return
}

// Exec executes a command line the way a command inside of a flow does.
func (w *World) Exec(masks []*model.ExecuteMask, args ...string) (ok bool, panicked any) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	ok = w.Ex.Execute("vh", true, w.CC, w.Env, masks, args...)
	return
}

func (w *World) Names() (r []string) {
	for _, c := range w.Log {
		r = append(r, c.Name)
	}
	return
}
