//go:build go1.21

package model_test

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"syscall"
	"testing"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

const layout = "20060102-150405"

// a process that was there and is gone
func gonePid() int {
	cmd := exec.Command("/bin/true")
	if cmd.Run() != nil || cmd.Process == nil {
		return 1<<22 + 12345
	}
	return cmd.Process.Pid
}

func digits(s string) bool {
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return len(s) > 0
}

// made: the name is one of those made for sessions: a date and time as 20060102-150405, a dot and a process number.
func made(name string) (pid int, ts time.Time, ok bool) {
	if len(name) < 17 || name[8] != '-' || name[15] != '.' || !digits(name[:8]) || !digits(name[9:15]) || !digits(name[16:]) || name[16] == '0' || len(name) > 26 {
		return
	}
	n := func(a, b int) int { v, _ := strconv.Atoi(name[a:b]); return v }
	y, mo, d, h, mi, s := n(0, 4), n(4, 6), n(6, 8), n(9, 11), n(11, 13), n(13, 15)
	ts = time.Date(y, time.Month(mo), d, h, mi, s, 0, time.Local)
	if ts.Year() != y || int(ts.Month()) != mo || ts.Day() != d || ts.Hour() != h || ts.Minute() != mi || ts.Second() != s {
		return
	}
	pid = n(16, len(name))
	return pid, ts, pid <= 1<<31-1
}

type entry struct {
	name string
	file bool // not a directory
}

func (e entry) String() string {
	if e.file {
		return fmt.Sprintf("%q (file)", e.name)
	}
	return fmt.Sprintf("%q", e.name)
}

func fill(root string, es []entry) {
	for _, e := range es {
		p := filepath.Join(root, e.name)
		if e.file {
			os.WriteFile(p, []byte("x"), 0666)
		} else {
			os.MkdirAll(filepath.Join(p, "sub"), 0777)
			os.WriteFile(filepath.Join(p, "sub", "f"), []byte("content of "+e.name), 0666)
			os.Chmod(p, 0777)
			os.Chmod(filepath.Join(p, "sub"), 0777)
		}
	}
}

func whole(root string, e entry) bool {
	p := filepath.Join(root, e.name)
	if e.file {
		d, err := os.ReadFile(p)
		return err == nil && string(d) == "x"
	}
	d, err := os.ReadFile(filepath.Join(p, "sub", "f"))
	return err == nil && string(d) == "content of "+e.name
}

func entries(r *rand.Rand, pids map[int]bool, now time.Time, keep time.Duration, dirs bool) (es []entry) {
	seen := map[string]bool{}
	var ps []int
	for p := range pids {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	for n := 1 + r.Intn(10); n > 0; n-- {
		off := vh.Pick(r, -keep-30*time.Second, -keep+30*time.Second, -keep-time.Hour, -keep+time.Hour, -2*keep-24*time.Hour, 0, time.Hour, -time.Duration(r.Int63n(int64(100*24*time.Hour))))
		ts := now.Add(off).Format(layout)
		if r.Intn(12) == 0 {
			ts = vh.Pick(r, "20250230-101010", "00010101-000000", "20241103-013000", "20240310-023000", "20240229-235959", "20230229-000000", "20240101-240000", "20240101-236000", "99991231-235959")
		}
		pid := vh.Pick(r, ps...)
		p := fmt.Sprint(pid)
		name := ts + "." + p
		switch r.Intn(14) {
		case 0:
			name = ts + "." + vh.Pick(r, "+", "-", "0", "00", " ", "0x", "_") + p
		case 1:
			name = ts + p
		case 2:
			name = ts + "." + p + vh.Pick(r, ".1", ".", " ", "x", "_0", ".bak", "~")
		case 3:
			name = vh.Pick(r, ".", "x", " ", "-") + ts + "." + p
		case 4:
			name = ts + vh.Pick(r, ",5", ".5", ",123", "-", " ", "Z", "0") + "." + p
		case 5:
			name = p + "." + ts
		case 6:
			name = ts + "." + vh.Pick(r, "", "0", "-1", "+1", "99999999999999999999", "-0")
		case 7:
			name = ts[:len(ts)-1] + "." + p
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		es = append(es, entry{name, !dirs && pid != os.Getpid() && r.Intn(15) == 0})
	}
	return
}

// world: an instance with its sessions below dir
func world(dir string, keep time.Duration) (*vhe.World, *model.Env) {
	w := vhe.New(dir)
	env := w.Env.GetLayer(model.EnvLayerSession)
	def := w.Env.GetLayer(model.EnvLayerDefault)
	def.Set("sys.paths.sessions", filepath.Join(dir, "sessions"))
	def.Set("sys.sessions.keep-status-duration", keep.String())
	return w, env
}

func names(root string) (ns []string) {
	ds, _ := os.ReadDir(root)
	for _, d := range ds {
		ns = append(ns, d.Name())
	}
	return
}

type cleaning struct {
	dir  string
	r    *rand.Rand
	pids map[int]bool // process number -> still there
	as   func(func()) // run as somebody
}

func (t cleaning) setup(keep time.Duration, dirs bool) (w *vhe.World, env *model.Env, root string, es []entry, done func()) {
	sub, err := os.MkdirTemp(t.dir, "clean")
	if err != nil {
		panic(err)
	}
	os.Chmod(sub, 0777)
	w, env = world(sub, keep)
	root = filepath.Join(sub, "sessions")
	os.MkdirAll(root, 0777)
	os.Chmod(root, 0777)
	es = entries(t.r, t.pids, time.Now(), keep, dirs)
	fill(root, es)
	return w, env, root, es, func() { os.RemoveAll(sub) }
}

func (t cleaning) onStart() (input string, check func() string) {
	keep := vh.Pick(t.r, 72*time.Hour, time.Hour, 10*time.Minute, 30*24*time.Hour, 90*time.Second)
	w, env, root, es, done := t.setup(keep, false)
	return fmt.Sprintf("a session starts, sessions are kept for %v, pids %v, found %v", keep, t.pids, es), func() string {
		defer done()
		var ok, inner bool
		now := time.Now()
		t.as(func() {
			_, inner, ok = model.SessionInit(w.CC, &model.ParsedCmds{GlobalCmdIdx: -1}, env, "env", "status")
		})
		if !ok || inner {
			return "the session is not started: " + w.Out.Text.String()
		}
		dir := env.GetRaw("session")
		mine, ts, isName := made(filepath.Base(dir))
		if !isName || mine != os.Getpid() || ts.Sub(now) > 5*time.Second || now.Sub(ts) > 5*time.Second || filepath.Dir(dir) != root || env.GetRaw("sys.session.id") != filepath.Base(dir) {
			return fmt.Sprintf("the session of process %d started at %v has the directory %q and the id %q", os.Getpid(), now, dir, env.GetRaw("sys.session.id"))
		}
		if st, err := os.Stat(dir); err != nil || !st.IsDir() {
			return "the directory of the new session is missing"
		}
		for _, e := range es {
			pid, start, isName := made(e.name)
			there := whole(root, e)
			if e.name == filepath.Base(dir) {
				continue
			}
			old := start.Add(keep).Before(now.Add(-10 * time.Second))
			young := start.Add(keep).After(now.Add(10 * time.Second))
			if (!isName || t.pids[pid] || young) && !there {
				return fmt.Sprintf("%v was removed: made for a session: %v, its process is there: %v, young: %v", e, isName, t.pids[pid], young)
			}
			if isName && !t.pids[pid] && old {
				if _, err := os.Lstat(filepath.Join(root, e.name)); err == nil {
					return fmt.Sprintf("%v was not removed: its process is gone and it is over the time", e)
				}
			}
		}
		return ""
	}
}

func (t cleaning) all() (input string, check func() string) {
	_, env, root, es, done := t.setup(72*time.Hour, false)
	return fmt.Sprintf("all finished sessions are removed, pids %v, found %v", t.pids, es), func() string {
		defer done()
		var cleaned, runnings uint
		t.as(func() { cleaned, runnings = model.CleanSessions(env) })
		var wc, wr uint
		for _, e := range es {
			pid, _, isName := made(e.name)
			keep := !isName || t.pids[pid]
			if keep != whole(root, e) {
				return fmt.Sprintf("%v: made for a session: %v, its process is there: %v, kept: %v", e, isName, t.pids[pid], whole(root, e))
			}
			if isName && t.pids[pid] {
				wr++
			}
			if !keep {
				wc++
			}
		}
		if wc != cleaned || wr != runnings {
			return fmt.Sprintf("%d removed and %d running are reported as %d and %d", wc, wr, cleaned, runnings)
		}
		return ""
	}
}

func (t cleaning) list() (input string, check func() string) {
	w, env, root, es, done := t.setup(72*time.Hour, true)
	which := t.r.Intn(1 << 30)
	force := t.r.Intn(2) == 0
	for _, e := range es {
		if !e.file {
			vh.Panics(func() {
				model.NewExecutingFlow(filepath.Join(root, e.name, "status"), &model.ParsedCmds{GlobalCmdIdx: -1}, env)
			})
		}
	}
	_ = w
	return fmt.Sprintf("sessions are listed and one removed (forced: %v), pids %v, found %v", force, t.pids, es), func() string {
		defer done()
		env.GetLayer(model.EnvLayerDefault).Set("strs.session-status-file", "status")
		var got []model.SessionStatus
		t.as(func() { got, _ = model.ListSessions(env, nil, "", 0, true, true, true) })
		want := map[string]bool{}
		for _, e := range es {
			if _, _, isName := made(e.name); isName && !e.file {
				want[e.name] = true
			}
		}
		for _, s := range got {
			pid, ts, isName := made(s.DirName)
			if !isName || !want[s.DirName] {
				return fmt.Sprintf("%q is listed", s.DirName)
			}
			delete(want, s.DirName)
			if s.Pid != pid || !s.StartTs.Equal(ts) || s.Running != t.pids[pid] {
				return fmt.Sprintf("%q is listed as process %d (there: %v) started at %v", s.DirName, s.Pid, s.Running, s.StartTs)
			}
		}
		if len(want) > 0 {
			return fmt.Sprintf("not listed: %v", vh.Keys(want))
		}
		if len(got) == 0 {
			return ""
		}
		s := got[which%len(got)]
		var cleaned bool
		t.as(func() { cleaned, _ = model.CleanSession(s, env, force) })
		if cleaned != (!s.Running || force) {
			return fmt.Sprintf("the removal of %q (there: %v) is reported as %v", s.DirName, s.Running, cleaned)
		}
		for _, e := range es {
			if whole(root, e) != !(e.name == s.DirName && cleaned) {
				return fmt.Sprintf("removing %q (done: %v): %v is still there: %v", s.DirName, cleaned, e, whole(root, e))
			}
		}
		return ""
	}
}

func sleeper() *exec.Cmd {
	cmd := exec.Command("/bin/sleep", "600")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if cmd.Start() != nil {
		return nil
	}
	return cmd
}

func TestVHSessions(t *testing.T) {
	c := vh.New(t, "directories of sessions named for running and finished processes, with starts around the time they are kept, and names that only look like it; a session starts, sessions are listed, one or all are removed; what is left is compared with what the names say")
	defer c.Done()
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	alive := sleeper()
	pids := map[int]bool{os.Getpid(): true, gonePid(): false, gonePid(): false, 1<<22 + 77: false}
	if alive != nil {
		defer alive.Process.Kill()
		pids[alive.Process.Pid] = true
	}
	zones := []string{"", "America/New_York", "Europe/Berlin", "Asia/Kathmandu"}
	local := time.Local
	defer func() { time.Local = local }()
	for c.More() {
		time.Local = local
		if z := vh.Pick(c.R, zones...); z != "" {
			if l, err := time.LoadLocation(z); err == nil {
				time.Local = l
			}
		}
		s := cleaning{vh.Work(), c.R, pids, func(f func()) { f() }}
		in, f := s.onStart()
		c.Try("start", in, f)
		in, f = s.all()
		c.Try("clean", in, f)
		in, f = s.list()
		c.Try("list", in, f)
	}
}

// as another user: processes of others can't be signalled and are there all the same
func TestVHOthers(t *testing.T) {
	c := vh.New(t, "the same while the process has not the right to signal the owners of the sessions")
	defer c.Done()
	if os.Getuid() != 0 {
		return
	}
	runtime.LockOSThread()
	other := sleeper()
	if other == nil {
		return
	}
	defer other.Process.Kill()
	dir, err := os.MkdirTemp("/tmp", "vh-c14")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0777)
	set := func(r, e, s int) bool {
		_, _, no := syscall.RawSyscall(syscall.SYS_SETRESUID, uintptr(r), uintptr(e), uintptr(s))
		return no == 0
	}
	if !set(65534, 65534, 0) {
		return
	}
	blocked := syscall.Kill(other.Process.Pid, 0) == syscall.EPERM
	if !set(0, 0, 0) || !blocked {
		return
	}
	pids := map[int]bool{gonePid(): false, other.Process.Pid: true, 1<<22 + 77: false}
	as := func(f func()) {
		set(65534, 65534, 0)
		defer set(0, 0, 0)
		f()
	}
	for c.More() {
		s := cleaning{dir, c.R, pids, as}
		in, f := s.onStart()
		c.Try("other-start", in, f)
		in, f = s.all()
		c.Try("other-clean", in, f)
	}
}
