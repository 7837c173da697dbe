//go:build go1.21

package model

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/utils"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- session directories (C14)

// sessionPid, sessionStart: what the name of a session directory says.
//
//vc:spec
func sessionPid(name string) int {
	pid, _ := strconv.Atoi(strings.Split(name, ".")[1])
	return pid
}

//vc:spec
func sessionStart(name string) time.Time {
	start, _ := time.ParseInLocation(SessionDirTimeFormat, strings.Split(name, ".")[0], time.Local)
	return start
}

// sessionName: the name made for a process and its start.
//
//vc:spec
func sessionName(start time.Time, pid int) string {
	return start.Format(SessionDirTimeFormat) + "." + Itoa(pid)
}

// isSessionName: the name is one that is made for a process and its start.
//
//vc:spec
func isSessionName(name string) bool {
	_, terr := time.ParseInLocation(SessionDirTimeFormat, strings.Split(name, ".")[0], time.Local)
	_, perr := strconv.Atoi(strings.Split(name, ".")[1])
	return len(strings.Split(name, ".")) == 2 && terr == nil && perr == nil && sessionPid(name) > 0 && name == sessionName(sessionStart(name), sessionPid(name))
}

//vc:contract parseSessionDirName
func _(dirName string) (pid int, startTs time.Time, ok bool) {
	NoAlloc()
	Ensures(ok == isSessionName(dirName), "only names made for a process and its start are accepted, and all of them")
	Ensures(Implies(ok, pid == sessionPid(dirName) && startTs == sessionStart(dirName)))
	return
}

//vc:contract GenSessionId
func _() (pid int, now time.Time, dirName string) {
	NoAlloc()
	Ensures(pid > 0 && dirName == sessionName(now, pid), "the name is made of the process and the start")
	Ensures(All(func(t time.Time) bool { Trig(t.Before(now)); return Implies(t.Before(now), Passed(t)) }))
	return
}

// startBack: a local time written into a name is read back to a time that is written the same way.
//
//vc:axiom
func startBack(t time.Time, local *time.Location) {
	r, err := time.ParseInLocation(SessionDirTimeFormat, t.Format(SessionDirTimeFormat), local)
	Trig(time.ParseInLocation(SessionDirTimeFormat, t.Format(SessionDirTimeFormat), local))
	Ensures(err == nil && r.Format(SessionDirTimeFormat) == t.Format(SessionDirTimeFormat))
}

// startText: the time written into a name has no dot.
//
//vc:axiom
func startText(t time.Time) {
	Trig(t.Format(SessionDirTimeFormat))
	Ensures(NoByte(t.Format(SessionDirTimeFormat), '.'))
}

// sessionBack: a name that was made is parsed to the process it was made for and a start that is written the same way.
//
//vc:lemma
func sessionBack(start time.Time, pid int) {
	Requires(pid > 0)
	Ensures(isSessionName(sessionName(start, pid)))
	Ensures(sessionPid(sessionName(start, pid)) == pid)
	Ensures(sessionStart(sessionName(start, pid)).Format(SessionDirTimeFormat) == start.Format(SessionDirTimeFormat))
	xs := []string{start.Format(SessionDirTimeFormat), Itoa(pid)}
	Assert(NoByte(Itoa(pid), '.'))
	Assert(NoByte(xs[0], '.'))
	Assert(JoinTo(xs, ".", 1) == xs[0])
	Assert(JoinTo(xs, ".", 2) == sessionName(start, pid))
	SplitBack(xs, ".")
}

// cleanable: the directory belongs to a session whose owner is gone.
//
//vc:spec
func cleanable(root, path, d string) bool {
	return path == filepath.Join(root, d) && isSessionName(d) && Gone(sessionPid(d))
}

//vc:contract CleanSessions
func _(env *Env) (cleaned uint, runnings uint) {
	Requires(envWF() && Live(env))
	root := envGet(env, "sys.paths.sessions").Raw
	MayPanic()
	Modifies(Removed)
	Ensures(ForallStr(func(p string) bool {
		Trig(Removed(p))
		return Implies(Removed(p) && !Old(Removed(p)), ExistsStr(func(d string) bool { Trig(filepath.Join(root, d)); return cleanable(root, p, d) }))
	}), "only directories of sessions whose owner is gone are removed")
	//vc:inv 0: ForallStr(func(p string) bool { Trig(Removed(p)); return Implies(Removed(p) && !Old(Removed(p)), ExistsStr(func(d string) bool { Trig(filepath.Join(envGet(env, "sys.paths.sessions").Raw, d)); return cleanable(envGet(env, "sys.paths.sessions").Raw, p, d) })) })
	return
}

//vc:contract CleanSession
func _(session SessionStatus, env *Env, force bool) (cleaned bool, running bool) {
	Requires(envWF() && Live(env))
	root := envGet(env, "sys.paths.sessions").Raw
	MayPanic()
	Modifies(Removed)
	Ensures(ForallStr(func(p string) bool {
		Trig(Removed(p))
		return Implies(Removed(p) && !Old(Removed(p)), p == filepath.Join(root, session.DirName) && (force || Gone(session.Pid)))
	}), "only the directory of the session is removed, of a running one only if forced")
	Ensures(Implies(!force && running, !cleaned))
	return
}

// NewExecutingFlow starts the record of a flow (C12, C24).
//
//vc:contract NewExecutingFlow
//vc:trusted writes the first lines of the status file and changes nothing else; what it writes is checked by C24 (bounded)
func _(path string, flow *ParsedCmds, env *Env) (r *ExecutingFlow) {
	Requires(envWF() && Live(env))
	MayPanic()
	Modifies(DiskText)
	Ensures(envWF() && Live(r))
	return
}

//vc:contract SessionInit
func _(cc *Cli, flow *ParsedCmds, env *Env, sessionFileName string, statusFileName string) (flowStatus *ExecutingFlow, crossProcessInnerCall bool, ok bool) {
	Requires(envWF() && Live(env) && Live(cc) && cc.Screen != nil && Live(cc.Cmds) && Live(cc.Cmds.Strs) && envLayer(env, EnvLayerSession) != nil)
	MayPanic()
	ModifiesAll()
	root := Old(envGet(env, "sys.paths.sessions").Raw)
	keep := Old(durOf(utils.DurText(envGet(env, "sys.sessions.keep-status-duration").Raw)))
	Ensures(ForallStr(func(p string) bool {
		Trig(Removed(p))
		return Implies(Removed(p) && !Old(Removed(p)), ExistsStr(func(d string) bool { Trig(filepath.Join(root, d)); return cleanable(root, p, d) && Passed(sessionStart(d).Add(keep)) }))
	}), "only directories of sessions whose owner is gone and which are over the time to keep them are removed")
	Ensures(ForallStr(func(p string) bool {
		Trig(Removed(p))
		return Implies(Removed(p) && !Old(Removed(p)), ExistsStr(func(d string) bool { Trig(filepath.Join(root, d)); return p == filepath.Join(root, d) && sessionPid(d) != os.Getpid() }))
	}), "no session of this process is removed")
	Ensures(Implies(ok && !crossProcessInnerCall, Live(flowStatus)))
	//vc:inv 0: envWF() && envLayer(env, EnvLayerSession) != nil
	//vc:inv 0: ForallStr(func(p string) bool { Trig(Removed(p)); return Implies(Removed(p) && !Old(Removed(p)), ExistsStr(func(d string) bool { Trig(filepath.Join(sessionsRoot, d)); return cleanable(sessionsRoot, p, d) && Passed(sessionStart(d).Add(keepDur)) })) })
	return
}
