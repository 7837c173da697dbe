//go:build go1.21

package builtin

import (
	"path/filepath"
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- enabling, disabling and purging in the hub (C16)

//vc:contract repoDisplayName
//vc:trusted only makes a text to show
func _(info meta.RepoInfo, env *model.Env) (r string) {
	NoAlloc()
	return
}

//vc:contract purgedStr
//vc:trusted only makes a text to show
func _(env *model.Env, isLocal bool) (r string) {
	NoAlloc()
	return
}

//vc:contract enabledStr
//vc:trusted only makes a text to show
func _(env *model.Env, str bool) (r string) {
	NoAlloc()
	return
}

//vc:contract disabledStr
//vc:trusted only makes a text to show
func _(env *model.Env) (r string) {
	NoAlloc()
	return
}

//vc:contract printInfoProps
//vc:trusted only prints
func _(screen model.Screen, env *model.Env, info meta.RepoInfo) {
	NoAlloc()
}

// callArg: the value of the argument of a command, given by name or as the rest of the command line.
//
//vc:spec uf
func callArg(flow *model.ParsedCmds, currCmdIdx int, argv model.ArgVals, arg string) string { return "" }

//vc:contract tailModeCallArg
//vc:trusted gives the argument of the command
func _(flow *model.ParsedCmds, currCmdIdx int, argv model.ArgVals, arg string) (r string) {
	NoAlloc()
	MayPanic()
	Ensures(r == callArg(flow, currCmdIdx, argv, arg))
	return
}

//vc:spec
func hubFile(env *model.Env) string {
	return filepath.Join(model.EnvGetOf(*env, "sys.paths.hub").Raw, model.EnvGetOf(*env, "strs.hub-file-name").Raw)
}

//vc:spec
func hubDir(env *model.Env) string { return model.EnvGetOf(*env, "sys.paths.hub").Raw }

//vc:spec
func hubSep(env *model.Env) string { return model.EnvGetOf(*env, "strs.proto-sep").Raw }

// hubOf: the entries in the hub file.
//
//vc:spec
func hubOf(env *model.Env) []meta.RepoInfo {
	return meta.HubEntries(hubDir(env), DiskText(hubFile(env)), hubSep(env))
}

//vc:spec
func envGood(env *model.Env) bool { return env != nil && model.EnvIsWF() && model.EnvIsVal(*env) }

//vc:contract getReposInfoPath
func _(env *model.Env, cmd model.ParsedCmd) (r string) {
	Requires(envGood(env))
	MayPanic()
	NoAlloc()
	Ensures(r == hubFile(env))
	return
}

//vc:contract checkFoundRepos
func _(env *model.Env, cmd model.ParsedCmd, infos []meta.RepoInfo, findStr string, expectActive bool) {
	MustPanic(len(infos) == 0)
	NoAlloc()
}

//vc:spec
func reason(info meta.RepoInfo) string {
	if info.AddReason == meta.AddrText(info.Addr) {
		return "<manually-added>"
	}
	return info.AddReason
}

//vc:contract getDisplayReason
func _(info meta.RepoInfo) (r string) {
	NoAlloc()
	Ensures(r == reason(info))
	return
}

// meant: the text occurs in what is shown of the entry.
//
//vc:spec
func meant(info meta.RepoInfo, s string) bool {
	return len(s) == 0 || strings.Index(meta.AddrText(info.Addr), s) >= 0 || strings.Index(info.Path, s) >= 0 ||
		strings.Index(reason(info), s) >= 0 || strings.Index(info.HelpStr, s) >= 0 || strings.Index(info.OnOff, s) >= 0 ||
		len(info.Addr.Addr) == 0 && strings.Index("local", s) >= 0
}

//vc:contract matchFindRepoInfo
func _(info meta.RepoInfo, findStr string) (r bool) {
	NoAlloc()
	Ensures(r == meant(info, findStr), "the text occurs in what is shown of the entry")
	return
}

// exactAt: the first of n entries with exactly this address, or -1.
//
//vc:spec
//vc:dec n
func exactAt(infos []meta.RepoInfo, s string, n int) int {
	if n <= 0 {
		return -1
	}
	if exactAt(infos, s, n-1) >= 0 {
		return exactAt(infos, s, n-1)
	}
	if meta.AddrText(infos[n-1].Addr) == s {
		return n - 1
	}
	return -1
}

//vc:lemma
func exactAtIs(infos []meta.RepoInfo, s string, n int) {
	Requires(0 <= n && n <= len(infos))
	k := exactAt(infos, s, n)
	Ensures(-1 <= k && k < n && Implies(k >= 0, meta.AddrText(infos[k].Addr) == s))
	Decreases(n)
	if n > 0 {
		exactAtIs(infos, s, n-1)
	}
}

//vc:lemma
func exactAtOnly(infos []meta.RepoInfo, s string, k, n int) {
	Requires(0 <= k && k <= n && n <= len(infos) && exactAt(infos, s, k) >= 0)
	Ensures(exactAt(infos, s, n) == exactAt(infos, s, k))
	Decreases(n)
	if n > k {
		exactAtOnly(infos, s, k, n-1)
	}
}

//vc:lemma auto
func exactAtOnlyAuto(infos []meta.RepoInfo, s string, k, n int) {
	Trig(exactAt(infos, s, k))
	Trig(exactAt(infos, s, n))
	Ensures(Implies(0 <= k && k <= n && n <= len(infos) && exactAt(infos, s, k) >= 0, exactAt(infos, s, n) == exactAt(infos, s, k)))
	if 0 <= k && k <= n && n <= len(infos) && exactAt(infos, s, k) >= 0 {
		exactAtOnly(infos, s, k, n)
	}
}

//vc:contract exactMatchHubRepo
func _(infos []meta.RepoInfo, findStrs ...string) (info meta.RepoInfo, rest []meta.RepoInfo, matched bool) {
	NoAlloc()
	Requires(len(findStrs) == 1)
	k := exactAt(infos, findStrs[0], len(infos))
	Ensures(matched == (len(findStrs[0]) > 0 && k >= 0))
	Ensures(Implies(matched, 0 <= k && k < len(infos) && info == infos[k] && Eq(rest, append(infos[:k], infos[k+1:]...))), "the others stay, in their order")
	//vc:inv 0: exactAt(infos, findStrs[0], Iter()) < 0 && len(findStrs[0]) > 0
	//vc:inv 0: len(rest) == 0 && !matched
	//vc:use 0: exactAtOnlyAuto(infos, findStrs[0], Iter()+1, len(infos))
	return
}

// victim: the disabled entries a purge takes: the one of exactly this address, else all the text is
// meant by.
//
//vc:spec sealed
func victim(infos []meta.RepoInfo, s string, i int) bool {
	if len(s) > 0 && exactAt(infos, s, len(infos)) >= 0 && infos[exactAt(infos, s, len(infos))].OnOff != "on" {
		return i == exactAt(infos, s, len(infos))
	}
	return infos[i].OnOff != "on" && meant(infos[i], s)
}

// purged: the victims among the first n entries, or the others.
//
//vc:spec
//vc:dec n
func purged(infos []meta.RepoInfo, s string, yes bool, n int) []meta.RepoInfo {
	if n <= 0 {
		return []meta.RepoInfo{}
	}
	if victim(infos, s, n-1) == yes {
		return append(purged(infos, s, yes, n-1), infos[n-1])
	}
	return purged(infos, s, yes, n-1)
}

// purgedExact: with an exact match of a disabled entry only this one goes.
//
//vc:lemma
//vc:reveal victim
func purgedExact(infos []meta.RepoInfo, s string, n int) {
	k := exactAt(infos, s, len(infos))
	Requires(0 <= n && n <= len(infos) && len(s) > 0 && k >= 0 && k < len(infos) && infos[k].OnOff != "on")
	Ensures(Implies(n <= k, Eq(purged(infos, s, false, n), infos[:n]) && len(purged(infos, s, true, n)) == 0))
	Ensures(Implies(n > k, Eq(purged(infos, s, false, n), append(infos[:k], infos[k+1:n]...)) && Eq(purged(infos, s, true, n), []meta.RepoInfo{infos[k]})))
	Decreases(n)
	if n > 0 {
		purgedExact(infos, s, n-1)
	}
}

//vc:lemma auto
func purgedExactAuto(infos []meta.RepoInfo, s string) {
	k := exactAt(infos, s, len(infos))
	Trig(purged(infos, s, false, len(infos)))
	Ensures(Implies(len(s) > 0 && k >= 0 && infos[k].OnOff != "on",
		Eq(purged(infos, s, false, len(infos)), append(infos[:k], infos[k+1:]...)) && Eq(purged(infos, s, true, len(infos)), []meta.RepoInfo{infos[k]})))
	if len(s) > 0 && k >= 0 && infos[k].OnOff != "on" {
		exactAtIs(infos, s, len(infos))
		purgedExact(infos, s, len(infos))
	}
}

// purgedOff: every entry that goes is a disabled one, and none is lost or doubled.
//
//vc:lemma
//vc:reveal victim
func purgedOff(infos []meta.RepoInfo, s string, n int) {
	Requires(0 <= n && n <= len(infos))
	vs := purged(infos, s, true, n)
	Ensures(Forall(0, len(vs), func(i int) bool { Trig(vs[i]); return vs[i].OnOff != "on" && (meant(vs[i], s) || meta.AddrText(vs[i].Addr) == s) }), "only disabled entries that are meant go")
	Ensures(len(vs)+len(purged(infos, s, false, n)) == n, "no entry is lost or doubled")
	Decreases(n)
	exactAtIs(infos, s, len(infos))
	if n > 0 {
		purgedOff(infos, s, n-1)
	}
}

//vc:contract osRemoveDir
func _(path string, cmd model.ParsedCmd) {
	NoAlloc()
	MayPanic()
	Modifies(Removed(strings.TrimSpace(path)))
}

// gone: the directory p was removed for one of the entries, which is a linked repo.
//
//vc:spec sealed
func gone(vs []meta.RepoInfo, n int, p string) bool {
	return Exists(0, n, func(i int) bool {
		Trig(vs[i])
		return len(vs[i].Addr.Addr) > 0 && strings.TrimSpace(vs[i].Path) == p
	})
}

//vc:lemma
//vc:reveal gone
func goneOn(vs []meta.RepoInfo, n int, p string) {
	Ensures(gone(vs, n, p) || !gone(vs, n-1, p))
	Ensures(Implies(0 < n && n <= len(vs) && len(vs[n-1].Addr.Addr) > 0 && strings.TrimSpace(vs[n-1].Path) == p, gone(vs, n, p)))
}

//vc:lemma auto
func goneOnAuto(vs []meta.RepoInfo, n int, p string) {
	Trig(gone(vs, n, p))
	Ensures(gone(vs, n, p) || !gone(vs, n-1, p))
	Ensures(Implies(0 < n && n <= len(vs) && len(vs[n-1].Addr.Addr) > 0 && strings.TrimSpace(vs[n-1].Path) == p, gone(vs, n, p)))
	goneOn(vs, n, p)
}

//vc:contract purgeInactiveRepoFromHub
//vc:reveal victim
func _(findStr string, cc *model.Cli, env *model.Env, cmd model.ParsedCmd) {
	Requires(cc != nil && cc.Screen != nil && envGood(env) && len(hubSep(env)) > 0)
	MayPanic()
	Modifies(Removed, DiskText(hubFile(env)), DiskText(hubFile(env)+".tmp"))
	infos := Old(hubOf(env))
	vs := purged(infos, findStr, true, len(infos))
	Ensures(DiskText(hubFile(env)) == meta.HubText(hubDir(env), purged(infos, findStr, false, len(infos)), hubSep(env)), "the other entries stay as they are, in their order")
	Ensures(ForallStr(func(p string) bool { Trig(Removed(p)); return Removed(p) == Old(Removed(p)) || gone(vs, len(vs), p) }), "only the content of purged linked repos is deleted")
	//vc:inv 0: Eq(extracted, purged(infos, findStr, true, Iter())) && Eq(rest, purged(infos, findStr, false, Iter()))
	//vc:inv 1: Eq(DiskText(metaPath), Old(DiskText(hubFile(env))))
	//vc:inv 1: ForallStr(func(p string) bool { Trig(Removed(p)); return Removed(p) == Old(Removed(p)) || gone(extracted, Iter(), p) })
	return
}

// switched: the entries with their state changed: on for enabling; for disabling only those that are on.
//
//vc:spec
//vc:dec n
func switched(infos []meta.RepoInfo, on bool, n int) []meta.RepoInfo {
	if n <= 0 {
		return []meta.RepoInfo{}
	}
	if on {
		return append(switched(infos, on, n-1), meta.RepoInfo{infos[n-1].Addr, infos[n-1].AddReason, infos[n-1].Path, infos[n-1].HelpStr, "on"})
	}
	if infos[n-1].OnOff == "on" {
		return append(switched(infos, on, n-1), meta.RepoInfo{infos[n-1].Addr, infos[n-1].AddReason, infos[n-1].Path, infos[n-1].HelpStr, "disabled"})
	}
	return append(switched(infos, on, n-1), infos[n-1])
}

//vc:spec
func callOK(cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) bool {
	return cc != nil && cc.Screen != nil && envGood(env) && len(hubSep(env)) > 0 && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds)
}

//vc:contract EnableRepoInHub
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(callOK(cc, env, flow, currCmdIdx))
	MayPanic()
	Modifies(DiskText(hubFile(env)), DiskText(hubFile(env)+".tmp"))
	infos := Old(hubOf(env))
	s := callArg(flow, currCmdIdx, argv, "find-str")
	vs := meta.Chosen(infos, s)
	Ensures(DiskText(hubFile(env)) == meta.HubText(hubDir(env), append(meta.Others(infos, s), switched(vs, true, len(vs))...), hubSep(env)), "only the entries meant are enabled, the others stay as they are, in their order")
	//vc:inv 0: len(extracted) == len(AtLoop(extracted)) && Eq(extracted[:Iter()], switched(AtLoop(extracted), true, Iter()))
	//vc:inv 0: Forall(Iter(), len(extracted), func(j int) bool { Trig(extracted[j]); return extracted[j] == AtLoop(extracted)[j] })
	return
}

//vc:contract DisableRepoInHub
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(callOK(cc, env, flow, currCmdIdx))
	MayPanic()
	Modifies(DiskText(hubFile(env)), DiskText(hubFile(env)+".tmp"))
	infos := Old(hubOf(env))
	s := callArg(flow, currCmdIdx, argv, "find-str")
	vs := meta.Chosen(infos, s)
	Ensures(DiskText(hubFile(env)) == meta.HubText(hubDir(env), append(meta.Others(infos, s), switched(vs, false, len(vs))...), hubSep(env)), "only the entries meant are disabled, the others stay as they are, in their order")
	//vc:inv 0: len(extracted) == len(AtLoop(extracted)) && Eq(extracted[:Iter()], switched(AtLoop(extracted), false, Iter()))
	//vc:inv 0: Forall(Iter(), len(extracted), func(j int) bool { Trig(extracted[j]); return extracted[j] == AtLoop(extracted)[j] })
	return
}
