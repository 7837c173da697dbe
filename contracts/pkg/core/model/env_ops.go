//go:build go1.21

package model

import (
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- reads and writes of env keys, checked before a flow runs (C07)

//vc:contract newEnvOps
func _() (r EnvOps) {
	Ensures(opsOK(r) && Fresh(r.ops) && len(r.orderedNames) == 0)
	return
}

// opsOK: the names in order are the names of the table.
//
//vc:spec
func opsOK(o EnvOps) bool {
	return o.ops != nil && Distinct(o.orderedNames, len(o.orderedNames)) && ForallStr(func(k string) bool {
		Trig(Has(o.ops, k))
		return Has(o.ops, k) == HasTo(o.orderedNames, len(o.orderedNames), k)
	})
}

//vc:contract EnvOps.IsEmpty
func _(self *EnvOps) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == (len(self.orderedNames) == 0))
	return
}

//vc:contract EnvOps.AddOp
func _(self *EnvOps, name string, op uint) {
	Requires(self != nil && opsOK(*self))
	NoAlloc()
	Modifies(self, self.ops)
	Ensures(opsOK(*self) && Addr(self.ops) == Old(Addr(self.ops)))
	Ensures(Has(self.ops, name) && Eq(self.ops[name], append(Old(self.ops[name]), op)), "operations of a key are kept in their order")
	Ensures(ForallStr(func(k string) bool {
		Trig(self.ops[k])
		return Implies(k != name, Eq(self.ops[k], Old(self.ops[k])))
	}), "operations of other keys stay")
	Ensures(Eq(self.orderedNames, Ite(Old(Has(self.ops, name)), Old(self.orderedNames), append(Old(self.orderedNames), name))), "keys are kept in the order they were declared")
	return
}

//vc:contract EnvOps.Ops
func _(self EnvOps, name string) (r []uint) {
	NoAlloc()
	Ensures(Eq(r, self.ops[name]))
	return
}

//vc:contract EnvOps.RawEnvKeys
func _(self EnvOps) (r []string) {
	NoAlloc()
	Ensures(Eq(r, self.orderedNames))
	return
}

//vc:spec
func opWrites(op uint) bool { return op&EnvOpTypeWrite > 0 || op&EnvOpTypeMayWrite > 0 }

//vc:spec
func opsWrite(ops []uint, n int) bool {
	return Exists(0, n, func(i int) bool { Trig(ops[i]); return opWrites(ops[i]) })
}

//vc:contract EnvOps.MatchWriteKey
func _(self EnvOps, key string) (r bool) {
	NoAlloc()
	Ensures(r == opsWrite(self.ops[key], len(self.ops[key])))
	//vc:inv 0: Implies(opsWrite(ops, Iter()), false)
	return
}

//vc:contract Cmd.EnvOps
func _(self *Cmd) (r EnvOps) {
	Requires(self != nil)
	NoAlloc()
	Ensures(Eq(r, self.envOps))
	return
}

//vc:contract Cmd.AddEnvOp
func _(self *Cmd, name string, op uint) (r *Cmd) {
	Requires(self != nil && opsOK(self.envOps))
	Modifies(&self.envOps, self.envOps.ops)
	Ensures(r == self && opsOK(self.envOps) && Addr(self.envOps.ops) == Old(Addr(self.envOps.ops)))
	Ensures(Has(self.envOps.ops, name) && Eq(self.envOps.ops[name], append(Old(self.envOps.ops[name]), op)), "operations of a key are kept in their order")
	Ensures(ForallStr(func(k string) bool {
		Trig(self.envOps.ops[k])
		return Implies(k != name, Eq(self.envOps.ops[k], Old(self.envOps.ops[k])))
	}), "operations of other keys stay")
	return
}

//vc:contract Cmd.Owner
//vc:inline
func _(self *Cmd) (r *CmdTree) { return }

// rep: xs and n times x.
//
//vc:spec
//vc:dec n
func rep(xs []string, x string, n int) []string {
	if n <= 0 {
		return xs
	}
	return append(rep(xs, x, n-1), x)
}

// opKeys: the keys of the operations, opNames: the texts they were declared by.
//
//vc:spec opaque
//vc:dec n
func opKeys(env *Env, argv ArgVals, names []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	return CatAll(opKeys(env, argv, names, n-1), lineText(env, argv, names[n-1]), len(lineText(env, argv, names[n-1])))
}

//vc:spec opaque
//vc:dec n
func opNames(env *Env, argv ArgVals, names []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	return rep(opNames(env, argv, names, n-1), names[n-1], len(lineText(env, argv, names[n-1])))
}

//vc:spec
func opMiss(env *Env, argv ArgVals, names []string, n int) bool {
	return Exists(0, n, func(i int) bool { Trig(names[i]); return lineMiss(env, argv, names[i]) })
}

//vc:spec
func opRand(env *Env, argv ArgVals, names []string, n int) bool {
	return Exists(0, n, func(i int) bool { Trig(names[i]); return lineRand(env, argv, names[i]) })
}

//vc:spec sealed
func allKeys(env *Env, argv ArgVals, names []string) []string { return opKeys(env, argv, names, len(names)) }

//vc:spec sealed
func allNames(env *Env, argv ArgVals, names []string) []string { return opNames(env, argv, names, len(names)) }

//vc:spec sealed
func opsFixed(env *Env, argv ArgVals, names []string) bool { return !opRand(env, argv, names, len(names)) }

//vc:spec sealed
func opsMiss(env *Env, argv ArgVals, names []string) bool { return opMiss(env, argv, names, len(names)) }

//vc:contract EnvOps.RenderedEnvKeys
//vc:reveal opKeys opNames allKeys allNames opsFixed opsMiss
func _(self EnvOps, argv ArgVals, env *Env, cmd *Cmd, allowError bool) (renderedKeys []string, origins []string, fullyRendered bool) {
	Requires(tmplStrs(cmd) && envWF() && env != nil && envOK(env))
	Panics(!allowError && opsMiss(env, argv, self.orderedNames), "a reference without a value is reported")
	Ensures(len(renderedKeys) == len(origins))
	Ensures(Implies(Old(opsFixed(env, argv, self.orderedNames)), Eq(renderedKeys, Old(allKeys(env, argv, self.orderedNames)))), "references in keys are replaced, the order is kept")
	Ensures(Implies(Old(opsFixed(env, argv, self.orderedNames)), Eq(origins, Old(allNames(env, argv, self.orderedNames)))))
	Ensures(fullyRendered == !opsMiss(env, argv, self.orderedNames))
	Ensures(envWF())
	//vc:inv 0: envWF() && len(renderedKeys) == len(origins)
	//vc:inv 0: Implies(!Old(opRand(env, argv, self.orderedNames, len(self.orderedNames))), Eq(renderedKeys, opKeys(env, argv, self.orderedNames, Iter())))
	//vc:inv 0: Implies(!Old(opRand(env, argv, self.orderedNames, len(self.orderedNames))), Eq(origins, opNames(env, argv, self.orderedNames, Iter())))
	//vc:inv 0: fullyRendered == !opMiss(env, argv, self.orderedNames, Iter())
	//vc:inv 1: len(renderedKeys) == len(origins)
	//vc:inv 1: Eq(renderedKeys, CatAll(AtLoop(renderedKeys), keys, Iter()))
	//vc:inv 1: Eq(origins, rep(AtLoop(origins), name, Iter()))
	return
}

// opsVal: what is known of a key after the first n of some operations on it.
//
//vc:spec opaque
//vc:dec n
func opsVal(v uint, ops []uint, n int) uint {
	if n <= 0 {
		return v
	}
	return opsVal(v, ops, n-1) | ops[n-1]
}

// keyVal: what is known of the key k after the operations of the first n keys.
//
//vc:spec opaque
//vc:dec n
func keyVal(v uint, ops map[string][]uint, keys []string, names []string, n int, k string) uint {
	if n <= 0 {
		return v
	}
	if keys[n-1] != k {
		return keyVal(v, ops, keys, names, n-1, k)
	}
	return opsVal(keyVal(v, ops, keys, names, n-1, k), ops[names[n-1]], len(ops[names[n-1]]))
}

// A key is provided if it was surely written, it may be if it was maybe written.

//vc:spec
func provided(v uint) bool { return v&EnvOpTypeWrite != 0 }

//vc:spec
func mayProvided(v uint) bool { return v&EnvOpTypeMayWrite != 0 }

//vc:spec
func opReads(op uint) bool { return op&EnvOpTypeRead != 0 }

//vc:spec
func opMayRead(op uint) bool { return op&EnvOpTypeRead == 0 && op&EnvOpTypeMayRead != 0 }

// opBad: an operation is reported. The fatal ones only: if a key nobody provided is read.
//
//vc:spec
func opBad(v, op uint, fatalOnly bool) bool {
	return !provided(v) && Ite(fatalOnly, opReads(op) && !mayProvided(v), opReads(op) || opMayRead(op))
}

//vc:spec
func opReport(key string, v, op uint) EnvOpsCheckResult {
	return EnvOpsCheckResult{Key: key, ReadNotExist: !provided(v) && !mayProvided(v) && opReads(op), MayReadNotExist: !provided(v) && !mayProvided(v) && opMayRead(op),
		ReadMayWrite: !provided(v) && mayProvided(v) && opReads(op), MayReadMayWrite: !provided(v) && mayProvided(v) && opMayRead(op)}
}

// opReports: the reports, and those of the first n operations on a key.
//
//vc:spec opaque
//vc:dec n
func opReports(reports []EnvOpsCheckResult, v uint, ops []uint, n int, key string, present bool, fatalOnly bool) []EnvOpsCheckResult {
	if n <= 0 {
		return reports
	}
	if present || !opBad(opsVal(v, ops, n), ops[n-1], fatalOnly) {
		return opReports(reports, v, ops, n-1, key, present, fatalOnly)
	}
	return append(opReports(reports, v, ops, n-1, key, present, fatalOnly), opReport(key, opsVal(v, ops, n), ops[n-1]))
}

// cmdReports: the reports of the operations of the first n keys.
//
//vc:spec opaque
//vc:dec n
func cmdReports(self EnvOpsChecker, env *Env, ops map[string][]uint, keys []string, names []string, n int, fatalOnly bool) []EnvOpsCheckResult {
	if n <= 0 {
		return []EnvOpsCheckResult{}
	}
	return opReports(cmdReports(self, env, ops, keys, names, n-1, fatalOnly), keyVal(self[keys[n-1]].val, ops, keys, names, n-1, keys[n-1]), ops[names[n-1]], len(ops[names[n-1]]), keys[n-1], len(envGet(env, keys[n-1]).Raw) != 0, fatalOnly)
}

//vc:spec
func sameReport(a, b EnvOpsCheckResult) bool {
	return a.Key == b.Key && a.ReadNotExist == b.ReadNotExist && a.MayReadNotExist == b.MayReadNotExist && a.ReadMayWrite == b.ReadMayWrite && a.MayReadMayWrite == b.MayReadMayWrite
}

//vc:spec
func sameReports(a, b []EnvOpsCheckResult) bool {
	return len(a) == len(b) && Forall(0, len(a), func(i int) bool { Trig(a[i]); return sameReport(a[i], b[i]) })
}

//vc:spec
func lastCmdOf(m ParsedCmd) *Cmd {
	if len(m.Segments) == 0 || m.Segments[len(m.Segments)-1].Matched.Cmd == nil {
		return nil
	}
	return m.Segments[len(m.Segments)-1].Matched.Cmd.cmd
}

//vc:contract ParsedCmd.LastCmd
func _(self ParsedCmd) (r *Cmd) {
	NoAlloc()
	Ensures(r == lastCmdOf(self))
	return
}

//vc:contract FirstArg2EnvProviders.Add
func _(self FirstArg2EnvProviders, matched ParsedCmd) {
	Requires(self != nil && lastCmdOf(matched) != nil && lastCmdOf(matched).arg2env != nil && envWF())
	Modifies(self)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool {
		Trig(Has(self, k))
		return Has(self, k) == (Old(Has(self, k)) || HasTo(lastCmdOf(matched).arg2env.orderedKeys, len(lastCmdOf(matched).arg2env.orderedKeys), k)) && Implies(Old(Has(self, k)), self[k] == Old(self[k]))
	}), "the first command providing a key is kept")
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(self, k)); return Has(self, k) == (Old(Has(self, k)) || HasTo(keys, Iter(), k)) && Implies(Old(Has(self, k)), self[k] == Old(self[k])) })
	return
}

//vc:contract FirstArg2EnvProviders.Get
func _(self FirstArg2EnvProviders, key string) (r *ParsedCmd) {
	NoAlloc()
	Ensures(r == self[key])
	return
}

// reportsTo: the reports of the first n keys of a command, valTo: what is known of a key then.
//
//vc:spec sealed
func reportsTo(self EnvOpsChecker, env *Env, argv ArgVals, cmd *Cmd, n int, fatalOnly bool) []EnvOpsCheckResult {
	return cmdReports(self, env, cmd.envOps.ops, allKeys(env, argv, cmd.envOps.orderedNames), allNames(env, argv, cmd.envOps.orderedNames), n, fatalOnly)
}

//vc:spec sealed
func valTo(self EnvOpsChecker, env *Env, argv ArgVals, cmd *Cmd, n int, k string) uint {
	return keyVal(self[k].val, cmd.envOps.ops, allKeys(env, argv, cmd.envOps.orderedNames), allNames(env, argv, cmd.envOps.orderedNames), n, k)
}

//vc:lemma twostate
//vc:reveal reportsTo valTo keyVal cmdReports
func reportStep(self EnvOpsChecker, env *Env, argv ArgVals, cmd *Cmd, n int, fatalOnly bool) {
	key := Old(allKeys(env, argv, cmd.envOps.orderedNames)[n])
	ops := Old(cmd.envOps.ops[allNames(env, argv, cmd.envOps.orderedNames)[n]])
	Ensures(Implies(0 <= n, Eq(Old(reportsTo(self, env, argv, cmd, n+1, fatalOnly)), opReports(Old(reportsTo(self, env, argv, cmd, n, fatalOnly)), Old(valTo(self, env, argv, cmd, n, key)), ops, len(ops), key, Old(len(envGet(env, key).Raw) != 0), fatalOnly))))
	Ensures(ForallStr(func(k string) bool {
		Trig(Old(valTo(self, env, argv, cmd, n+1, k)))
		return Implies(0 <= n, Old(valTo(self, env, argv, cmd, n+1, k)) == Ite(k == key, opsVal(Old(valTo(self, env, argv, cmd, n, k)), ops, len(ops)), Old(valTo(self, env, argv, cmd, n, k))))
	}))
}

//vc:lemma twostate
//vc:reveal reportsTo valTo keyVal cmdReports
func reportBase(self EnvOpsChecker, env *Env, argv ArgVals, cmd *Cmd, fatalOnly bool) {
	Ensures(len(Old(reportsTo(self, env, argv, cmd, 0, fatalOnly))) == 0)
	Ensures(ForallStr(func(k string) bool {
		Trig(Old(valTo(self, env, argv, cmd, 0, k)))
		return Old(valTo(self, env, argv, cmd, 0, k)) == Old(self[k].val)
	}))
}

//vc:contract EnvOpsChecker.OnCallCmd
//vc:reveal opsVal opReports
func _(self EnvOpsChecker, env *Env, argv ArgVals, matched ParsedCmd, pathSep string, cmd *Cmd, ignoreMaybe bool, displayPath string, arg2envs FirstArg2EnvProviders) (result []EnvOpsCheckResult) {
	Requires(self != nil && arg2envs != nil && tmplStrs(cmd) && envWF() && env != nil && envOK(env))
	Requires(lastCmdOf(matched) != nil && lastCmdOf(matched).arg2env != nil)
	Modifies(self, arg2envs)
	Panics(opsMiss(env, argv, cmd.envOps.orderedNames))
	Ensures(envWF())
	fixed := Old(opsFixed(env, argv, cmd.envOps.orderedNames))
	Ensures(Implies(fixed, sameReports(result, Old(reportsTo(self, env, argv, cmd, len(allKeys(env, argv, cmd.envOps.orderedNames)), ignoreMaybe)))), "a read of a key nobody provided is reported, nothing else is")
	Ensures(ForallStr(func(k string) bool {
		Trig(self[k])
		return Implies(fixed, self[k].val == Old(valTo(self, env, argv, cmd, len(allKeys(env, argv, cmd.envOps.orderedNames)), k)))
	}), "what is known of a key is what the operations on it tell")
	Ensures(Forall(0, len(result), func(i int) bool {
		Trig(result[i])
		return len(envGet(env, result[i].Key).Raw) == 0 && result[i].Cmd == cmd.owner && Implies(ignoreMaybe, result[i].ReadNotExist)
	}), "no report on a key which is present")
	Ensures(Forall(0, len(result), func(i int) bool {
		Trig(result[i])
		return ForallStr(func(k string) bool { Trig(Old(self[k])); return Implies(k == result[i].Key, !provided(Old(self[k].val))) })
	}), "no report on a key which was surely written before")
	//vc:use entry: reportBase(self, env, argv, cmd, ignoreMaybe)
	//vc:use 0: reportStep(self, env, argv, cmd, Iter(), ignoreMaybe)
	//vc:inv 0: envWF()
	//vc:inv 0: ForallInt(func(n int) bool { Trig(Old(reportsTo(self, env, argv, cmd, n, ignoreMaybe))); return Implies(n == Iter() && Old(opsFixed(env, argv, cmd.envOps.orderedNames)), sameReports(result, Old(reportsTo(self, env, argv, cmd, n, ignoreMaybe)))) })
	//vc:inv 0: ForallStr(func(k string) bool { return ForallInt(func(n int) bool { Trig(Old(valTo(self, env, argv, cmd, n, k))); return Implies(n == Iter() && Old(opsFixed(env, argv, cmd.envOps.orderedNames)), self[k].val == Old(valTo(self, env, argv, cmd, n, k))) }) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(self[k]); return Implies(provided(Old(self[k].val)), provided(self[k].val)) })
	//vc:inv 0: Forall(0, len(result), func(i int) bool { Trig(result[i]); return ForallStr(func(k string) bool { Trig(Old(self[k])); return Implies(k == result[i].Key, !provided(Old(self[k].val))) }) })
	//vc:inv 0: Forall(0, len(result), func(i int) bool { Trig(result[i]); return len(envGet(env, result[i].Key).Raw) == 0 && result[i].Cmd == cmd.owner && Implies(ignoreMaybe, result[i].ReadNotExist) })
	//vc:inv 1: envWF()
	//vc:inv 1: self[key].val == opsVal(AtLoop(self[key].val), cmd.envOps.ops[origins[i]], Iter())
	//vc:inv 1: ForallStr(func(k string) bool { Trig(self[k]); return Implies(k != key, self[k].val == AtLoop(self[k].val)) })
	//vc:inv 1: ForallStr(func(k string) bool { Trig(self[k]); return Implies(provided(Old(self[k].val)), provided(self[k].val)) })
	//vc:inv 1: Forall(0, len(result), func(i int) bool { Trig(result[i]); return ForallStr(func(k string) bool { Trig(Old(self[k])); return Implies(k == result[i].Key, !provided(Old(self[k].val))) }) })
	//vc:inv 1: ForallInt(func(n int) bool { Trig(Old(reportsTo(self, env, argv, cmd, n, ignoreMaybe))); return Implies(n == i && Old(opsFixed(env, argv, cmd.envOps.orderedNames)), sameReports(result, opReports(Old(reportsTo(self, env, argv, cmd, n, ignoreMaybe)), AtLoop(self[key].val), cmd.envOps.ops[origins[i]], Iter(), key, len(envGet(env, key).Raw) != 0, ignoreMaybe))) })
	//vc:inv 1: Forall(0, len(result), func(i int) bool { Trig(result[i]); return len(envGet(env, result[i].Key).Raw) == 0 && result[i].Cmd == cmd.owner && Implies(ignoreMaybe, result[i].ReadNotExist) })
	return
}

//vc:contract EnvOpsChecker.Reset
func _(self *EnvOpsChecker) {
	Requires(self != nil)
	Modifies(self)
	Ensures(*self != nil && Fresh(*self) && ForallStr(func(k string) bool { Trig(Has(*self, k)); return !Has(*self, k) }), "nothing is known of any key")
	return
}

//vc:contract EnvOpsChecker.RemoveKeyStat
func _(self *EnvOpsChecker, key string) {
	Requires(self != nil && *self != nil)
	NoAlloc()
	Modifies(*self)
	Ensures((*self)[key].val == 0, "the key counts as never written")
	Ensures(ForallStr(func(k string) bool {
		Trig((*self)[k])
		return Implies(k != key, Eq((*self)[k], Old((*self)[k])))
	}), "other keys stay")
	return
}

//vc:contract EnvOpsChecker.SetKeyWritten
func _(self *EnvOpsChecker, key string) {
	Requires(self != nil && *self != nil)
	NoAlloc()
	Modifies(*self)
	Ensures(provided((*self)[key].val), "the key counts as written")
	Ensures(ForallStr(func(k string) bool {
		Trig((*self)[k])
		return Implies(k != key, Eq((*self)[k], Old((*self)[k])))
	}), "other keys stay")
	return
}

//vc:spec
func CmdOps(cmd *Cmd, key string) []uint { return cmd.envOps.ops[key] }

//vc:spec
func CmdOpsOK(cmd *Cmd) bool { return opsOK(cmd.envOps) }
