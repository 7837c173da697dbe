//go:build go1.21

package model

import (
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- programs commands depend on (C27)

//vc:contract Cmd.GetDepends
func _(self *Cmd) (r []Depend) {
	Requires(self != nil)
	NoAlloc()
	Ensures(Eq(r, self.depends))
	return
}

//vc:contract Cmd.AddDepend
func _(self *Cmd, dep string, reason string) (r *Cmd) {
	Requires(self != nil)
	NoAlloc()
	Modifies(&self.depends)
	Ensures(r == self && Eq(self.depends, append(Old(self.depends), Depend{dep, reason})), "a declared program is kept, those before too")
	return
}

//vc:contract Cmd.Type
func _(self *Cmd) (r CmdType) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == self.ty)
	return
}

//vc:contract Cmd.HasSubFlow
func _(self *Cmd, includeQuietSubFlow bool) (r bool) {
	Requires(self != nil && self.flags != nil)
	NoAlloc()
	Ensures(r == ((includeQuietSubFlow || !self.flags.quietSubFlow) && (self.ty == CmdTypeFlow || self.ty == CmdTypeFileNFlow || self.ty == CmdTypeAdHotFlow)), "the commands running flows")
	return
}

//vc:contract ParsedEnv.WriteNotArgTo
func _(self ParsedEnv, env *Env, valDelAllMark string) {
	Requires(envWF() && Live(env))
	NoAlloc()
	ModifiesMaps(env.pairs)
	Ensures(envWF())
	//vc:inv 0: envWF()
	return
}

//vc:contract Cli.CloneForChecking
//vc:trusted a copy with rules and mappings of its own (Blender.Clone), changes nothing
func _(self *Cli) (r *Cli) {
	Requires(self != nil && envWF())
	MayPanic()
	Ensures(Fresh(r) && r.Cmds == self.Cmds && r.Parser == self.Parser && r.EnvAbbrs == self.EnvAbbrs && envWF())
	return
}

//vc:contract ParsedCmd.ApplyMappingGenEnvAndArgv
//vc:trusted writes env values only, the env it returns is on top of the one given; run by the harnesses of C23 and C27
func _(self ParsedCmd, originEnv *Env, valDelAllMark string, cmdPathSep string, stackDepth int) (env *Env, argv ArgVals) {
	Requires(envWF() && Live(originEnv))
	ModifiesMaps(originEnv.pairs)
	MayPanic()
	Ensures(envWF() && Live(env))
	return
}

//vc:contract Cmd.Flow
//vc:trusted renders the flow of a command, changes nothing but env values and the rules of the checking copy; run by the harness
func _(self *Cmd, argv ArgVals, cc *Cli, env *Env, allowFlowTemplateRenderError bool) (flow []string, masks []*ExecuteMask, rendered bool) {
	Requires(envWF() && Live(env) && self != nil && cc != nil)
	ModifiesMaps(env.pairs)
	MayPanic()
	Ensures(envWF())
	return
}

//vc:contract CliParser.Parse
//vc:trusted a new flow, changes nothing
func _(self CliParser, cmds *CmdTree, envAbbrs *EnvAbbrs, input ...string) (r *ParsedCmds) {
	Requires(envWF())
	MayPanic()
	Ensures(Fresh(r) && envWF())
	return
}

//vc:contract TryExeEnvOpCmds
//vc:trusted runs the effect of a builtin env command, changes env values and the checker only
func _(argv ArgVals, cc *Cli, env *Env, flow *ParsedCmds, currCmdIdx int, envOpCmds []EnvOpCmd, checker *EnvOpsChecker, errString string) {
	Requires(envWF() && Live(env))
	ModifiesMaps(env.pairs)
	MayPanic()
	Ensures(envWF())
	return
}

// depsOK: the lists of the programs are lists of their own.
//
//vc:spec
func depsOK(res Depends) bool {
	return res != nil && ForallStr(func(a string) bool {
		Trig(res[a])
		return Implies(Has(res, a), res[a] != nil && Live(res[a]))
	}) && ForallStr(func(a string) bool {
		return ForallStr(func(b string) bool {
			Trig(res[a], res[b])
			return Implies(Has(res, a) && Has(res, b) && Addr(res[a]) == Addr(res[b]), a == b)
		})
	})
}

// needs: the program is listed with the command.
//
//vc:spec
func needs(res Depends, os string, c *Cmd) bool { return Has(res, os) && Has(res[os], c) }

// declared: a command declares to need the program, for the reason.
//
//vc:spec
func declared(c *Cmd, os string, reason string) bool {
	return Exists(0, len(c.depends), func(j int) bool { Trig(c.depends[j]); return c.depends[j].OsCmd == os && c.depends[j].Reason == reason })
}

//vc:spec
func cmdListed(res Depends, c *Cmd) bool {
	return Implies(c != nil, Forall(0, len(c.depends), func(j int) bool { Trig(c.depends[j]); return needs(res, c.depends[j].OsCmd, c) }))
}

//vc:contract collectDepends
func _(cc *Cli, env *Env, flow *ParsedCmds, currCmdIdx int, res Depends, allowFlowTemplateRenderError bool, envOpCmds []EnvOpCmd, depth int) {
	Requires(cc != nil && flow != nil && cc.Cmds != nil && cc.Cmds.Strs != nil && 0 <= currCmdIdx)
	Requires(envWF() && Live(env) && CmdsOK() && depsOK(res))
	ModifiesMaps(env.pairs)
	ModifiesMaps(res)
	ModifiesMaps(res[""])
	MayPanic()
	Ensures(envWF() && depsOK(res) && CmdsOK())
	Ensures(Forall(currCmdIdx, len(flow.Cmds), func(i int) bool { Trig(flow.Cmds[i]); return cmdListed(res, lastCmdOf(flow.Cmds[i])) }), "every program a command of the flow needs is listed with the command")
	Ensures(ForallStr(func(os string) bool {
		return All(func(c *Cmd) bool {
			Trig(Has(res[os], c))
			return Implies(Old(needs(res, os, c)), needs(res, os, c))
		})
	}), "nothing listed is dropped")
	Ensures(ForallStr(func(os string) bool {
		return All(func(c *Cmd) bool {
			Trig(Has(res[os], c))
			return Implies(needs(res, os, c), Old(needs(res, os, c)) && Eq(res[os][c], Old(res[os][c])) || declared(c, os, res[os][c].Reason))
		})
	}), "nothing but declared programs is listed, with their reasons")
	//vc:inv 0: envWF() && depsOK(res) && CmdsOK() && currCmdIdx <= i
	//vc:inv 0: Forall(currCmdIdx, i, func(t int) bool { Trig(flow.Cmds[t]); return Implies(t < len(flow.Cmds), cmdListed(res, lastCmdOf(flow.Cmds[t]))) })
	//vc:inv 0: ForallStr(func(os string) bool { return All(func(c *Cmd) bool { Trig(Has(res[os], c)); return Implies(Old(needs(res, os, c)), needs(res, os, c)) }) })
	//vc:inv 0: ForallStr(func(os string) bool { return All(func(c *Cmd) bool { Trig(Has(res[os], c)); return Implies(needs(res, os, c), Old(needs(res, os, c)) && Eq(res[os][c], Old(res[os][c])) || declared(c, os, res[os][c].Reason)) }) })
	//vc:inv 1: depsOK(res)
	//vc:inv 1: Forall(0, Iter(), func(j int) bool { Trig(deps[j]); return needs(res, deps[j].OsCmd, cic) })
	//vc:inv 1: ForallStr(func(os string) bool { return All(func(c *Cmd) bool { Trig(Has(res[os], c)); return Implies(AtLoop(needs(res, os, c)), needs(res, os, c)) }) })
	//vc:inv 1: ForallStr(func(os string) bool { return All(func(c *Cmd) bool { Trig(Has(res[os], c)); return Implies(needs(res, os, c), AtLoop(needs(res, os, c)) && Eq(res[os][c], AtLoop(res[os][c])) || declared(c, os, res[os][c].Reason)) }) })
	return
}

//vc:contract CollectDepends
func _(cc *Cli, env *Env, flow *ParsedCmds, currCmdIdx int, res Depends, allowFlowTemplateRenderError bool, envOpCmds []EnvOpCmd) {
	Requires(cc != nil && flow != nil && cc.Cmds != nil && cc.Cmds.Strs != nil && 0 <= currCmdIdx)
	Requires(envWF() && Live(env) && CmdsOK() && depsOK(res))
	ModifiesMaps(env.pairs)
	ModifiesMaps(res)
	ModifiesMaps(res[""])
	MayPanic()
	Ensures(depsOK(res))
	Ensures(Forall(currCmdIdx, len(flow.Cmds), func(i int) bool { Trig(flow.Cmds[i]); return cmdListed(res, lastCmdOf(flow.Cmds[i])) }), "every program a command of the flow needs is listed with the command")
	Ensures(ForallStr(func(os string) bool {
		return All(func(c *Cmd) bool {
			Trig(Has(res[os], c))
			return Implies(Old(needs(res, os, c)), needs(res, os, c))
		})
	}), "nothing listed is dropped")
	Ensures(ForallStr(func(os string) bool {
		return All(func(c *Cmd) bool {
			Trig(Has(res[os], c))
			return Implies(needs(res, os, c), Old(needs(res, os, c)) && Eq(res[os][c], Old(res[os][c])) || declared(c, os, res[os][c].Reason))
		})
	}), "nothing but declared programs is listed, with their reasons")
	return
}
