//go:build go1.21

package model

import . "github.com/innerr/ticat/pkg/vstd"

// ---- masks for running a recorded flow again (C12)

// recWF: records are finite trees: what a record contains was made after it (its parts later than the whole).
//
//vc:spec uf
func recRank(f *ExecutedFlow) int { return 0 }

//vc:spec
func recWF() bool {
	return All(func(f *ExecutedFlow) bool {
		Trig(f.Cmds)
		return recRank(f) >= 0 && Implies(Live(f), Forall(0, len(f.Cmds), func(i int) bool {
			Trig(f.Cmds[i])
			return Live(f.Cmds[i]) && Implies(f.Cmds[i].SubFlow != nil, Live(f.Cmds[i].SubFlow) && recRank(f.Cmds[i].SubFlow) < recRank(f))
		}))
	})
}

// fit: the mask says for the recorded command what it should.
//
//vc:spec
func fit(c *ExecutedCmd, m *ExecuteMask) bool {
	done := c.Result == ExecutedResultSucceeded
	return m != nil && m.Cmd == c.Cmd && m.OverWriteStartEnv == c.StartEnv && m.OverWriteFinishEnv == c.FinishEnv &&
		m.ResultIfExecuted == c.Result && m.ExecutedCmd == c &&
		Iff(m.ExecPolicy == ExecPolicySkip, done && c.SubFlow == nil) &&
		Iff(m.ExecPolicy == ExecPolicyExec, !(done && c.SubFlow == nil)) &&
		Iff(m.FileNFlowExecPolicy == ExecPolicySkip, done && c.SubFlow != nil) &&
		Iff(m.FileNFlowExecPolicy == ExecPolicyExec, !(done && c.SubFlow != nil)) &&
		Implies(c.SubFlow == nil, len(m.SubFlow) == 0)
}

// fitAll: the masks line up with the recorded commands, also inside of sub flows.
//
//vc:spec
//vc:dec recRank(f)
func fitAll(f *ExecutedFlow, ms []*ExecuteMask) bool {
	return len(ms) == len(f.Cmds) && Forall(0, len(ms), func(i int) bool {
		Trig(ms[i])
		return fit(f.Cmds[i], ms[i]) && (!(f.Cmds[i].SubFlow != nil && 0 <= recRank(f.Cmds[i].SubFlow) && recRank(f.Cmds[i].SubFlow) < recRank(f)) || fitAll(f.Cmds[i].SubFlow, ms[i].SubFlow))
	})
}

//vc:contract ExecutedFlow.GenExecMasks
func _(self *ExecutedFlow) (masks []*ExecuteMask) {
	Requires(recWF() && Live(self))
	Ensures(recWF())
	Ensures(fitAll(self, masks), "one mask per recorded command, in order, skipping exactly what succeeded")
	Decreases(recRank(self))
	//vc:inv 0: recWF() && len(masks) == Iter()
	//vc:inv 0: Forall(0, Iter(), func(j int) bool { Trig(masks[j]); return Live(masks[j]) && fit(self.Cmds[j], masks[j]) && Implies(self.Cmds[j].SubFlow != nil, fitAll(self.Cmds[j].SubFlow, masks[j].SubFlow)) })
	return
}

//vc:contract shouldExecByMask
func _(mask *ExecuteMask) (r bool) {
	NoAlloc()
	Ensures(r == (mask == nil || mask.ExecPolicy == ExecPolicyExec), "everything not marked is executed")
	return
}

//vc:contract executedAndSucceeded
func _(mask *ExecuteMask) (r bool) {
	NoAlloc()
	Ensures(r == (mask != nil && mask.ResultIfExecuted == ExecutedResultSucceeded))
	return
}

//vc:contract ExecuteMask.Copy
func _(self *ExecuteMask) (r *ExecuteMask) {
	Requires(self != nil)
	Ensures(Fresh(r) && r.ExecPolicy == self.ExecPolicy && r.FileNFlowExecPolicy == self.FileNFlowExecPolicy && Eq(r.SubFlow, self.SubFlow) && r.Cmd == self.Cmd)
	Ensures(r.OverWriteStartEnv == self.OverWriteStartEnv && r.OverWriteFinishEnv == self.OverWriteFinishEnv && r.ExecutedCmd == self.ExecutedCmd)
	return
}

// runs: how often the command was run, through whichever door.
//
//vc:ghostfield
func runs(c *Cmd) int { return 0 }

// scripts: how often the script of the command was run.
//
//vc:ghostfield
func scripts(c *Cmd) int { return 0 }

//vc:contract Screen.Print
//vc:trusted printing changes no state of ours
func _(s Screen, text string) { NoAlloc() }

//vc:contract Cmd.executePowerCmd
//vc:trusted runs the power command, whatever it does; the count is ours
func _(self *Cmd, argv ArgVals, cc *Cli, env *Env, flow *ParsedCmds, currCmdIdx int) (r int, ok bool) {
	ModifiesAll()
	MayPanic()
	Ensures(runs(self) > Old(runs(self)))
	return
}

//vc:contract Cmd.executeFile
//vc:trusted runs the script of the command; the counts are ours
func _(self *Cmd, argv ArgVals, cc *Cli, env *Env, allowError bool, parsedCmd ParsedCmd, logFilePath string) (ok bool) {
	ModifiesAll()
	MayPanic()
	Ensures(runs(self) > Old(runs(self)) && scripts(self) == Old(scripts(self))+1)
	return
}

//vc:contract Cmd.executeFlow
//vc:trusted runs the commands of the flow of the command (see Executor.executeFlow); the count is ours
func _(self *Cmd, argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask) (ok bool) {
	ModifiesAll()
	MayPanic()
	Ensures(runs(self) > Old(runs(self)))
	Ensures(scripts(self) == Old(scripts(self)))
	Ensures(cc.Screen != nil)
	Ensures(Eq(mask, Old(mask)) && Implies(mask != nil, mask.FileNFlowExecPolicy == Old(mask.FileNFlowExecPolicy)))
	return
}

//vc:functype tryBreakInsideFileNFlow
//vc:trusted asks the user, whatever happens then
func _(cc *Cli, env *Env, cmd *Cmd) (ok bool) {
	ModifiesAll()
	MayPanic()
	Ensures(cc.Screen != nil)
	Ensures(All(func(m *ExecuteMask) bool { Trig(m.FileNFlowExecPolicy); return m.FileNFlowExecPolicy == Old(m.FileNFlowExecPolicy) }))
	Ensures(runs(cmd) == Old(runs(cmd)) && scripts(cmd) == Old(scripts(cmd)))
	return
}

//vc:contract Cmd.executeFileNFlow
func _(self *Cmd, argv ArgVals, cc *Cli, env *Env, allowError bool, parsedCmd ParsedCmd, logFilePath string, mask *ExecuteMask, tryBreakInsideFileNFlow func(*Cli, *Env, *Cmd) bool) (ok bool) {
	Requires(self != nil && cc != nil && cc.Screen != nil)
	ModifiesAll()
	MayPanic()
	Ensures(Implies(tryBreakInsideFileNFlow == nil && ok && (mask == nil || Old(mask.FileNFlowExecPolicy) == ExecPolicyExec), scripts(self) == Old(scripts(self))+1), "the script runs after its flow")
	Ensures(Implies(mask != nil && Old(mask.FileNFlowExecPolicy) != ExecPolicyExec, scripts(self) == Old(scripts(self))), "a script that already succeeded is not run again")
	Ensures(runs(self) > Old(runs(self)))
	return
}

//vc:contract Cmd.executeByType
func _(self *Cmd, argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask, flow *ParsedCmds, allowError bool, currCmdIdx int, logFilePath string, tryBreakInsideFileNFlow func(*Cli, *Env, *Cmd) bool) (r int, ok bool) {
	Requires(self != nil && cc != nil && cc.Screen != nil && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	Requires(Implies(self.ty == CmdTypeNormal, self.normal != nil))
	ModifiesAll()
	MayPanic()
	Ensures(Implies(mask != nil && Old(mask.ExecPolicy) != ExecPolicyExec, runs(self) == Old(runs(self)) && scripts(self) == Old(scripts(self)) && ok && r == currCmdIdx), "a command to be skipped is not run and counts as succeeded")
	return
}

// ---- what the rearrangement of flows asks of a command (C13)

//vc:spec
func CmdEmpty(c ParsedCmd) bool {
	return len(c.ParseResult.Input) == 0 && c.ParseResult.Error == nil && Forall(0, len(c.Segments), func(i int) bool { Trig(c.Segments[i]); return c.Segments[i].Matched.Cmd == nil })
}

//vc:contract ParsedCmd.IsAllEmptySegments
func _(self ParsedCmd) (r bool) {
	NoAlloc()
	Ensures(r == CmdEmpty(self), "empty means no word, no error and no command")
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(self.Segments[i]); return self.Segments[i].Matched.Cmd == nil })
	return
}

//vc:spec
func CmdPriority(c ParsedCmd) bool {
	return len(c.Segments) > 0 && c.Segments[len(c.Segments)-1].Matched.Cmd != nil && c.Segments[len(c.Segments)-1].Matched.Cmd.cmd != nil &&
		c.Segments[len(c.Segments)-1].Matched.Cmd.cmd.flags.priority
}

// CmdsOK: every command has its flags.
//
//vc:spec
func CmdsOK() bool {
	return All(func(c *Cmd) bool { Trig(c.flags); return Implies(Live(c), c.flags != nil) })
}

//vc:contract ParsedCmd.IsPriority
func _(self ParsedCmd) (r bool) {
	NoAlloc()
	Requires(CmdsOK())
	Ensures(r == CmdPriority(self), "the last part of the path names a priority command")
	return
}

//vc:spec
func CmdTailCall(c ParsedCmd) bool {
	return len(c.Segments) > 0 && c.Segments[len(c.Segments)-1].Matched.Cmd != nil && c.Segments[len(c.Segments)-1].Matched.Cmd.cmd != nil &&
		c.Segments[len(c.Segments)-1].Matched.Cmd.cmd.flags.allowTailModeCall
}

//vc:contract ParsedCmd.AllowTailModeCall
func _(self ParsedCmd) (r bool) {
	NoAlloc()
	Requires(CmdsOK())
	Ensures(r == CmdTailCall(self))
	return
}

//vc:contract GetLastStackFrame
//vc:trusted last element of the stack text of the env, changes nothing
func _(env *Env) (r string) {
	NoAlloc()
	MayPanic()
	return
}
