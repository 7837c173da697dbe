//go:build go1.21

package execute

import (
	"github.com/innerr/ticat/pkg/core/model"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- rearranging a flow (C13)

// trimLen: what is left of the first n commands without the empty ones at the end.
//
//vc:spec
//vc:dec n
func trimLen(flow []model.ParsedCmd, n int) int {
	if n <= 0 || !model.CmdEmpty(flow[n-1]) {
		return n
	}
	return trimLen(flow, n-1)
}

//vc:lemma
func trimLenRange(flow []model.ParsedCmd, n int) {
	Ensures(Implies(0 <= n && n <= len(flow), 0 <= trimLen(flow, n) && trimLen(flow, n) <= n))
	Ensures(Implies(0 <= n && n <= len(flow), Forall(trimLen(flow, n), n, func(i int) bool { Trig(flow[i]); return model.CmdEmpty(flow[i]) })))
	Decreases(n)
	if 0 < n && n <= len(flow) {
		trimLenRange(flow, n-1)
	}
}

// trimLenCut: what lies behind does not matter.
//
//vc:lemma
func trimLenCut(flow []model.ParsedCmd, m, n int) {
	Ensures(Implies(0 <= n && n <= m && m <= len(flow), trimLen(flow[:m], n) == trimLen(flow, n)))
	Decreases(n)
	if 0 < n && n <= m && m <= len(flow) {
		trimLenCut(flow, m, n-1)
	}
}

// tailCall: the last command follows an empty one.
//
//vc:spec
func tailCall(flow []model.ParsedCmd) bool {
	return len(flow) >= 2 && len(flow[len(flow)-2].ParseResult.Input) == 0
}

// moves: the last command goes to the front.
//
//vc:spec
func moves(flow []model.ParsedCmd) bool {
	return len(flow) >= 2 && (tailCall(flow) || model.CmdPriority(flow[len(flow)-1]))
}

// before: the commands left in front of the one that moves.
//
//vc:spec
func before(flow []model.ParsedCmd) int {
	if tailCall(flow) {
		return trimLen(flow, len(flow)-2)
	}
	return trimLen(flow, len(flow)-1)
}

// nMoved: how many commands go to the front.
//
//vc:spec
//vc:dec len(flow)
func nMoved(flow []model.ParsedCmd) int {
	if !moves(flow) || before(flow) < 0 || before(flow) >= len(flow) {
		return 0
	}
	return 1 + nMoved(flow[:before(flow)])
}

// stays: how many commands at the start keep their places.
//
//vc:spec
//vc:dec len(flow)
func stays(flow []model.ParsedCmd) int {
	if !moves(flow) || before(flow) < 0 || before(flow) >= len(flow) {
		return len(flow)
	}
	return stays(flow[:before(flow)])
}

// pos: where the i-th moved command was.
//
//vc:spec
//vc:dec len(flow)
func pos(flow []model.ParsedCmd, i int) int {
	if !moves(flow) || before(flow) < 0 || before(flow) >= len(flow) {
		return -1
	}
	if i == 0 {
		return len(flow) - 1
	}
	return pos(flow[:before(flow)], i-1)
}

// dest: where the k-th command goes, when it is one of the moved.
//
//vc:spec
//vc:dec len(flow)
func dest(flow []model.ParsedCmd, k int) int {
	if !moves(flow) || before(flow) < 0 || before(flow) >= len(flow) {
		return -1
	}
	if k == len(flow)-1 {
		return 0
	}
	return 1 + dest(flow[:before(flow)], k)
}

// notTwice: the moved commands come from ever earlier places.
//
//vc:lemma
func notTwice(flow []model.ParsedCmd, i int) {
	Requires(0 <= i && i < nMoved(flow))
	Ensures(pos(flow, i) < len(flow))
	Ensures(Implies(i > 0, pos(flow, i) < pos(flow, i-1)), "no command is moved twice")
	Decreases(len(flow))
	if i > 0 {
		notTwice(flow[:before(flow)], i-1)
	}
}

// same: the same command, only marked as moved.
//
//vc:spec
func same(a, b model.ParsedCmd) bool {
	return Eq(a.Segments, b.Segments) && Eq(a.ParseResult, b.ParseResult) && a.TrivialLvl == b.TrivialLvl
}

//vc:contract moveLastPriorityCmdToFront
func _(flow []model.ParsedCmd) (reordered []model.ParsedCmd, doMove bool, tailModeCall bool, attempTailModeCall bool) {
	NoAlloc()
	Requires(model.CmdsOK())
	Requires(Forall(0, len(flow), func(i int) bool { Trig(flow[i]); return Implies(len(flow[i].ParseResult.Input) == 0, model.CmdEmpty(flow[i])) }))
	Ensures(doMove == moves(flow))
	Ensures(0 <= stays(flow) && stays(flow) <= len(flow) && nMoved(flow) >= 0)
	Ensures(len(reordered) == nMoved(flow)+stays(flow))
	Ensures(Forall(nMoved(flow), len(reordered), func(i int) bool { Trig(reordered[i]); return Eq(reordered[i], flow[i-nMoved(flow)]) }), "the other commands keep their order")
	Ensures(Forall(0, nMoved(flow), func(i int) bool {
		Trig(reordered[i])
		return stays(flow) <= pos(flow, i) && pos(flow, i) < len(flow) && same(reordered[i], flow[pos(flow, i)]) && reordered[i].TailMode
	}), "every moved command is one from behind the others")
	Ensures(Forall(stays(flow), len(flow), func(k int) bool {
		Trig(flow[k])
		return model.CmdEmpty(flow[k]) || 0 <= dest(flow, k) && dest(flow, k) < nMoved(flow) && pos(flow, dest(flow, k)) == k
	}), "no command is lost")
	Decreases(len(flow))
	//vc:inv 0: len(flow) <= len(AtLoop(flow)) && Eq(flow, AtLoop(flow)[:len(flow)])
	//vc:inv 0: trimLen(AtLoop(flow), len(AtLoop(flow))) == trimLen(AtLoop(flow), len(flow))
	//vc:dec 0: len(flow)
	//vc:use entry: trimLenRange(flow, len(flow)-1)
	//vc:use entry: trimLenRange(flow, len(flow)-2)
	//vc:use entry: trimLenCut(flow, len(flow)-1, len(flow)-1)
	//vc:use entry: trimLenCut(flow, len(flow)-2, len(flow)-2)
	return
}

//vc:spec
//vc:dec n
func nonEmpty(cmds []model.ParsedCmd, n int) int {
	if n <= 0 {
		return 0
	}
	if model.CmdEmpty(cmds[n-1]) {
		return nonEmpty(cmds, n-1)
	}
	return 1 + nonEmpty(cmds, n-1)
}

//vc:contract removeEmptyCmds
func _(flow *model.ParsedCmds) {
	NoAlloc()
	Requires(flow != nil)
	Modifies(&flow.Cmds, &flow.GlobalCmdIdx)
	Ensures(len(flow.Cmds) == nonEmpty(Old(flow.Cmds), Old(len(flow.Cmds))), "exactly the empty ones go")
	Ensures(Forall(0, Old(len(flow.Cmds)), func(i int) bool {
		Trig(Old(flow.Cmds)[i])
		return model.CmdEmpty(Old(flow.Cmds)[i]) || Eq(flow.Cmds[nonEmpty(Old(flow.Cmds), i)], Old(flow.Cmds)[i])
	}), "the others stay in order")
	Ensures(Implies(0 <= Old(flow.GlobalCmdIdx) && Old(flow.GlobalCmdIdx) <= Old(len(flow.Cmds)), flow.GlobalCmdIdx == nonEmpty(Old(flow.Cmds), Old(flow.GlobalCmdIdx))), "the index of the global command follows it")
	Ensures(Implies(Old(flow.GlobalCmdIdx) < 0, flow.GlobalCmdIdx == Old(flow.GlobalCmdIdx)))
	//vc:inv 0: len(cmds) == nonEmpty(flow.Cmds, Iter()) && flow.GlobalCmdIdx == Old(flow.GlobalCmdIdx)
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(flow.Cmds[i]); return model.CmdEmpty(flow.Cmds[i]) || 0 <= nonEmpty(flow.Cmds, i) && nonEmpty(flow.Cmds, i) < len(cmds) && Eq(cmds[nonEmpty(flow.Cmds, i)], flow.Cmds[i]) })
	//vc:inv 0: Implies(flow.GlobalCmdIdx < 0, globalCmdIdx == flow.GlobalCmdIdx)
	//vc:inv 0: Implies(0 <= flow.GlobalCmdIdx && Iter() <= flow.GlobalCmdIdx, globalCmdIdx == flow.GlobalCmdIdx-Iter()+nonEmpty(flow.Cmds, Iter()))
	//vc:inv 0: Implies(0 <= flow.GlobalCmdIdx && Iter() >= flow.GlobalCmdIdx, globalCmdIdx == nonEmpty(flow.Cmds, flow.GlobalCmdIdx))
	return
}

// ---- the main loop (C28)

// callRec: one command of a flow being executed; Next is the index it left, the next command is behind it.
type callRec struct {
	Idx, Next int
	OK        bool
	Mask      *model.ExecuteMask
}

// trace: the calls so far (ghost).
//
//vc:ghostfield
func trace(x *Executor) []callRec { return nil }

//vc:contract Executor.executeCmd
//vc:trusted executes one command, whatever it does; that it is given the command at the index is checked at the call
func _(self *Executor, cc *model.Cli, bootstrap bool, cmd model.ParsedCmd, env *model.Env, mask *model.ExecuteMask, flow *model.ParsedCmds, currCmdIdx int, breakByPrev bool, lastCmdInFlow bool) (newCurrCmdIdx int, succeeded bool, breakAtNext bool) {
	Requires(flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds) && Eq(cmd, flow.Cmds[currCmdIdx]))
	Requires(lastCmdInFlow == (currCmdIdx+1 == len(flow.Cmds)))
	Requires(model.EnvIsWF() && Live(env))
	ModifiesAll()
	MayPanic()
	Ensures(model.EnvIsWF() && cc.ForestMode != nil)
	Ensures(newCurrCmdIdx >= -1)
	Ensures(len(trace(self)) == Old(len(trace(self)))+1)
	Ensures(trace(self)[len(trace(self))-1] == callRec{currCmdIdx, newCurrCmdIdx, succeeded, mask})
	Ensures(Forall(0, Old(len(trace(self))), func(i int) bool { Trig(trace(self)[i]); return trace(self)[i] == Old(trace(self))[i] }))
	return
}

// inOrder: the calls from the a-th on: the first is that of command 0, every further one that behind the
// one before, which succeeded.
//
//vc:spec
func inOrder(t []callRec, a int, masks []*model.ExecuteMask) bool {
	return Forall(a, len(t), func(j int) bool {
		Trig(t[j])
		return Implies(j == a, t[j].Idx == 0) && Implies(j > a, t[j-1].OK && t[j].Idx == t[j-1].Next+1) &&
			Implies(0 <= t[j].Idx && t[j].Idx < len(masks), t[j].Mask == masks[t[j].Idx]) && Implies(t[j].Idx >= len(masks), t[j].Mask == nil)
	})
}

//vc:contract Executor.executeFlow
func _(self *Executor, cc *model.Cli, bootstrap bool, flow *model.ParsedCmds, env *model.Env, masks []*model.ExecuteMask, input []string) (ok bool) {
	Requires(self != nil && cc != nil && cc.ForestMode != nil && flow != nil && model.EnvIsWF() && Live(env))
	ModifiesAll()
	MayPanic()
	Ensures(len(trace(self)) >= Old(len(trace(self))))
	Ensures(inOrder(trace(self), Old(len(trace(self))), masks), "each command directly behind the last, which succeeded, with its own mask")
	Ensures(Implies(len(trace(self)) > Old(len(trace(self))), ok == trace(self)[len(trace(self))-1].OK), "the flow succeeds when its last call does")
	Ensures(Implies(ok && len(trace(self)) > Old(len(trace(self))), trace(self)[len(trace(self))-1].Next+1 >= len(flow.Cmds)), "a successful flow ran to its end")
	Ensures(Implies(len(trace(self)) == Old(len(trace(self))), ok && len(flow.Cmds) == 0), "only an empty flow runs nothing")
	//vc:inv 0: flow != nil && model.EnvIsWF() && cc.ForestMode != nil && i >= 0
	//vc:inv 0: len(trace(self)) >= Old(len(trace(self))) && inOrder(trace(self), Old(len(trace(self))), masks)
	//vc:inv 0: Implies(len(trace(self)) == Old(len(trace(self))), i == 0)
	//vc:inv 0: Implies(len(trace(self)) > Old(len(trace(self))), trace(self)[len(trace(self))-1].OK && i == trace(self)[len(trace(self))-1].Next+1)
	return
}
