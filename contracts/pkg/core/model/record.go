//go:build go1.21

package model

import (
	"strings"
	"time"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- reading a record back, however much of it was written (C24)

//vc:contract markStartStr
func _(mark string, level int) (r string) {
	NoAlloc()
	Requires(level >= 0)
	Ensures(r == strings.Repeat(StatusFileIndent, level)+"<"+mark+">")
	return
}

//vc:contract markFinishStr
func _(mark string, level int) (r string) {
	NoAlloc()
	Requires(level >= 0)
	Ensures(r == strings.Repeat(StatusFileIndent, level)+"</"+mark+">")
	return
}

// markedOneLineContent: what a writer of one line content writes.
//
//vc:contract markedOneLineContent
func _(mark string, level int, line string) (r string) {
	NoAlloc()
	Requires(level >= 0)
	Ensures(r == markStartStr(mark, level)+line+markFinishStr(mark, 0)+"\n", "the written line")
	return
}

// oneLine: the line is the content between the marks of the level.
//
//vc:spec
func oneLine(line, mark string, level int, content string) bool {
	return line == markStartStr(mark, level)+content+markFinishStr(mark, 0)
}

// isOneLine: the line has some content between the marks of the level.
//
//vc:spec
func isOneLine(line, mark string, level int) bool {
	return MatchAt(line, markStartStr(mark, level), 0) && MatchAt(line, markFinishStr(mark, 0), len(line)-len(markFinishStr(mark, 0)))
}

//vc:spec
func plainMark(mark string) bool {
	return Forall(0, len(mark), func(i int) bool { Trig(mark[i]); return mark[i] != '/' && mark[i] != ' ' })
}

// noOverlap: the marks at both ends of a line do not share a byte.
//
//vc:lemma
func noOverlap(line, mark string, level int) {
	Requires(level >= 0 && plainMark(mark))
	Ensures(Implies(isOneLine(line, mark, level), len(markStartStr(mark, level))+len(markFinishStr(mark, 0)) <= len(line)))
	a := markStartStr(mark, level)
	b := markFinishStr(mark, 0)
	p := len(line) - len(b)
	if isOneLine(line, mark, level) && p < len(a) {
		Assert(a[len(a)-1] == '>')
		Assert(line[p] == '<' && line[p+1] == '/')
		Assert(a[p] == line[p])
		Assert(Implies(p+1 < len(a), a[p+1] == line[p+1]))
		Assert(p+1 < len(a))
		Assert(p+1 < len(a)-1)
		ind := strings.Repeat(StatusFileIndent, level)
		Assert(Implies(p+1 < len(ind), ind[p+1] == a[p+1] && ind[p+1] == ' '))
		Assert(Implies(p+1 == len(ind), a[p+1] == '<'))
		Assert(Implies(p+1 > len(ind), a[p+1] == mark[p-len(ind)]))
	}
}

// nested: how many of the blocks opened in lines[:to] are still open.
//
//vc:spec
//vc:dec to
func nested(lines []string, a, b string, to int) int {
	if to <= 0 {
		return 0
	}
	if lines[to-1] == a {
		return nested(lines, a, b, to-1) + 1
	}
	if lines[to-1] == b {
		return nested(lines, a, b, to-1) - 1
	}
	return nested(lines, a, b, to-1)
}

//vc:contract parseMarkedContent
func _(path ExecutedStatusFilePath, lines []string, mark string, level int) (content []string, remain []string, ok bool) {
	NoAlloc()
	Requires(level >= 0 && plainMark(mark))
	n := len(lines) - len(remain)
	Ensures(n >= 0 && Part(remain, lines), "what remains is the end of the lines")
	Ensures(Implies(ok, n > 0))
	one := len(lines) > 0 && isOneLine(lines[0], mark, level)
	Ensures(Implies(one, ok && n == 1 && len(content) == 1 && oneLine(lines[0], mark, level, content[0])), "the content of one line")
	Ensures(Implies(!one && ok, lines[0] == markStartStr(mark, level) && lines[n-1] == markFinishStr(mark, level) && n >= 2 && Eq(content, lines[1:n-1])), "the lines between the marks")
	a := markStartStr(mark, level)
	b := markFinishStr(mark, level)
	Ensures(Implies(!one && ok, nested(lines[1:], a, b, n-2) == 0 && Forall(0, n-2, func(j int) bool { Trig(content[j]); return Implies(content[j] == b, nested(lines[1:], a, b, j) > 0) })), "up to the mark which closes the block")
	//vc:use entry: noOverlap(lines[0], mark, level)
	//vc:inv 0: depth >= 0 && depth == nested(lines, markStartStr(mark, level), markFinishStr(mark, level), Iter())
	//vc:inv 0: Forall(0, Iter(), func(j int) bool { Trig(lines[j]); return Implies(lines[j] == markFinishStr(mark, level), nested(lines, markStartStr(mark, level), markFinishStr(mark, level), j) > 0) })
	Ensures(Implies(!ok && n > 0, len(remain) == 0 && lines[0] == markStartStr(mark, level) && Eq(content, lines[1:])), "a missing finish mark takes all lines")
	Ensures(Implies(!ok && n == 0, len(content) == 0))
	Ensures(Implies(!one, Part(content, lines)))
	return
}

//vc:contract parseMarkedOneLineContent
func _(path ExecutedStatusFilePath, lines []string, mark string, level int) (content string, remain []string, ok bool) {
	NoAlloc()
	Requires(level >= 0 && plainMark(mark))
	MayPanic()
	n := len(lines) - len(remain)
	Ensures(n >= 0 && Part(remain, lines))
	Ensures(Implies(len(lines) > 0 && isOneLine(lines[0], mark, level), ok && n == 1 && oneLine(lines[0], mark, level, content)), "the content of one line")
	Ensures(Implies(ok, n > 0))
	Ensures(Implies(!ok, n == 0 || len(remain) == 0))
	Ensures(Implies(ok, oneLine(lines[0], mark, level, content) || n == 3 && lines[0] == markStartStr(mark, level) && lines[1] == content && lines[2] == markFinishStr(mark, level)))
	return
}

//vc:contract parseCmdOrFlowResult
func _(path ExecutedStatusFilePath, lines []string, mark string, level int, defVal ExecutedResult) (result ExecutedResult, remain []string, ok bool) {
	NoAlloc()
	Requires(level >= 0 && plainMark(mark))
	MayPanic()
	n := len(lines) - len(remain)
	Ensures(n >= 0 && Part(remain, lines))
	Ensures(Implies(ok, n > 0))
	Ensures(Implies(!ok, result == defVal), "no result mark: the default")
	Ensures(Implies(len(lines) > 0 && isOneLine(lines[0], mark, level), ok && n == 1))
	Ensures(Implies(ok, oneLine(lines[0], mark, level, string(result)) || n == 3 && lines[0] == markStartStr(mark, level) && lines[1] == string(result) && lines[2] == markFinishStr(mark, level)), "the result is the written one")
	Ensures(Implies(ok, hasResult(lines, len(lines), mark, level, result)), "the result is one of the lines")
	return
}

//vc:contract parseMarkedTime
func _(path ExecutedStatusFilePath, lines []string, mark string, level int) (ts time.Time, remain []string, ok bool) {
	NoAlloc()
	Requires(level >= 0 && plainMark(mark))
	MayPanic()
	n := len(lines) - len(remain)
	Ensures(n >= 0 && Part(remain, lines))
	Ensures(Implies(ok, n > 0))
	return
}

// envKey, envText: key and value of a recorded env line.
//
//vc:spec
func envKey(line string, level int) string {
	rest := line[len(strings.Repeat(StatusFileIndent, level)):]
	return rest[:strings.Index(rest, "=")]
}

//vc:spec
func envText(line string, level int) string {
	rest := line[len(strings.Repeat(StatusFileIndent, level)):]
	return rest[strings.Index(rest, "=")+1:]
}

//vc:spec
func lastOfKey(lines []string, level int, j, to int) bool {
	return Forall(j+1, to, func(l int) bool { Trig(lines[l]); return envKey(lines[l], level) != envKey(lines[j], level) })
}

//vc:contract parseEnvLines
func _(path ExecutedStatusFilePath, lines []string, level int) (env *Env) {
	Requires(level >= 0 && envWF())
	MayPanic()
	Ensures(Fresh(env) && envWF())
	Ensures(Forall(0, len(lines), func(j int) bool {
		Trig(lines[j])
		return Has(env.pairs, envKey(lines[j], level)) && Implies(lastOfKey(lines, level, j, len(lines)), env.pairs[envKey(lines[j], level)].Raw == envText(lines[j], level))
	}), "every recorded key has its value")
	//vc:inv 0: envWF() && Fresh(env) && env.parent == nil && Fresh(env.pairs)
	//vc:inv 0: Forall(0, Iter(), func(j int) bool { Trig(lines[j]); return Has(env.pairs, envKey(lines[j], level)) && Implies(lastOfKey(lines, level, j, Iter()), env.pairs[envKey(lines[j], level)].Raw == envText(lines[j], level)) })
	return
}

//vc:contract getSampleLines
func _(lines []string) (r []string) {
	NoAlloc()
	Ensures(len(r) == Ite(len(lines) < 4, len(lines), 4))
	//vc:inv 0: len(sample) == Iter() && Iter() <= 4
	return
}

//vc:contract ExecutedFlow.CalResultInCaseIncompleted
func _(self *ExecutedFlow) {
	NoAlloc()
	Requires(Live(self) && Forall(0, len(self.Cmds), func(i int) bool { Trig(self.Cmds[i]); return Live(self.Cmds[i]) }))
	Modifies(&self.Result)
	Ensures(Implies(self.Result == ExecutedResultSucceeded, Old(self.Result) == ExecutedResultSucceeded), "never turns into a success")
	Ensures(Implies(self.Result == ExecutedResultSucceeded, Forall(0, len(self.Cmds), func(i int) bool {
		Trig(self.Cmds[i])
		return self.Cmds[i].Result != ExecutedResultError && self.Cmds[i].Result != ExecutedResultIncompleted
	})), "no success with a failed or unfinished command in it")
	//vc:inv 0: self.Result == Old(self.Result) && Forall(0, Iter(), func(i int) bool { Trig(self.Cmds[i]); return self.Cmds[i].Result != ExecutedResultError && self.Cmds[i].Result != ExecutedResultIncompleted })
}

//vc:contract ExecutedCmd.CalResultInCaseIncompleted
func _(self *ExecutedCmd) {
	NoAlloc()
	f := self.SubFlow
	Requires(Live(self) && Implies(f != nil, Live(f) && Forall(0, len(f.Cmds), func(i int) bool { Trig(f.Cmds[i]); return Live(f.Cmds[i]) })))
	Modifies(&self.Result, &self.SubFlow.Result)
	Ensures(Implies(self.Result == ExecutedResultSucceeded, Old(self.Result) == ExecutedResultSucceeded || Old(self.Result) == ExecutedResultIncompleted && self.SubFlow != nil && Old(self.SubFlow.Result) == ExecutedResultSucceeded), "never turns into a success")
	Ensures(Implies(self.SubFlow == nil, self.Result == Old(self.Result)))
	Ensures(Implies(Old(self.Result) != ExecutedResultSucceeded && Old(self.Result) != ExecutedResultIncompleted, self.Result == Old(self.Result)), "a failure stays one")
	Ensures(Implies(self.SubFlow != nil && self.Result == ExecutedResultSucceeded, self.SubFlow.Result == ExecutedResultSucceeded), "no success when the flow of the command has none")
	return
}

// hasResult: one of the lines is a result mark of the level, with the result.
//
//vc:spec opaque
func hasResult(lines []string, to int, mark string, level int, r ExecutedResult) bool {
	return Exists(0, to, func(k int) bool {
		Trig(lines[k])
		return oneLine(lines[k], mark, level, string(r)) ||
			k+2 < to && lines[k] == markStartStr(mark, level) && lines[k+1] == string(r) && lines[k+2] == markFinishStr(mark, level)
	})
}

//vc:lemma auto
func hasResultOff(part, lines []string, o int, mark string, level int, r ExecutedResult) {
	Requires(PartOff(part, lines, o) && hasResult(part, len(part), mark, level, r))
	Ensures(hasResult(lines, len(lines), mark, level, r))
	Trig(PartOff(part, lines, o), hasResult(part, len(part), mark, level, r))
}

// hasResultPart: what is in a piece of the lines is in the lines.
//
//vc:lemma auto
func hasResultPart(tail, lines []string, mark string, level int, r ExecutedResult) {
	Requires(Part(tail, lines) && hasResult(tail, len(tail), mark, level, r))
	Ensures(hasResult(lines, len(lines), mark, level, r))
	Trig(Part(tail, lines), hasResult(tail, len(tail), mark, level, r))
}

// cmdMarked: the command counts as succeeded only with its result in the lines. A scheduled command has its result in
// the record of its own session.
//
//vc:spec
func cmdMarked(c *ExecutedCmd, lines []string, to int, level int) bool {
	return Live(c) && Implies(c.IsDelay, Live(c.SubFlow) && len(c.SubFlow.Cmds) == 1) &&
		Implies(c.Result == ExecutedResultSucceeded && !c.IsDelay,
			hasResult(lines, to, "cmd-result", level, ExecutedResultSucceeded) ||
				c.SubFlow != nil && c.SubFlow.Result == ExecutedResultSucceeded && hasResult(lines, to, "cmd-result", level, ExecutedResultIncompleted))
}

//vc:spec
func cmdsLive(f *ExecutedFlow) bool {
	return Live(f) && Forall(0, len(f.Cmds), func(i int) bool { Trig(f.Cmds[i]); return Live(f.Cmds[i]) })
}

//vc:contract ParseExecutedFlow
func _(path ExecutedStatusFilePath) (lastActiveTs time.Time, executed *ExecutedFlow) {
	Requires(envWF())
	MayPanic()
	Ensures(Fresh(executed) && cmdsLive(executed) && envWF())
	return
}

//vc:contract tryParseScheduledCmd
func _(cmd *ExecutedCmd, path ExecutedStatusFilePath, lines []string, level int) (remain []string, lastActiveTs time.Time, ok bool) {
	Requires(level >= 0 && Live(cmd) && envWF())
	MayPanic()
	Modifies(&cmd.IsDelay, &cmd.SubFlow, &cmd.Result)
	n := len(lines) - len(remain)
	Ensures(envWF() && n >= 0 && Part(remain, lines))
	Ensures(Implies(ok, n > 0 && cmd.IsDelay && Live(cmd.SubFlow) && len(cmd.SubFlow.Cmds) == 1 && cmd.Result == cmd.SubFlow.Result))
	Ensures(Implies(!ok, cmd.IsDelay == Old(cmd.IsDelay) && cmd.SubFlow == Old(cmd.SubFlow) && cmd.Result == Old(cmd.Result)))
	return
}

//vc:contract parseExecutedCmd
func _(path ExecutedStatusFilePath, lines []string, level int) (cmd *ExecutedCmd, remain []string, lastActiveTs time.Time, ok bool) {
	Requires(level >= 0 && envWF())
	MayPanic()
	n := len(lines) - len(remain)
	Ensures(envWF() && n >= 0 && len(remain) <= len(lines) && (len(remain) <= 1 || Part(remain, lines)))
	Ensures(Implies(ok, n > 0 && cmd != nil && Part(remain, lines)))
	Ensures(Implies(cmd != nil, Fresh(cmd) && cmdMarked(cmd, lines, len(lines), level)), "no success without its mark")
	Ensures(Implies(cmd != nil && !ok, cmd.Result == ExecutedResultIncompleted || cmd.Result == ExecutedResultError), "a command cut off is incomplete or failed")
	Ensures(Implies(len(lines) > 0 && isOneLine(lines[0], "cmd", level), cmd != nil), "a command which started is in the record")
	Ensures(Implies(cmd == nil, n == 0 || len(remain) == 0))
	return
}

//vc:contract parseExecutedCmds
func _(path ExecutedStatusFilePath, lines []string, level int) (cmds []*ExecutedCmd, hasDelayCmd bool, remain []string, lastActiveTs time.Time, ok bool) {
	Requires(level >= 0 && envWF())
	MayPanic()
	Ensures(envWF() && len(remain) <= len(lines) && (len(remain) <= 1 || Part(remain, lines)))
	Ensures(Forall(0, len(cmds), func(i int) bool { Trig(cmds[i]); return Fresh(cmds[i]) && cmdMarked(cmds[i], lines, len(lines), level) }), "no success without its mark")
	Ensures(Implies(len(lines) > 0 && isOneLine(lines[0], "cmd", level), len(cmds) > 0), "a command which started is in the record")
	//vc:dec 0: len(lines)
	//vc:inv 0: envWF() && len(lines) <= len(Old(lines)) && Part(lines, Old(lines))
	//vc:inv 0: Forall(0, len(cmds), func(i int) bool { Trig(cmds[i]); return Fresh(cmds[i]) && cmdMarked(cmds[i], Old(lines), len(Old(lines)), level) })
	//vc:inv 0: Implies(len(Old(lines)) > 0 && isOneLine(Old(lines)[0], "cmd", level), len(lines) == len(Old(lines)) || len(cmds) > 0)
	return
}

//vc:contract tryParseExecutedFlow
func _(path ExecutedStatusFilePath, lines []string, level int) (executed *ExecutedFlow, hasDelayCmd bool, remain []string, lastActiveTs time.Time, ok bool) {
	Requires(level >= 0 && envWF())
	MayPanic()
	Ensures(envWF() && len(remain) <= len(lines) && (len(remain) <= 1 || Part(remain, lines)) && Fresh(executed))
	Ensures(Forall(0, len(executed.Cmds), func(i int) bool { Trig(executed.Cmds[i]); return cmdMarked(executed.Cmds[i], lines, len(lines), level) }), "no success without its mark")
	Ensures(Implies(executed.Result == ExecutedResultSucceeded, ok && hasResult(lines, len(lines), "flow-result", level, ExecutedResultSucceeded)), "no success of the flow without its mark")
	return
}

//vc:contract parseExecutedFlow
func _(path ExecutedStatusFilePath, lines []string, level int) (executed *ExecutedFlow, remain []string, lastActiveTs time.Time, ok bool) {
	Requires(level >= 0 && envWF())
	MayPanic()
	Ensures(envWF() && len(remain) <= len(lines) && (len(remain) <= 1 || Part(remain, lines)) && Fresh(executed))
	Ensures(Forall(0, len(executed.Cmds), func(i int) bool { Trig(executed.Cmds[i]); return cmdMarked(executed.Cmds[i], lines, len(lines), level) }), "no success without its mark")
	Ensures(Implies(executed.Result == ExecutedResultSucceeded, ok && hasResult(lines, len(lines), "flow-result", level, ExecutedResultSucceeded)), "no success of the flow without its mark")
	return
}
