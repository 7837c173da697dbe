//go:build go1.21

package parser

import (
	"github.com/innerr/ticat/pkg/core/model"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- parsing a command (C22)

//vc:spec
func segOK(s parsedSeg) bool {
	return Implies(s.Type == parsedSegTypeEnv, TypeIs(s.Val, model.ParsedEnv{}) && Unbox(s.Val, model.ParsedEnv{}) != nil) &&
		Implies(s.Type == parsedSegTypeCmd, TypeIs(s.Val, model.MatchedCmd{}) && Unbox(s.Val, model.MatchedCmd{}).Cmd != nil)
}

// badStart: the words start with a block that is not closed or holds something else than settings.
//
//vc:spec
func badStart(p *EnvParser, cmds *model.CmdTree, words []string) bool {
	return len(words) > 0 && IsPrefix(words[0], p.brackets.Left) && words[0][0] != '^' && !blockIn(p, cmds, words)
}

//vc:contract CmdParser.parse
func _(self *CmdParser, cmds *model.CmdTree, envAbbrs *model.EnvAbbrs, input []string) (parsed []parsedSeg, trivialLvl int, err error, isMinorErr bool) {
	Requires(self != nil && envParserOK(self.envParser) && model.AbbrsOK() && model.TreeOK() && cmds != nil && IsASCII(self.cmdAlterSeps))
	MayPanic()
	Ensures(model.AbbrsOK() && model.TreeOK())
	Ensures(Forall(0, len(parsed), func(i int) bool { Trig(parsed[i]); return segOK(parsed[i]) }))
	Ensures(Implies(badStart(self.envParser, cmds, input), err != nil), "a block at the start that is not closed or holds something else is reported")
	//vc:inv 0: model.AbbrsOK() && model.TreeOK()
	//vc:inv 0: Forall(0, len(parsed), func(i int) bool { Trig(parsed[i]); return segOK(parsed[i]) })
	//vc:inv 0: curr != nil && envParserOK(self.envParser)
	//vc:inv 0: Implies(badStart(self.envParser, cmds, Old(input)), Eq(input, Old(input)) && curr == cmds && allowSub)
	//vc:inv 1: Implies(badStart(self.envParser, cmds, Old(input)), Eq(input, Old(input)))
	return
}
