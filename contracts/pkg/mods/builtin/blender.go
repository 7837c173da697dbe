//go:build go1.21

package builtin

import (
	"github.com/innerr/ticat/pkg/core/model"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- the commands that add flow-altering rules (C21)

//vc:contract BlenderReplaceOnce
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 1, cc, argv["src"].Raw, model.FlowWords(argv["dest"].Raw), 1), "one rule is added that applies once")
	return
}

//vc:contract BlenderReplaceForAll
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 1, cc, argv["src"].Raw, model.FlowWords(argv["dest"].Raw), -1), "one rule is added that applies always")
	return
}

//vc:contract BlenderRemoveOnce
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 2, cc, argv["target"].Raw, []string{}, 1), "one rule is added that applies once")
	return
}

//vc:contract BlenderRemoveForAll
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 2, cc, argv["target"].Raw, []string{}, -1), "one rule is added that applies always")
	return
}

//vc:contract BlenderInsertOnce
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 3, cc, argv["target"].Raw, model.FlowWords(argv["new"].Raw), 1), "one rule is added that applies once")
	return
}

//vc:contract BlenderInsertForAll
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 3, cc, argv["target"].Raw, model.FlowWords(argv["new"].Raw), -1), "one rule is added that applies always")
	return
}

//vc:contract BlenderInsertAfterOnce
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 4, cc, argv["target"].Raw, model.FlowWords(argv["new"].Raw), 1), "one rule is added that applies once")
	return
}

//vc:contract BlenderInsertAfterForAll
func _(argv model.ArgVals, cc *model.Cli, env *model.Env, flow *model.ParsedCmds, currCmdIdx int) (r int, ok bool) {
	Requires(cc != nil && model.BlenderOK(cc.Blender) && flow != nil && 0 <= currCmdIdx && currCmdIdx < len(flow.Cmds))
	MayPanic()
	Modifies(cc.Blender)
	Ensures(ok && r == currCmdIdx && model.RuleAdded(Old(model.RulesIn(cc.Blender)), cc.Blender, 4, cc, argv["target"].Raw, model.FlowWords(argv["new"].Raw), -1), "one rule is added that applies always")
	return
}
