//go:build go1.21

package mod_meta

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	. "github.com/innerr/ticat/pkg/vstd"
)

//vc:spec
func opWord(s string) string { return strings.ToLower(strings.TrimSpace(s)) }

//vc:spec
func opMay(s string) bool {
	return strings.Index(opWord(s), "may") >= 0 || strings.Index(opWord(s), "opt") >= 0
}

//vc:spec
func opWrite(s string) bool { return strings.Index(opWord(s), "w") >= 0 }

//vc:spec
func opRead(s string) bool {
	return strings.Index(opWord(s), "rd") >= 0 || strings.Index(opWord(s), "read") >= 0 || opWord(s) == "r"
}

//vc:contract regEnvOp
func _(cmd *model.Cmd, key string, opOrigin string) {
	Requires(cmd != nil && model.CmdOpsOK(cmd))
	ModifiesAll()
	Panics(opWrite(opOrigin) && opRead(opOrigin), "an operation is a read or a write")
	Ensures(model.CmdOpsOK(cmd))
	Ensures(Implies(opWrite(opOrigin), Eq(model.CmdOps(cmd, key), append(Old(model.CmdOps(cmd, key)), Ite(opMay(opOrigin), model.EnvOpTypeMayWrite, model.EnvOpTypeWrite)))), "a write is declared")
	Ensures(Implies(opRead(opOrigin), Eq(model.CmdOps(cmd, key), append(Old(model.CmdOps(cmd, key)), Ite(opMay(opOrigin), model.EnvOpTypeMayRead, model.EnvOpTypeRead)))), "a read is declared")
	Ensures(Implies(!opWrite(opOrigin) && !opRead(opOrigin), Eq(model.CmdOps(cmd, key), Old(model.CmdOps(cmd, key)))))
	return
}
