//go:build go1.21

package model

import (
	"strconv"
	"strings"
	"time"

	"github.com/innerr/ticat/pkg/utils"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- switch words, numbers and durations (C19)

//vc:spec
func onWord(s string) bool {
	l := strings.ToLower(s)
	return l == "true" || l == "t" || l == "1" || l == "on" || l == "y" || l == "yes"
}

//vc:spec
func offWord(s string) bool {
	l := strings.ToLower(s)
	return l == "false" || l == "f" || l == "0" || l == "off" || l == "n" || l == "no"
}

//vc:contract StrToTrue
func _(s string) (r bool) {
	NoAlloc()
	Ensures(r == onWord(s), "exactly the words for on, in any letter case")
	return
}

//vc:contract StrToFalse
func _(s string) (r bool) {
	NoAlloc()
	Ensures(r == offWord(s), "exactly the words for off, in any letter case")
	return
}

//vc:contract StrToBool
func _(s string) (r bool) {
	NoAlloc()
	Ensures(r == onWord(s), "on exactly for the words for on")
	return
}

// onNotOff: no text means both.
//
//vc:lemma
func onNotOff(s string) {
	Ensures(!(onWord(s) && offWord(s)), "no text means both on and off")
	Ensures(onWord("true") && offWord("false"), "the texts written by SetBool are switch words")
}

//vc:contract Env.GetBool
func _(self Env, name string) (r bool) {
	NoAlloc()
	Requires(envWF() && envVal(self))
	Ensures(r == onWord(envGetV(self, name).Raw), "reading a boolean setting means the switch word of its value")
	return
}

//vc:contract Env.SetBool
func _(self Env, name string, val bool) (old bool) {
	Requires(envWF() && envVal(self))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(envHasV(self, name) && envGetV(self, name).Raw == Ite(val, "true", "false"), "a boolean setting is stored as a switch word of that meaning")
	Ensures(old == Old(onWord(envGetV(self, name).Raw)))
	return
}

//vc:contract Env.SetInt
func _(self Env, name string, val int) {
	Requires(envWF() && envVal(self))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(envHasV(self, name) && envGetV(self, name).Raw == Itoa(val), "a number is stored as its decimal text")
	return
}

//vc:contract Env.SetUint64
func _(self Env, name string, val uint64) {
	Requires(envWF() && envVal(self))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(envHasV(self, name) && envGetV(self, name).Raw == Itoa(int(val)), "a number is stored as its decimal text")
	return
}

//vc:spec
func isInt(s string) bool {
	_, err := strconv.Atoi(s)
	return err == nil
}

//vc:spec
func intOf(s string) int {
	i, _ := strconv.Atoi(s)
	return i
}

//vc:spec
func isUint(s string) bool {
	_, err := strconv.ParseUint(s, 10, 64)
	return err == nil
}

//vc:spec
func uintOf(s string) uint64 {
	i, _ := strconv.ParseUint(s, 10, 64)
	return i
}

//vc:contract Env.GetInt
func _(self Env, name string) (r int) {
	NoAlloc()
	Requires(envWF() && envVal(self))
	v := envGetV(self, name).Raw
	Panics(len(v) != 0 && !isInt(v), "a text that is no number is reported")
	Ensures(r == Ite(len(v) == 0, 0, intOf(v)), "a number setting is read as the amount it was written as")
	Ensures(ForallInt(func(i int) bool { Trig(Itoa(i)); return Implies(v == Itoa(i), r == i) }), "the number written is the number read")
	return
}

//vc:contract Env.GetUint64
func _(self Env, name string) (r uint64) {
	NoAlloc()
	Requires(envWF() && envVal(self))
	v := envGetV(self, name).Raw
	Panics(len(v) != 0 && !isUint(v), "a text that is no number is reported")
	Ensures(r == Ite(len(v) == 0, 0, uintOf(v)), "a number setting is read as the amount it was written as")
	return
}

//vc:contract Env.PlusInt
func _(self Env, name string, val int) {
	Requires(envWF() && envVal(self))
	v := envGetV(self, name).Raw
	Modifies(self.pairs)
	Panics(len(v) != 0 && !isInt(v))
	Ensures(envWF())
	Ensures(envHasV(self, name) && envGetV(self, name).Raw == Itoa(Ite(Old(envGetV(self, name).Raw) == "", 0, intOf(Old(envGetV(self, name).Raw)))+val), "adds exactly the amount")
	return
}

//vc:spec
func isDur(s string) bool {
	_, err := time.ParseDuration(s)
	return err == nil
}

//vc:spec
func durOf(s string) time.Duration {
	d, _ := time.ParseDuration(s)
	return d
}

//vc:contract Env.GetDur
func _(self Env, name string) (r time.Duration) {
	NoAlloc()
	Requires(envWF() && envVal(self))
	v := utils.DurText(envGetV(self, name).Raw)
	Panics(!envHasV(self, name) || !isDur(v), "a missing duration or a text that is none is reported")
	Ensures(r == durOf(v), "a bare number means seconds, everything else what it says")
	return
}

//vc:contract Env.SetDur
func _(self Env, name string, val string) {
	Requires(envWF() && envVal(self))
	Modifies(self.pairs)
	Panics(!isDur(utils.DurText(val)), "a text that is no duration is reported")
	Ensures(envWF())
	Ensures(envHasV(self, name) && envGetV(self, name).Raw == utils.DurText(val))
	return
}

//vc:contract ArgVals.GetRaw
func _(self ArgVals, name string) (r string) {
	NoAlloc()
	Ensures(r == self[name].Raw)
	return
}

//vc:contract ArgVals.GetRawEx
func _(self ArgVals, name string, defVal string) (r string) {
	NoAlloc()
	Ensures(r == Ite(Has(self, name), self[name].Raw, defVal))
	return
}

//vc:contract ArgVals.GetBool
func _(self ArgVals, name string) (r bool) {
	NoAlloc()
	Panics(!Has(self, name))
	Ensures(r == onWord(self[name].Raw), "a boolean arg means its switch word")
	return
}

//vc:contract ArgVals.GetBoolEx
func _(self ArgVals, name string, defVal bool) (r bool) {
	NoAlloc()
	Ensures(r == Ite(Has(self, name), onWord(self[name].Raw), defVal), "a boolean arg means its switch word")
	return
}

//vc:contract ArgVals.GetInt
func _(self ArgVals, name string) (r int) {
	NoAlloc()
	v := self[name].Raw
	Panics(!Has(self, name) || len(v) != 0 && !isInt(v), "a missing arg or a text that is no number is reported")
	Ensures(r == Ite(len(v) == 0, 0, intOf(v)), "a number arg is read as the amount it was written as")
	return
}

//vc:contract ArgVals.GetIntEx
func _(self ArgVals, name string, defVal int) (r int) {
	NoAlloc()
	v := self[name].Raw
	Panics(Has(self, name) && len(v) != 0 && !isInt(v))
	Ensures(r == Ite(!Has(self, name), defVal, Ite(len(v) == 0, 0, intOf(v))), "a number arg is read as the amount it was written as")
	return
}

//vc:contract ArgVals.GetUint64
func _(self ArgVals, name string) (r uint64) {
	NoAlloc()
	v := self[name].Raw
	Panics(!Has(self, name) || len(v) != 0 && !isUint(v), "a missing arg or a text that is no number is reported")
	Ensures(r == Ite(len(v) == 0, 0, uintOf(v)), "a number arg is read as the amount it was written as")
	return
}

//vc:contract ArgVals.GetUint64Ex
func _(self ArgVals, name string, defVal uint64) (r uint64) {
	NoAlloc()
	v := self[name].Raw
	Panics(Has(self, name) && len(v) != 0 && !isUint(v))
	Ensures(r == Ite(!Has(self, name), defVal, Ite(len(v) == 0, 0, uintOf(v))), "a number arg is read as the amount it was written as")
	return
}

// ---- sensitive keys (C20)

//vc:spec
func sensitiveName(key string) bool {
	k := strings.ToLower(key)
	return HasSub(k, "pwd") || HasSub(k, "password") || HasSub(k, "passphrase") || HasSub(k, "secret") || HasSub(k, "private")
}

//vc:contract IsSensitiveKeyVal
func _(key string, val string) (r bool) {
	NoAlloc()
	Ensures(r == (sensitiveName(key) && !onWord(val) && !offWord(val)), "sensitive exactly when the name contains a sensitive word and the value is no switch word")
	//vc:inv 0: !Exists(0, Iter(), func(i int) bool { return HasSub(key, sensitives[i]) && !onWord(val) && !offWord(val) })
	return
}

// names for the contracts of other packages

//vc:spec
func EnvIsWF() bool { return envWF() }

//vc:spec
func EnvIsVal(e Env) bool { return envVal(e) }

//vc:spec
func EnvGetOf(e Env, k string) EnvVal { return envGetV(e, k) }

//vc:spec
func IsOnWord(s string) bool { return onWord(s) }

//vc:spec
func IsOffWord(s string) bool { return offWord(s) }

//vc:spec
func IsSensitiveName(s string) bool { return sensitiveName(s) }

//vc:spec
func EnvHasOf(e Env, k string) bool { return envHasV(e, k) }

//vc:spec
func Arg2EnvHas(m *Arg2Env, arg string) bool { return Has(m.nameKeys, arg) }

//vc:spec
func Arg2EnvKey(m *Arg2Env, arg string) string { return m.nameKeys[arg] }

//vc:spec
func ArgNames(a *Args) []string { return a.orderedList }

// ---- what the parsing of settings depends on (C22)

//vc:spec
func CmdHas(cmd *CmdTree) bool { return cmd != nil && cmd.cmd != nil }

//vc:spec
func CmdArgNames(cmd *CmdTree) []string { return cmd.cmd.args.orderedList }

//vc:spec
func CmdArgReal(cmd *CmdTree, word string) string {
	return Ite(Has(cmd.cmd.args.abbrsRevIdx, word), cmd.cmd.args.abbrsRevIdx[word], "")
}

//vc:spec
func AbbrsOK() bool { return abbrWF() && keysWF() }

//vc:spec
func EnvKeyMatch(t *EnvAbbrs, path string, sep string) []string { return keyMatch(t, path, sep) }

//vc:spec
func EnvKeyKnown(t *EnvAbbrs, path string, sep string) bool { return keyKnown(t, path, sep) }

// SysArgVal: a delay without unit is in seconds.
//
//vc:spec
func SysArgVal(raw string, value string) string {
	return Ite(raw == "delay" && IsFloatText(value), value+"s", value)
}

//vc:spec
func IsFloatText(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

// SysArgOK: the name is a system argument that may have the value.
//
//vc:spec
func SysArgOK(raw string, value string) bool {
	return raw == SysArgNameDelay || raw == SysArgNameDelayEnvApplyPolicy && value == SysArgValueDelayEnvApplyPolicyApply || raw == SysArgNameError && value == SysArgValueOK
}

//vc:contract SysArgRealnameAndNormalizedValue
func _(name string, sysArgPrefix string, value string) (realname string, normalizedValue string) {
	Panics(IsPrefix(name, sysArgPrefix) && !SysArgOK(name[len(sysArgPrefix):], value), "only system arguments may have the prefix")
	MustPanic(IsPrefix(name, sysArgPrefix) && !SysArgOK(name[len(sysArgPrefix):], value), "only system arguments may have the prefix")
	NoAlloc()
	Ensures(realname == Ite(IsPrefix(name, sysArgPrefix), name, ""), "exactly the names with the prefix are system arguments")
	Ensures(Implies(IsPrefix(name, sysArgPrefix), normalizedValue == SysArgVal(name[len(sysArgPrefix):], value)), "their values are kept, a delay without unit is in seconds")
	return
}

//vc:spec
func TreeOK() bool { return treeWF() && subsWF() }

//vc:spec
func TreeFind(t *CmdTree, path []string) *CmdTree { return treeFind(t, path) }

//vc:lemma
func TreeFindStep(t *CmdTree, path []string, word string) {
	Requires(t != nil && treeFind(t, path) != nil)
	Ensures(treeFind(t, append(path, word)) == treeFind(treeFind(t, path), []string{word}))
	Ensures(treeFind(t, []string{}) == t)
	findStep(t, path, word)
	Assert(treeFind(treeFind(t, path), []string{word}) == subOf(treeFind(t, path), word))
}
