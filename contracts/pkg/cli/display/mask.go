//go:build go1.21

package display

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- masking of sensitive values (C20)

//vc:spec
func envGood(env *model.Env) bool { return env != nil && model.EnvIsWF() && model.EnvIsVal(*env) }

// shown: what a display may show of a value.
//
//vc:spec
func shown(env *model.Env, key string, val string) string {
	if model.IsOnWord(model.EnvGetOf(*env, "display.sensitive").Raw) {
		return val
	}
	if model.IsSensitiveName(key) && !model.IsOnWord(val) && !model.IsOffWord(val) && len(val) != 0 {
		return "***"
	}
	return val
}

// shownNothing: whatever the sensitive value is, what is shown is the same.
//
//vc:lemma
func shownNothing(env *model.Env, key string, v, w string) {
	Requires(!model.IsOnWord(model.EnvGetOf(*env, "display.sensitive").Raw) && model.IsSensitiveName(key))
	Requires(len(v) != 0 && len(w) != 0 && !model.IsOnWord(v) && !model.IsOffWord(v) && !model.IsOnWord(w) && !model.IsOffWord(w))
	Ensures(shown(env, key, v) == shown(env, key, w), "a sensitive value has no influence on what is shown")
}

//vc:contract mayMaskSensitiveVal
func _(env *model.Env, key string, val string) (r string) {
	NoAlloc()
	Requires(envGood(env))
	Ensures(r == shown(env, key, val), "masked exactly when sensitive and not asked for")
	return
}

//vc:spec
func quotedShort(s string) string {
	t := strings.TrimSpace(s)
	if len(t) == 0 || len(t) != len(s) || len(strings.Fields(s)) != 1 {
		return "'" + s + "'"
	}
	return s
}

//vc:contract mayQuoteStr
func _(origin string) (r string) {
	NoAlloc()
	Ensures(r == quotedShort(origin))
	return
}

//vc:contract KeyValueDisplayStr
func _(key string, value string, env *model.Env) (r string) {
	NoAlloc()
	Requires(envGood(env))
	Ensures(r == ColorKey(key, env)+ColorSymbol(" = ", env)+quotedShort(shown(env, key, value)), "a key is shown with its masked value")
	return
}

//vc:spec
func argLine(env *model.Env, k string, v string, color bool) string {
	if color {
		return ColorArg(k, env) + ColorSymbol(" = ", env) + quotedShort(shown(env, k, v))
	}
	return k + " = " + quotedShort(shown(env, k, v))
}

//vc:spec
//vc:dec n
func argLines(env *model.Env, names []string, argv model.ArgVals, color bool, n int) []string {
	if n <= 0 {
		return []string{}
	}
	if !Has(argv, names[n-1]) || !argv[names[n-1]].Provided {
		return argLines(env, names, argv, color, n-1)
	}
	return append(argLines(env, names, argv, color, n-1), argLine(env, names[n-1], argv[names[n-1]].Raw, color))
}

//vc:contract DumpProvidedArgs
func _(env *model.Env, args *model.Args, argv model.ArgVals, colorize bool) (output []string) {
	Requires(envGood(env) && args != nil)
	Ensures(Eq(output, argLines(env, model.ArgNames(args), argv, colorize, len(model.ArgNames(args)))), "one line with the masked value per provided arg")
	//vc:inv 0: Eq(output, argLines(env, model.ArgNames(args), argv, colorize, Iter()))
	return
}

//vc:contract KeyValueDisplayStrEx
func _(key string, value string, env *model.Env, envKeysInfo *model.EnvKeysInfo) (r string, extra int) {
	Requires(envGood(env))
	Ensures(Implies(envKeysInfo == nil || !Has(*envKeysInfo, key) || (*envKeysInfo)[key] == nil || (*envKeysInfo)[key].InvisibleDisplay == "", r == ColorKey(key, env)+ColorSymbol(" = ", env)+quotedShort(shown(env, key, value))), "a key is shown with its masked value")
	Ensures(Implies(envKeysInfo != nil && (*envKeysInfo)[key] != nil && (*envKeysInfo)[key].InvisibleDisplay != "", r == ColorKey(key, env)+ColorSymbol(" = ", env)+quotedShort(shown(env, key, (*envKeysInfo)[key].InvisibleDisplay))), "an invisible value is replaced")
	return
}

//vc:contract normalizeValForDisplay
func _(key string, val string, env *model.Env, limit int) (r string) {
	Requires(envGood(env))
	Ensures(r == mayQuoteMayTrimStr(shown(env, key, val), env, limit), "only the masked value is shown")
	return
}

// effArg: is the argument listed, and with which value.
//
//vc:spec
func effListed(env *model.Env, m *model.Arg2Env, args *model.Args, argv model.ArgVals, written FlowWrittenKeys, depth int, k string) bool {
	if Has(argv, k) && argv[k].Provided {
		return true
	}
	if len(args.DefVal(k, depth)) == 0 {
		return false
	}
	if !model.Arg2EnvHas(m, k) {
		return true
	}
	key := model.Arg2EnvKey(m, k)
	return !model.EnvHasOf(*env, key) && !written[key]
}

//vc:spec
//vc:dec n
func effLines(env *model.Env, m *model.Arg2Env, args *model.Args, argv model.ArgVals, written FlowWrittenKeys, depth int, names []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	k := names[n-1]
	if !effListed(env, m, args, argv, written, depth, k) {
		return effLines(env, m, args, argv, written, depth, names, n-1)
	}
	v := Ite(Has(argv, k) && argv[k].Provided, argv[k].Raw, args.DefVal(k, depth))
	return append(effLines(env, m, args, argv, written, depth, names, n-1), ColorArg(k, env)+" "+ColorSymbol("=", env)+" "+quotedShort(shown(env, k, v)))
}

//vc:contract DumpEffectedArgs
func _(env *model.Env, arg2env *model.Arg2Env, args *model.Args, argv model.ArgVals, writtenKeys FlowWrittenKeys, stackDepth int) (output []string) {
	Requires(envGood(env) && arg2env != nil && args != nil)
	Ensures(Eq(output, effLines(env, arg2env, args, argv, writtenKeys, stackDepth, model.ArgNames(args), len(model.ArgNames(args)))), "one line with the masked value per effective arg")
	//vc:inv 0: Eq(output, effLines(env, arg2env, args, argv, writtenKeys, stackDepth, model.ArgNames(args), Iter()))
	return
}

//vc:contract PrintTipTitle
//vc:trusted only prints
func _(screen model.Screen, env *model.Env, msgs ...interface{}) {
	NoAlloc()
}
