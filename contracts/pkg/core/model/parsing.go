//go:build go1.21

package model

import (
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- parsed settings (C22)

//vc:spec
func sameVal(a ParsedEnvVal, b ParsedEnvVal) bool {
	return a.Val == b.Val && a.IsArg == b.IsArg && a.IsSysArg == b.IsSysArg
}

//vc:spec
func settingBox(x ParsedEnvVal) any { return x }

//vc:spec
func prefixOf(prefix []string, sep string) string { return strings.Join(prefix, sep) + sep }

//vc:contract ParsedEnv.AddPrefix
func _(self ParsedEnv, prefix []string, sep string) {
	Requires(self != nil)
	Modifies(self)
	Ensures(ForallStr(func(k string) bool {
		Trig(Has(self, k))
		return Has(self, k) == (IsPrefix(k, prefixOf(prefix, sep)) && Old(Has(self, k[len(prefixOf(prefix, sep)):])))
	}), "every key gets the prefix, none is lost or added")
	Ensures(ForallStr(func(k string) bool {
		Trig(self[k])
		return Implies(Has(self, k), sameVal(self[k], Old(self[k[len(prefixOf(prefix, sep)):]])))
	}), "the values stay")
	//vc:inv 0: len(keys) == len(vals)
	//vc:inv 0: ForallStr(func(k string) bool { Trig(HasTo(keys, len(keys), k)); return HasTo(keys, len(keys), k) == (Has(self, k) && Seen(k)) })
	//vc:inv 0: Forall(0, len(keys), func(i int) bool { Trig(keys[i]); return Has(self, keys[i]) && settingBox(vals[i]) == settingBox(self[keys[i]]) })
	//vc:inv 0: MapSame(self)
	//vc:inv 1: ForallStr(func(k string) bool { Trig(Has(self, k)); return Has(self, k) == (Old(Has(self, k)) && !HasTo(keys, Iter(), k)) })
	//vc:inv 2: ForallStr(func(k string) bool { Trig(Has(self, k)); return Has(self, k) == (IsPrefix(k, prefixPath) && HasTo(keys, Iter(), k[len(prefixPath):])) })
	//vc:inv 2: ForallStr(func(k string) bool { Trig(self[k]); return Implies(Has(self, k), sameVal(self[k], Old(self[k[len(prefixOf(prefix, sep)):]]))) })
	return
}

//vc:contract ParsedEnv.Merge
func _(self ParsedEnv, x ParsedEnv) {
	Requires(self != nil && Addr(self) != Addr(x))
	NoAlloc()
	Modifies(self)
	Ensures(ForallStr(func(k string) bool { Trig(Has(self, k)); return Has(self, k) == (Old(Has(self, k)) || Has(x, k)) }), "the keys of both are set")
	Ensures(ForallStr(func(k string) bool { Trig(self[k]); return Implies(Has(x, k), settingBox(self[k]) == settingBox(x[k])) }), "later settings win")
	Ensures(ForallStr(func(k string) bool {
		Trig(self[k])
		return Implies(!Has(x, k), settingBox(self[k]) == Old(settingBox(self[k])))
	}), "other settings stay")
	//vc:inv 0: MapSame(x)
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(self, k)); return Has(self, k) == (Old(Has(self, k)) || Has(x, k) && Seen(k)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(self[k]); return settingBox(self[k]) == Ite(Has(x, k) && Seen(k), settingBox(x[k]), Old(settingBox(self[k]))) })
	return
}

//vc:contract ParsedEnv.WriteTo
func _(self ParsedEnv, env *Env, valDelAllMark string) {
	Requires(envWF() && Live(env))
	NoAlloc()
	ModifiesMaps(env.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool {
		Trig(envHas(env, k))
		return envHas(env, k) == Ite(Has(self, k), self[k].Val != valDelAllMark, Old(envHas(env, k)))
	}), "exactly the keys of the settings are set, or deleted by the mark")
	Ensures(ForallStr(func(k string) bool {
		Trig(envGet(env, k))
		return Implies(Has(self, k) && self[k].Val != valDelAllMark, envGet(env, k).Raw == self[k].Val) && Implies(!Has(self, k), envGet(env, k) == Old(envGet(env, k)))
	}), "the keys have the values of the settings, other keys keep theirs")
	//vc:inv 0: envWF()
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == Ite(Has(self, k) && Seen(k), self[k].Val != valDelAllMark, Old(envHas(env, k))) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(Has(self, k) && Seen(k) && self[k].Val != valDelAllMark, envGet(env, k).Raw == self[k].Val) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(!(Has(self, k) && Seen(k)), envGet(env, k) == Old(envGet(env, k))) })
	return
}
