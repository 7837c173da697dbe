//go:build go1.21

package model

import (
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- declared env writes of a command (C23)

// val2envOK: the keys in order are the keys of the table.
//
//vc:spec
func val2envOK(m *Val2Env) bool {
	return m != nil && m.pairs != nil && Distinct(m.orderedKeys, len(m.orderedKeys)) && ForallStr(func(k string) bool {
		Trig(Has(m.pairs, k))
		return Has(m.pairs, k) == HasTo(m.orderedKeys, len(m.orderedKeys), k)
	})
}

// arg2envOK: an argument writes one key, a key is written by one argument.
//
//vc:spec
func arg2envOK(m *Arg2Env) bool {
	return m != nil && m.keyNames != nil && m.nameKeys != nil && Addr(m.keyNames) != Addr(m.nameKeys) && Distinct(m.orderedKeys, len(m.orderedKeys)) && ForallStr(func(k string) bool {
		Trig(Has(m.keyNames, k))
		return Has(m.keyNames, k) == HasTo(m.orderedKeys, len(m.orderedKeys), k) && Implies(Has(m.keyNames, k), Has(m.nameKeys, m.keyNames[k]) && m.nameKeys[m.keyNames[k]] == k)
	}) && ForallStr(func(n string) bool {
		Trig(Has(m.nameKeys, n))
		return Implies(Has(m.nameKeys, n), Has(m.keyNames, m.nameKeys[n]) && m.keyNames[m.nameKeys[n]] == n)
	})
}

//vc:contract newVal2Env
func _() (r *Val2Env) {
	Ensures(Fresh(r) && val2envOK(r) && len(r.orderedKeys) == 0)
	return
}

//vc:contract newArg2Env
func _() (r *Arg2Env) {
	Ensures(Fresh(r) && arg2envOK(r) && len(r.orderedKeys) == 0)
	return
}

//vc:contract Val2Env.IsEmpty
func _(self *Val2Env) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == (len(self.orderedKeys) == 0))
	return
}

//vc:contract Val2Env.Add
func _(self *Val2Env, envKey string, val string) {
	Requires(val2envOK(self))
	Modifies(self, self.pairs)
	Panics(Has(self.pairs, envKey), "a key is declared once")
	Ensures(val2envOK(self))
	Ensures(Eq(self.orderedKeys, append(Old(self.orderedKeys), envKey)) && Addr(self.pairs) == Old(Addr(self.pairs)), "the declared order is kept")
	Ensures(self.pairs[envKey] == val)
	Ensures(ForallStr(func(k string) bool {
		Trig(self.pairs[k])
		return Implies(k != envKey, self.pairs[k] == Old(self.pairs[k]))
	}), "other declarations stay")
	return
}

//vc:contract Val2Env.EnvKeys
func _(self *Val2Env) (r []string) {
	Requires(self != nil)
	NoAlloc()
	Ensures(Eq(r, self.orderedKeys))
	return
}

//vc:contract Val2Env.Val
func _(self *Val2Env, envKey string) (r string) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == self.pairs[envKey])
	return
}

//vc:contract Val2Env.Has
func _(self *Val2Env, envKey string) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Has(self.pairs, envKey))
	return
}

//vc:contract Val2Env.RenderedVal
//vc:reveal valText valRand
func _(self *Val2Env, envKey string, argv ArgVals, env *Env, cmd *Cmd, allowError bool) (r string) {
	Requires(self != nil && tmplStrs(cmd) && envWF() && env != nil && envOK(env))
	Panics(!allowError && lineMiss(env, argv, self.pairs[envKey]), "a reference without a value is reported")
	Ensures(Implies(!Old(valRand(env, argv, self.pairs[envKey])), r == Old(valText(env, argv, self.pairs[envKey]))), "references in the value are replaced")
	Ensures(envWF())
	return
}

//vc:contract Arg2Env.Add
func _(self *Arg2Env, envKey string, argName string) {
	Requires(arg2envOK(self))
	Modifies(self, self.keyNames, self.nameKeys)
	Panics(Has(self.keyNames, envKey) || Has(self.nameKeys, argName), "a key is written by one argument, an argument writes one key")
	Ensures(arg2envOK(self))
	Ensures(Eq(self.orderedKeys, append(Old(self.orderedKeys), envKey)) && Addr(self.keyNames) == Old(Addr(self.keyNames)) && Addr(self.nameKeys) == Old(Addr(self.nameKeys)), "the declared order is kept")
	Ensures(self.keyNames[envKey] == argName && self.nameKeys[argName] == envKey)
	Ensures(ForallStr(func(k string) bool {
		Trig(self.keyNames[k])
		return Implies(k != envKey, self.keyNames[k] == Old(self.keyNames[k]))
	}), "other declarations stay")
	Ensures(ForallStr(func(n string) bool {
		Trig(Has(self.nameKeys, n))
		return Implies(n != argName, Has(self.nameKeys, n) == Old(Has(self.nameKeys, n)) && self.nameKeys[n] == Old(self.nameKeys[n]))
	}), "other declarations stay")
	return
}

//vc:contract Arg2Env.IsEmpty
func _(self *Arg2Env) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == (len(self.orderedKeys) == 0))
	return
}

//vc:contract Arg2Env.EnvKeys
func _(self *Arg2Env) (r []string) {
	Requires(self != nil)
	NoAlloc()
	Ensures(Eq(r, self.orderedKeys))
	return
}

//vc:contract Arg2Env.GetEnvKey
func _(self *Arg2Env, argName string) (key string, ok bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(ok == Has(self.nameKeys, argName) && key == self.nameKeys[argName])
	return
}

//vc:contract Arg2Env.Has
func _(self *Arg2Env, envKey string) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Has(self.keyNames, envKey), "a key mapped to an argument is reported as provided")
	return
}

//vc:contract Cmd.GetVal2Env
func _(self *Cmd) (r *Val2Env) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == self.val2env)
	return
}

//vc:contract Cmd.GetArg2Env
func _(self *Cmd) (r *Arg2Env) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == self.arg2env)
	return
}

//vc:contract Cmd.AddVal2Env
func _(self *Cmd, envKey string, val string) (r *Cmd) {
	Requires(self != nil && val2envOK(self.val2env))
	Modifies(self.val2env, self.val2env.pairs)
	Panics(Has(self.val2env.pairs, envKey), "a key is declared once")
	Ensures(r == self && val2envOK(self.val2env) && Has(self.val2env.pairs, envKey) && self.val2env.pairs[envKey] == val)
	return
}

//vc:contract Cmd.AddArg2Env
func _(self *Cmd, envKey string, argName string) (r *Cmd) {
	Requires(self != nil && arg2envOK(self.arg2env))
	Modifies(self.arg2env, self.arg2env.keyNames, self.arg2env.nameKeys)
	Panics(Has(self.arg2env.keyNames, envKey) || Has(self.arg2env.nameKeys, argName), "a key is written by one argument, an argument writes one key")
	Ensures(r == self && arg2envOK(self.arg2env) && self.arg2env.keyNames[envKey] == argName && Has(self.arg2env.keyNames, envKey))
	return
}

// valText: what a value stands for. valRand: it asks for a random number.
//
//vc:spec sealed
func valText(env *Env, argv ArgVals, val string) string {
	return strings.Join(lineText(env, argv, val), "\n")
}

//vc:spec sealed
func valRand(env *Env, argv ArgVals, val string) bool { return lineRand(env, argv, val) }

// plainVal: the fixed value holds no reference.
//
//vc:spec
func plainVal(val string) bool { return strings.Index(val, "[[") < 0 }

//vc:lemma
//vc:reveal tmplText tmplMiss tmplRand valText valRand
func plainText(env *Env, argv ArgVals, val string) {
	Ensures(Implies(plainVal(val), !valRand(env, argv, val) && valText(env, argv, val) == val))
	if plainVal(val) {
		k := strings.Index(val, "[[*")
		if k >= 0 {
			Assert(MatchAt(val, "[[*", k))
			Assert(MatchAt(val, "[[", k))
			Assert(false)
		}
		Assert(!mulIs(val))
		Assert(tText(env, argv, val) == val)
		Assert(!tRand(env, argv, val))
	}
}

//vc:contract ApplyVal2Env
func _(env *Env, cmd *Cmd, argv ArgVals) {
	Requires(tmplStrs(cmd) && val2envOK(cmd.val2env) && envWF() && Live(env))
	Modifies(env.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool {
		Trig(envHas(env, k))
		return envHas(env, k) == (Old(envHas(env, k)) || Has(cmd.val2env.pairs, k))
	}), "every declared key is written")
	Ensures(ForallStr(func(k string) bool {
		Trig(envGet(env, k))
		return Implies(Has(cmd.val2env.pairs, k) && plainVal(cmd.val2env.pairs[k]), envGet(env, k).Raw == cmd.val2env.pairs[k])
	}), "a fixed value is always written")
	Ensures(ForallStr(func(k string) bool {
		Trig(envGet(env, k))
		return Implies(!Has(cmd.val2env.pairs, k), envGet(env, k) == Old(envGet(env, k)))
	}), "no other key is written")
	//vc:inv 0: envWF()
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == (Old(envHas(env, k)) || HasTo(cmd.val2env.orderedKeys, Iter(), k)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(HasTo(cmd.val2env.orderedKeys, Iter(), k) && plainVal(cmd.val2env.pairs[k]), envGet(env, k).Raw == cmd.val2env.pairs[k]) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(!HasTo(cmd.val2env.orderedKeys, Iter(), k), envGet(env, k) == Old(envGet(env, k))) })
	//vc:use 0: plainText(env, argv, cmd.val2env.pairs[cmd.val2env.orderedKeys[Iter()]])
	return
}

// argWrites: the value of an argument is written to the key it is mapped to: a given value always,
// the default if the key has no value.
//
//vc:spec
func argWrites(env *Env, argv ArgVals, m *Arg2Env, k string) bool {
	return Has(m.keyNames, k) && Has(argv, m.keyNames[k]) && (argv[m.keyNames[k]].Provided || len(argv[m.keyNames[k]].Raw) != 0 && !envHas(env, k))
}

//vc:contract ApplyArg2Env
func _(env *Env, cmd *Cmd, argv ArgVals) {
	Requires(cmd != nil && arg2envOK(cmd.arg2env) && envWF() && Live(env))
	NoAlloc()
	Modifies(env.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool {
		Trig(envHas(env, k))
		return envHas(env, k) == (Old(envHas(env, k)) || Old(argWrites(env, argv, cmd.arg2env, k)))
	}), "a mapped key gets a value, no key loses one")
	Ensures(ForallStr(func(k string) bool {
		Trig(envGet(env, k))
		return Implies(Old(argWrites(env, argv, cmd.arg2env, k)), envGet(env, k).Raw == argv[cmd.arg2env.keyNames[k]].Raw)
	}), "a given value is written always, the default if the key has no value")
	Ensures(ForallStr(func(k string) bool {
		Trig(envGet(env, k))
		return Implies(!Old(argWrites(env, argv, cmd.arg2env, k)), envGet(env, k) == Old(envGet(env, k)))
	}), "no other key is written")
	//vc:inv 0: envWF() && MapSame(argv)
	//vc:inv 0: ForallStr(func(n string) bool { Trig(Has(cmd.arg2env.nameKeys, n)); return Implies(Has(cmd.arg2env.nameKeys, n) && !Seen(n), envHas(env, cmd.arg2env.nameKeys[n]) == Old(envHas(env, cmd.arg2env.nameKeys[n]))) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == (Old(envHas(env, k)) || Old(argWrites(env, argv, cmd.arg2env, k)) && Seen(cmd.arg2env.keyNames[k])) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(Old(argWrites(env, argv, cmd.arg2env, k)) && Seen(cmd.arg2env.keyNames[k]), envGet(env, k).Raw == argv[cmd.arg2env.keyNames[k]].Raw) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(!(Old(argWrites(env, argv, cmd.arg2env, k)) && Seen(cmd.arg2env.keyNames[k])), envGet(env, k) == Old(envGet(env, k))) })
	return
}

// segLast: the last of the first n parts of a command that sets the key, or -1.
//
//vc:spec opaque
//vc:dec n
func segLast(segs []ParsedCmdSeg, n int, k string) int {
	if n <= 0 || n > len(segs) {
		return -1
	}
	if Has(segs[n-1].Env, k) {
		return n - 1
	}
	return segLast(segs, n-1, k)
}

//vc:lemma
//vc:reveal segLast
func segStep(segs []ParsedCmdSeg, i int) {
	Ensures(ForallStr(func(k string) bool {
		Trig(segLast(segs, i+1, k))
		return Implies(0 <= i && i+1 <= len(segs), segLast(segs, i+1, k) == Ite(Has(segs[i].Env, k), i, segLast(segs, i, k)))
	}))
	Ensures(ForallStr(func(k string) bool {
		Trig(segLast(segs, 0, k))
		return segLast(segs, 0, k) == -1
	}))
}

//vc:contract ParsedCmd.GenCmdEnv
func _(self ParsedCmd, env *Env, valDelAllMark string) (r *Env) {
	Requires(envWF() && Live(env))
	ModifiesMaps(env.pairs)
	Ensures(envWF() && Fresh(r) && Live(r) && r.parent == env && r.ty == EnvLayerCmd, "the settings are in a layer of their own")
	Ensures(ForallStr(func(k string) bool {
		Trig(envHas(r, k))
		j := segLast(self.Segments, len(self.Segments), k)
		return envHas(r, k) == Ite(j >= 0, self.Segments[j].Env[k].Val != valDelAllMark, Old(envHas(env, k)))
	}), "exactly the keys of the settings of a command are set for it, or deleted by the mark")
	Ensures(ForallStr(func(k string) bool {
		Trig(envGet(r, k))
		j := segLast(self.Segments, len(self.Segments), k)
		return Implies(j >= 0 && self.Segments[j].Env[k].Val != valDelAllMark, envGet(r, k).Raw == self.Segments[j].Env[k].Val) && Implies(j < 0, envGet(r, k) == Old(envGet(env, k)))
	}), "the keys have the values written last, other keys keep theirs")
	//vc:use entry: segStep(self.Segments, 0)
	//vc:use 0: segStep(self.Segments, Iter())
	//vc:inv 0: envWF() && Fresh(env) && Live(env) && env.parent == Old(env) && env.ty == EnvLayerCmd
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == Ite(segLast(self.Segments, Iter(), k) >= 0, self.Segments[segLast(self.Segments, Iter(), k)].Env[k].Val != valDelAllMark, Old(envHas(Old(env), k))) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(segLast(self.Segments, Iter(), k) >= 0 && self.Segments[segLast(self.Segments, Iter(), k)].Env[k].Val != valDelAllMark, envGet(env, k).Raw == self.Segments[segLast(self.Segments, Iter(), k)].Env[k].Val) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return Implies(segLast(self.Segments, Iter(), k) < 0, envGet(env, k) == Old(envGet(Old(env), k))) })
	return
}
