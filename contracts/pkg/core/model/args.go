//go:build go1.21

package model

import (
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- declared arguments of a command (C06)

// argsMaps: the tables of one command are not shared with each other.
//
//vc:spec
func argsMaps(a *Args) bool {
	return a != nil && Live(a.names) && Live(a.defVals) && Live(a.abbrs) && Live(a.abbrsRevIdx) && Live(a.fromAutoMapAll) && Live(a.enums) &&
		Addr(a.defVals) != Addr(a.abbrsRevIdx)
}

// argsOrder: the list of names holds every name once, at its index.
//
//vc:spec
func argsOrder(a *Args) bool {
	return len(a.names) == len(a.orderedList) &&
		Forall(0, len(a.orderedList), func(i int) bool {
			Trig(a.orderedList[i])
			return Has(a.names, a.orderedList[i]) && a.names[a.orderedList[i]] == i
		}) &&
		ForallStr(func(n string) bool {
			Trig(Has(a.names, n))
			return Implies(Has(a.names, n), 0 <= a.names[n] && a.names[n] < len(a.orderedList) && a.orderedList[a.names[n]] == n)
		})
}

// argsCalled: a word means an argument exactly if it is one of the words the argument was declared with.
//
//vc:spec
func argsCalled(a *Args) bool {
	return ForallStr(func(s string) bool {
		Trig(Has(a.abbrsRevIdx, s))
		return Implies(Has(a.abbrsRevIdx, s), s != "" && Has(a.names, a.abbrsRevIdx[s]) && HasTo(a.abbrs[a.abbrsRevIdx[s]], len(a.abbrs[a.abbrsRevIdx[s]]), s))
	}) &&
		ForallStr(func(n string) bool {
			Trig(Has(a.names, n))
			return Implies(Has(a.names, n), len(a.abbrs[n]) > 0 && a.abbrs[n][0] == n && Forall(0, len(a.abbrs[n]), func(i int) bool {
				Trig(a.abbrs[n][i])
				return a.abbrs[n][i] == "" || Has(a.abbrsRevIdx, a.abbrs[n][i]) && a.abbrsRevIdx[a.abbrs[n][i]] == n
			}))
		})
}

//vc:spec
func argsWF(a *Args) bool { return argsMaps(a) && argsOrder(a) && argsCalled(a) }

//vc:contract newArgs
func _() (r Args) {
	Ensures(len(r.orderedList) == 0 && ForallStr(func(k string) bool { Trig(Has(r.names, k)); return !Has(r.names, k) }))
	return
}

// argWordTaken: the word means an argument already.
//
//vc:spec
func argWordTaken(a *Args, word string) bool { return word != "" && Has(a.abbrsRevIdx, word) }

// argTaken: the name or one of the abbreviations is taken already or given twice.
//
//vc:spec
func argTaken(a *Args, name string, abbrs []string) bool {
	return Has(a.names, name) || argWordTaken(a, name) ||
		Exists(0, len(abbrs), func(i int) bool {
			Trig(abbrs[i])
			return abbrs[i] != "" && (argWordTaken(a, abbrs[i]) || abbrs[i] == name || HasTo(abbrs, i, abbrs[i]))
		})
}

//vc:contract Args.AddArg
func _(self *Args, owner *CmdTree, name string, defVal string, abbrs ...string) {
	Requires(argsWF(self) && treeWF() && owner != nil)
	Modifies(&self.orderedList)
	Modifies(self.names, self.defVals, self.abbrs, self.abbrsRevIdx)
	Panics(argTaken(self, name, abbrs), "a conflicting declaration is rejected")
	MustPanic(argTaken(self, name, abbrs), "a conflicting declaration is rejected")
	OnPanic(Eq(self.orderedList, Old(self.orderedList)) && MapSame(self.names) && MapSame(self.defVals) && MapSame(self.abbrs) && MapSame(self.abbrsRevIdx), "a rejected declaration changes nothing")
	Ensures(treeWF())
	Ensures(argsWF(self), "names and abbreviations stay unambiguous")
	Ensures(Eq(self.orderedList, append(Old(self.orderedList), name)), "the new argument is the last one")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.abbrsRevIdx, s))
		return Has(self.abbrsRevIdx, s) == (Old(Has(self.abbrsRevIdx, s)) || s != "" && (s == name || HasTo(abbrs, len(abbrs), s)))
	}), "the argument is called by its name and abbreviations")
	Ensures(ForallStr(func(s string) bool {
		Trig(self.abbrsRevIdx[s])
		return self.abbrsRevIdx[s] == Ite(Old(Has(self.abbrsRevIdx, s)), Old(self.abbrsRevIdx[s]), Ite(Has(self.abbrsRevIdx, s), name, ""))
	}), "the words of other arguments keep their meaning")
	Ensures(ForallStr(func(n string) bool {
		Trig(self.defVals[n])
		return self.defVals[n] == Ite(n == name, defVal, Old(self.defVals[n]))
	}), "the default is kept")
	//vc:inv 0: treeWF()
	//vc:inv 0: len(abbrs) == len(Old(abbrs))+1
	//vc:inv 0: Iter() == 0 || !argWordTaken(self, name)
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(abbrs[i]); return abbrs[i] == "" || !argWordTaken(self, abbrs[i]) && !HasTo(abbrs, i, abbrs[i]) })
	//vc:inv 0: Forall(0, Iter()-1, func(i int) bool { Trig(Old(abbrs)[i]); return Old(abbrs)[i] == "" || Old(abbrs)[i] != name && !argWordTaken(self, Old(abbrs)[i]) && !HasTo(Old(abbrs), i, Old(abbrs)[i]) })
	//vc:inv 0: ForallStr(func(s string) bool { Trig(Has(revIdx, s)); return Has(revIdx, s) == (s != "" && HasTo(abbrs, Iter(), s)) })
	//vc:inv 0: ForallStr(func(s string) bool { Trig(revIdx[s]); return Implies(Has(revIdx, s), revIdx[s] == name) })
	//vc:inv 1: MapSame(self.defVals)
	//vc:inv 1: ForallStr(func(s string) bool { Trig(Has(revIdx, s)); return Has(revIdx, s) == (s != "" && HasTo(abbrs, len(abbrs), s)) })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(Has(self.abbrsRevIdx, s)); return Has(self.abbrsRevIdx, s) == (Old(Has(self.abbrsRevIdx, s)) || Has(revIdx, s) && Seen(s)) })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(self.abbrsRevIdx[s]); return self.abbrsRevIdx[s] == Ite(Old(Has(self.abbrsRevIdx, s)), Old(self.abbrsRevIdx[s]), Ite(Has(self.abbrsRevIdx, s), name, "")) })
	return
}

//vc:contract Args.AddAutoMapAllArg
func _(self *Args, owner *CmdTree, name string, defVal string, abbrs ...string) {
	Requires(argsWF(self) && treeWF() && owner != nil)
	Modifies(&self.orderedList)
	Modifies(self.names, self.defVals, self.abbrs, self.abbrsRevIdx, self.fromAutoMapAll)
	Panics(argTaken(self, name, abbrs), "a conflicting declaration is rejected")
	MustPanic(argTaken(self, name, abbrs), "a conflicting declaration is rejected")
	OnPanic(Eq(self.orderedList, Old(self.orderedList)) && MapSame(self.names) && MapSame(self.defVals) && MapSame(self.abbrs) && MapSame(self.abbrsRevIdx) && MapSame(self.fromAutoMapAll), "a rejected declaration changes nothing")
	Ensures(argsWF(self), "names and abbreviations stay unambiguous")
	Ensures(Eq(self.orderedList, append(Old(self.orderedList), name)), "the new argument is the last one")
	return
}

// reorderOK: the new order mentions every argument once.
//
//vc:spec
func reorderOK(a *Args, names []string) bool {
	return len(names) == len(a.orderedList) && Forall(0, len(names), func(i int) bool {
		Trig(names[i])
		return Has(a.names, names[i]) && !HasTo(names, i, names[i])
	})
}

// without: the list without its i-th element.
//
//vc:spec
func without(xs []string, i int) []string { return append(xs[:i], xs[i+1:]...) }

//vc:lemma
func withoutHas(xs []string, j int, x string) {
	Requires(0 <= j && j < len(xs) && HasTo(xs, len(xs), x) && x != xs[j])
	Ensures(HasTo(without(xs, j), len(xs)-1, x))
	Assert(Forall(0, len(xs), func(i int) bool {
		Trig(xs[i])
		return Implies(i < j, without(xs, j)[i] == xs[i]) && Implies(i > j, without(xs, j)[i-1] == xs[i])
	}))
}

//vc:lemma
func withoutAll(xs []string, j int, ys []string, n int) {
	Requires(0 <= j && j < len(xs) && 0 <= n && n <= len(ys))
	Requires(Forall(0, n, func(i int) bool { Trig(ys[i]); return HasTo(xs, len(xs), ys[i]) && ys[i] != xs[j] }))
	Ensures(Forall(0, n, func(i int) bool { Trig(ys[i]); return HasTo(without(xs, j), len(xs)-1, ys[i]) }))
	Decreases(n)
	if n > 0 {
		withoutHas(xs, j, ys[n-1])
		withoutAll(xs, j, ys, n-1)
	}
}

//vc:spec
//vc:dec n
func idxOf(xs []string, n int, x string) int {
	if n <= 0 {
		return -1
	}
	if xs[n-1] == x {
		return n - 1
	}
	return idxOf(xs, n-1, x)
}

//vc:lemma
func idxOfIs(xs []string, n int, x string) {
	Requires(0 <= n && n <= len(xs) && HasTo(xs, n, x))
	Ensures(0 <= idxOf(xs, n, x) && idxOf(xs, n, x) < n && xs[idxOf(xs, n, x)] == x)
	Decreases(n)
	if n > 0 && xs[n-1] != x {
		idxOfIs(xs, n-1, x)
	}
}

// Different texts that are all in a list are no more than the list is long.
//
//vc:lemma
func noMore(ys []string, n int, xs []string) {
	Requires(0 <= n && n <= len(ys) && Forall(0, n, func(i int) bool { Trig(ys[i]); return HasTo(xs, len(xs), ys[i]) && !HasTo(ys, i, ys[i]) }))
	Ensures(n <= len(xs))
	Decreases(n)
	if n > 0 {
		idxOfIs(xs, len(xs), ys[n-1])
		Assert(Forall(0, n-1, func(i int) bool { Trig(ys[i]); return ys[i] != ys[n-1] }))
		withoutAll(xs, idxOf(xs, len(xs), ys[n-1]), ys, n-1)
		noMore(ys, n-1, without(xs, idxOf(xs, len(xs), ys[n-1])))
	}
}

//vc:lemma
func sameNamesAt(ys []string, xs []string, x string) {
	Requires(len(ys) == len(xs) && Forall(0, len(ys), func(i int) bool { Trig(ys[i]); return HasTo(xs, len(xs), ys[i]) && !HasTo(ys, i, ys[i]) }))
	Requires(HasTo(xs, len(xs), x))
	Ensures(HasTo(ys, len(ys), x))
	idxOfIs(xs, len(xs), x)
	if !HasTo(ys, len(ys), x) {
		withoutAll(xs, idxOf(xs, len(xs), x), ys, len(ys))
		noMore(ys, len(ys), without(xs, idxOf(xs, len(xs), x)))
	}
}

// sameNames: an order of n different names of n has all of them.
//
//vc:lemma
func sameNamesN(ys []string, xs []string, n int) {
	Requires(len(ys) == len(xs) && Forall(0, len(ys), func(i int) bool { Trig(ys[i]); return HasTo(xs, len(xs), ys[i]) && !HasTo(ys, i, ys[i]) }))
	Requires(0 <= n && n <= len(xs))
	Ensures(Forall(0, n, func(i int) bool { Trig(xs[i]); return HasTo(ys, len(ys), xs[i]) }))
	Decreases(n)
	if n > 0 {
		sameNamesAt(ys, xs, xs[n-1])
		sameNamesN(ys, xs, n-1)
	}
}

//vc:lemma
func sameNames(ys []string, xs []string) {
	Ensures(Implies(len(ys) == len(xs) && Forall(0, len(ys), func(i int) bool { Trig(ys[i]); return HasTo(xs, len(xs), ys[i]) && !HasTo(ys, i, ys[i]) }),
		Forall(0, len(xs), func(i int) bool { Trig(xs[i]); return HasTo(ys, len(ys), xs[i]) })))
	if len(ys) == len(xs) && Forall(0, len(ys), func(i int) bool { Trig(ys[i]); return HasTo(xs, len(xs), ys[i]) && !HasTo(ys, i, ys[i]) }) {
		sameNamesN(ys, xs, len(xs))
	}
}

//vc:contract Args.Reorder
func _(self *Args, owner *Cmd, names []string) {
	Requires(argsWF(self) && treeWF() && owner != nil && owner.owner != nil)
	Modifies(&self.orderedList)
	Modifies(self.names)
	Panics(!reorderOK(self, names), "an order that doesn't mention every argument once is rejected")
	MustPanic(!reorderOK(self, names), "an order that doesn't mention every argument once is rejected")
	OnPanic(Eq(self.orderedList, Old(self.orderedList)) && MapSame(self.names), "a rejected order changes nothing")
	Ensures(Eq(self.orderedList, names), "the new order is the declared one")
	Ensures(argsWF(self), "names and abbreviations stay unambiguous")
	//vc:inv 0: treeWF()
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(names[i]); return Has(self.names, names[i]) && HasTo(self.orderedList, len(self.orderedList), names[i]) && !HasTo(names, i, names[i]) })
	//vc:inv 0: ForallStr(func(s string) bool { Trig(Has(idxs, s)); return Has(idxs, s) == HasTo(names, Iter(), s) })
	//vc:inv 0: ForallStr(func(s string) bool { Trig(idxs[s]); return Implies(Has(idxs, s), 0 <= idxs[s] && idxs[s] < Iter() && names[idxs[s]] == s) })
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(names[i]); return idxs[names[i]] == i })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(Has(idxs, s)); return Has(idxs, s) == HasTo(names, len(names), s) })
	//vc:inv 1: Forall(0, len(names), func(i int) bool { Trig(names[i]); return idxs[names[i]] == i })
	//vc:use exit: sameNames(names, Old(self.orderedList))
	//vc:inv 1: ForallStr(func(s string) bool { Trig(Has(self.names, s)); return Has(self.names, s) == Old(Has(self.names, s)) })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(self.names[s]); return Implies(Has(idxs, s) && Seen(s), self.names[s] == idxs[s]) })
	return
}

//vc:contract Args.Names
func _(self *Args) (r []string) {
	Requires(self != nil)
	NoAlloc()
	Ensures(Eq(r, self.orderedList))
	return
}

//vc:contract Args.Realname
func _(self *Args, nameOrAbbr string) (r string) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Ite(Has(self.abbrsRevIdx, nameOrAbbr), self.abbrsRevIdx[nameOrAbbr], ""), "a word means the argument it was declared for")
	return
}

//vc:contract Args.Has
func _(self *Args, name string) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Has(self.names, name))
	return
}

//vc:contract Args.HasArgOrAbbr
func _(self *Args, nameOrAbbr string) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Has(self.abbrsRevIdx, nameOrAbbr), "a word means an argument exactly if it was declared for one")
	return
}

//vc:contract Args.Index
func _(self *Args, name string) (r int) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Ite(Has(self.names, name), self.names[name], -1))
	return
}

//vc:spec
func argDefVal(a Args, name string, depth int) string {
	return Ite(a.fromAutoMapAll[name] && depth > 1, "", a.defVals[name])
}

//vc:contract Args.DefVal
func _(self *Args, name string, stackDepth int) (r string) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Ite(self.fromAutoMapAll[name] && stackDepth > 1, "", self.defVals[name]))
	return
}

//vc:spec
func argKey(path []string, arg string, sep string) string { return strings.Join(append(path, arg), sep) }

// argGot: the value a command gets for one argument.
//
//vc:spec
func argGot(env *Env, key string, def string) string { return Ite(envHas(env, key), envGet(env, key).Raw, def) }

//vc:contract Env.GetArgv
func _(self *Env, cmdPath []string, sep string, stackDepth int, args Args) (r ArgVals) {
	Requires(envWF() && self != nil)
	Ensures(Fresh(r) && envWF())
	Ensures(ForallStr(func(n string) bool {
		Trig(Has(r, n))
		return Has(r, n) == HasTo(args.orderedList, len(args.orderedList), n)
	}), "there is a value for every declared argument and for nothing else")
	Ensures(ForallStr(func(n string) bool {
		Trig(r[n])
		return Implies(Has(r, n), r[n].Raw == argGot(self, argKey(cmdPath, n, sep), argDefVal(args, n, stackDepth)) &&
			r[n].Provided == envHas(self, argKey(cmdPath, n, sep)) && 0 <= r[n].Index && r[n].Index < len(args.orderedList) && args.orderedList[r[n].Index] == n)
	}), "the value is the one of the argument's own env key, or the declared default")
	//vc:inv 0: envWF()
	//vc:inv 0: ForallStr(func(n string) bool { Trig(Has(argv, n)); return Has(argv, n) == HasTo(args.orderedList, Iter(), n) })
	//vc:inv 0: ForallStr(func(n string) bool { Trig(argv[n]); return Implies(Has(argv, n), argv[n].Raw == argGot(self, argKey(cmdPath, n, sep), argDefVal(args, n, stackDepth)) && argv[n].Provided == envHas(self, argKey(cmdPath, n, sep)) && 0 <= argv[n].Index && argv[n].Index < Iter() && args.orderedList[argv[n].Index] == n) })
	return
}
