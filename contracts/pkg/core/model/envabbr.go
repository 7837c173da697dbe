//go:build go1.21

package model

import (
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- the tree of env keys (C09)

// abbrWF: every node has its own tables, and a node is younger than its parent.
//
//vc:spec
func abbrWF() bool {
	return All(func(t *EnvAbbrs) bool {
		Trig(t.parent)
		return Implies(Live(t), t.parent == nil || Live(t.parent) && Addr(t.parent) < Addr(t))
	}) && All(func(t *EnvAbbrs) bool {
		Trig(t.subs)
		return Implies(Live(t), Live(t.subs))
	}) && All(func(t *EnvAbbrs) bool {
		Trig(t.subAbbrs)
		return Implies(Live(t), Live(t.subAbbrs))
	}) && All(func(t *EnvAbbrs) bool {
		Trig(t.subAbbrsRevIdx)
		return Implies(Live(t), Live(t.subAbbrsRevIdx))
	}) && All(func(t, u *EnvAbbrs) bool {
		Trig(t.subs, u.subs)
		return Implies(Live(t) && Live(u) && Addr(t.subs) == Addr(u.subs), t == u)
	}) && All(func(t, u *EnvAbbrs) bool {
		Trig(t.subAbbrs, u.subAbbrs)
		return Implies(Live(t) && Live(u) && Addr(t.subAbbrs) == Addr(u.subAbbrs), t == u)
	}) && All(func(t, u *EnvAbbrs) bool {
		Trig(t.subAbbrsRevIdx, u.subAbbrsRevIdx)
		return Implies(Live(t) && Live(u) && Addr(t.subAbbrsRevIdx) == Addr(u.subAbbrsRevIdx), t == u)
	})
}

// keysWF: in every node, a word means one child at most, and every child is called by its name.
//
//vc:spec
func keysWF() bool { return keysWFBut(nil, "") }

// keysWFBut: the same, but the child of x with this name may not be there yet.
//
//vc:spec
func keysWFBut(x *EnvAbbrs, name string) bool {
	return All(func(t *EnvAbbrs, s string) bool {
		Trig(Has(t.subAbbrsRevIdx, s))
		return Implies(Live(t) && Has(t.subAbbrsRevIdx, s), Has(t.subs, t.subAbbrsRevIdx[s]) || t == x && t.subAbbrsRevIdx[s] == name)
	}) && All(func(t *EnvAbbrs) bool {
		Trig(t.subAbbrsRevIdx)
		return Implies(Live(t) && Has(t.subAbbrsRevIdx, ""), t.subAbbrsRevIdx[""] == "")
	}) && All(func(t *EnvAbbrs, n string) bool {
		Trig(Has(t.subs, n))
		return Implies(Live(t) && Has(t.subs, n), Has(t.subAbbrsRevIdx, n) && t.subAbbrsRevIdx[n] == n)
	}) && All(func(t *EnvAbbrs, n string) bool {
		Trig(t.subs[n])
		return Implies(Live(t) && Has(t.subs, n), Live(t.subs[n]) && t.subs[n].parent == t && t.subs[n].name == n)
	}) && All(func(t *EnvAbbrs) bool {
		Trig(t.parent)
		return Implies(Live(t) && t.parent != nil, Has(t.parent.subs, t.name) && t.parent.subs[t.name] == t)
	})
}

// keyOf: the child a word means.
//
//vc:spec
func keyOf(t *EnvAbbrs, word string) *EnvAbbrs {
	if Has(t.subAbbrsRevIdx, word) {
		return t.subs[t.subAbbrsRevIdx[word]]
	}
	return nil
}

// keyPath: the names on the way from the root.
//
//vc:spec
//vc:dec Addr(t)
func keyPath(t *EnvAbbrs) []string {
	if t == nil || t.parent == nil || !(0 < Addr(t.parent) && Addr(t.parent) < Addr(t)) {
		return []string{}
	}
	return append(keyPath(t.parent), t.name)
}

//vc:contract EnvAbbrs.Path
func _(self *EnvAbbrs) (r []string) {
	Requires(abbrWF() && self != nil)
	NoAlloc()
	Ensures(Eq(r, keyPath(self)))
	return
}

//vc:contract EnvAbbrs.DisplayPath
func _(self *EnvAbbrs) (r string) {
	Requires(abbrWF() && self != nil)
	NoAlloc()
	return
}

//vc:contract NewEnvAbbrs
func _(rootDisplayName string) (r *EnvAbbrs) {
	Requires(abbrWF())
	Ensures(abbrWF(), "a new tree has its own tables")
	Ensures(All(func(t *EnvAbbrs) bool {
		Trig(t.subs)
		return Implies(Live(t), t == r || Old(Live(t)))
	}))
	Ensures(All(func(t *EnvAbbrs) bool {
		Trig(t.parent)
		return Implies(Live(t), t == r || Old(Live(t)))
	}))
	Ensures(Fresh(r) && r.rootDisplayName == rootDisplayName && r.parent == nil && r.name == "" && len(r.subOrderedNames) == 0)
	Ensures(Fresh(r.subs) && Fresh(r.subAbbrs) && Fresh(r.subAbbrsRevIdx))
	Ensures(ForallStr(func(k string) bool { Trig(Has(r.subs, k)); return !Has(r.subs, k) }))
	Ensures(ForallStr(func(k string) bool { Trig(Has(r.subAbbrs, k)); return !Has(r.subAbbrs, k) }))
	Ensures(ForallStr(func(k string) bool { Trig(Has(r.subAbbrsRevIdx, k)); return !Has(r.subAbbrsRevIdx, k) }))
	return
}

// keyTaken: the word means another child.
//
//vc:spec
func keyTaken(t *EnvAbbrs, name string, word string) bool {
	return word != "" && Has(t.subAbbrsRevIdx, word) && t.subAbbrsRevIdx[word] != name
}

// keyWordTaken: the name or one of the abbreviations means another child.
//
//vc:spec
func keyWordTaken(t *EnvAbbrs, name string, abbrs []string) bool {
	return keyTaken(t, name, name) || Exists(0, len(abbrs), func(i int) bool { Trig(abbrs[i]); return keyTaken(t, name, abbrs[i]) })
}

//vc:contract EnvAbbrs.AddSubAbbrs
func _(self *EnvAbbrs, name string, abbrs ...string) {
	Requires(abbrWF() && keysWF() && self != nil)
	Modifies(self.subAbbrsRevIdx, self.subAbbrs)
	Panics(keyWordTaken(self, name, abbrs), "a word that means another child is rejected")
	MustPanic(keyWordTaken(self, name, abbrs), "a word that means another child is rejected")
	OnPanic(MapSame(self.subAbbrsRevIdx) && MapSame(self.subAbbrs), "a rejected word changes nothing")
	Ensures(abbrWF() && keysWFBut(self, name))
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Has(self.subAbbrsRevIdx, s) == (Old(Has(self.subAbbrsRevIdx, s)) || s != "" && (s == name || HasTo(abbrs, len(abbrs), s)))
	}), "the child is called by its name and abbreviations")
	Ensures(ForallStr(func(s string) bool {
		Trig(self.subAbbrsRevIdx[s])
		return self.subAbbrsRevIdx[s] == Ite(Old(Has(self.subAbbrsRevIdx, s)), Old(self.subAbbrsRevIdx[s]), Ite(Has(self.subAbbrsRevIdx, s), name, ""))
	}), "the words of other children keep their meaning")
	//vc:inv 0: abbrWF()
	//vc:inv 0: keysWF()
	//vc:inv 1: abbrWF()
	//vc:inv 1: keysWFBut(self, name)
	//vc:inv 0: len(abbrs) == len(Old(abbrs))+1
	//vc:inv 0: Iter() == 0 || !keyTaken(self, name, name)
	//vc:inv 0: Forall(0, Iter()-1, func(i int) bool { Trig(Old(abbrs)[i]); return abbrs[i+1] == Old(abbrs)[i] && !keyTaken(self, name, Old(abbrs)[i]) })
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(abbrs[i]); return abbrs[i] == "" || !Has(self.subAbbrsRevIdx, abbrs[i]) || self.subAbbrsRevIdx[abbrs[i]] == name })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(Has(self.subAbbrsRevIdx, s)); return Has(self.subAbbrsRevIdx, s) == (AtLoop(Has(self.subAbbrsRevIdx, s)) || s != "" && HasTo(abbrs, Iter(), s)) })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(self.subAbbrsRevIdx[s]); return self.subAbbrsRevIdx[s] == Ite(AtLoop(Has(self.subAbbrsRevIdx, s)), AtLoop(self.subAbbrsRevIdx[s]), Ite(Has(self.subAbbrsRevIdx, s), name, "")) })
	return
}

//vc:contract EnvAbbrs.AddSub
func _(self *EnvAbbrs, name string, abbrs ...string) (r *EnvAbbrs) {
	Requires(abbrWF() && keysWF() && self != nil)
	Modifies(self.subs, self.subAbbrsRevIdx, self.subAbbrs, &self.subOrderedNames)
	Panics(Has(self.subs, name) || keyWordTaken(self, name, abbrs), "a name that is there already, or means another child, is rejected")
	MustPanic(Has(self.subs, name) || keyWordTaken(self, name, abbrs), "a name that is there already, or means another child, is rejected")
	OnPanic(MapSame(self.subs) && MapSame(self.subAbbrsRevIdx) && MapSame(self.subAbbrs) && Eq(self.subOrderedNames, Old(self.subOrderedNames)), "a rejected name changes nothing")
	Ensures(abbrWF() && keysWF(), "every word means one child at most")
	Ensures(Fresh(r) && r.parent == self && r.name == name)
	Ensures(self.subs[name] == r)
	Ensures(Eq(self.subOrderedNames, append(Old(self.subOrderedNames), name)))
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subs, s))
		return Has(self.subs, s) == (s == name || Old(Has(self.subs, s)))
	}))
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(Old(Has(self.subAbbrsRevIdx, s)), Has(self.subAbbrsRevIdx, s) && self.subAbbrsRevIdx[s] == Old(self.subAbbrsRevIdx[s]))
	}), "the words of other children keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(Old(Has(self.subAbbrsRevIdx, s)), Old(self.subAbbrsRevIdx[s]) != name)
	}), "the words of other children keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(Old(Has(self.subAbbrsRevIdx, s)), keyOf(self, s) == Old(keyOf(self, s)))
	}), "the words of other children keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Has(self.subAbbrsRevIdx, s) == (Old(Has(self.subAbbrsRevIdx, s)) || s == name || s != "" && HasTo(abbrs, len(abbrs), s))
	}), "the new child is called by its name and abbreviations and by nothing else")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(!Old(Has(self.subAbbrsRevIdx, s)) && Has(self.subAbbrsRevIdx, s), keyOf(self, s) == r)
	}))
	return
}

//vc:contract EnvAbbrs.AddAbbrs
func _(self *EnvAbbrs, abbrs ...string) (r *EnvAbbrs) {
	Requires(abbrWF() && keysWF() && self != nil)
	Modifies(self.parent.subAbbrsRevIdx, self.parent.subAbbrs)
	Panics(self.parent == nil || keyWordTaken(self.parent, self.name, abbrs), "a word that means another key is rejected")
	MustPanic(self.parent == nil || keyWordTaken(self.parent, self.name, abbrs), "a word that means another key is rejected")
	OnPanic(MapSame(self.parent.subAbbrsRevIdx) && MapSame(self.parent.subAbbrs), "a rejected word changes nothing")
	Ensures(r == self)
	Ensures(abbrWF() && keysWF() && keysKept(), "the words of other keys keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.parent.subAbbrsRevIdx, s))
		return Has(self.parent.subAbbrsRevIdx, s) == (Old(Has(self.parent.subAbbrsRevIdx, s)) || s != "" && HasTo(abbrs, len(abbrs), s))
	}), "the key is called by its new abbreviations and by nothing else")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.parent.subAbbrsRevIdx, s))
		return Implies(s != "" && HasTo(abbrs, len(abbrs), s), keyOf(self.parent, s) == self)
	}), "an abbreviation means the key it is declared for")
	return
}

//vc:contract EnvAbbrs.GetSub
func _(self *EnvAbbrs, name string) (r *EnvAbbrs) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Ite(Has(self.subs, name), self.subs[name], nil))
	return
}

//vc:contract EnvAbbrs.Realname
func _(self *EnvAbbrs, nameOrAbbr string) (r string) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == Ite(Has(self.subAbbrsRevIdx, nameOrAbbr), self.subAbbrsRevIdx[nameOrAbbr], ""))
	return
}

//vc:contract EnvAbbrs.GetOrAddSub
func _(self *EnvAbbrs, name string) (r *EnvAbbrs) {
	Requires(abbrWF() && keysWF() && self != nil)
	Modifies(self.subs, self.subAbbrsRevIdx, self.subAbbrs, &self.subOrderedNames)
	Panics(keyTaken(self, name, name), "a name that means another key is rejected")
	MustPanic(keyTaken(self, name, name), "a name that means another key is rejected")
	OnPanic(MapSame(self.subs) && MapSame(self.subAbbrsRevIdx) && MapSame(self.subAbbrs), "a rejected name changes nothing")
	ReadOnly(Has(self.subs, name), "a key that is there is not changed")
	Ensures(abbrWF() && keysWF() && keysKept(), "the words of other keys keep their meaning")
	Ensures(r != nil && Live(r) && r.parent == self && r.name == name && self.subs[name] == r && Has(self.subs, name))
	return
}

// ---- resolving a key path

// keyMatch: the full names of the segments, as far as they are known.
//
//vc:spec opaque
//vc:dec len(path)
func keyMatch(t *EnvAbbrs, path string, sep string) []string {
	i := strings.Index(path, sep)
	if path == "" {
		return []string{}
	}
	if i == 0 {
		return keyMatch(t, path[1:], sep)
	}
	if i < 0 {
		return Ite(Has(t.subAbbrsRevIdx, path), []string{t.subAbbrsRevIdx[path]}, []string{})
	}
	if i >= len(path) || !Has(t.subAbbrsRevIdx, path[:i]) {
		return []string{}
	}
	return append([]string{t.subAbbrsRevIdx[path[:i]]}, keyMatch(keyOf(t, path[:i]), path[i+1:], sep)...)
}

// keyKnown: every segment is known.
//
//vc:spec opaque
//vc:dec len(path)
func keyKnown(t *EnvAbbrs, path string, sep string) bool {
	i := strings.Index(path, sep)
	if path == "" {
		return true
	}
	if i == 0 {
		return keyKnown(t, path[1:], sep)
	}
	if i < 0 {
		return Has(t.subAbbrsRevIdx, path)
	}
	return i < len(path) && Has(t.subAbbrsRevIdx, path[:i]) && keyKnown(keyOf(t, path[:i]), path[i+1:], sep)
}

//vc:contract EnvAbbrs.TryMatch
//vc:reveal keyMatch keyKnown
func _(self *EnvAbbrs, path string, sep string) (r []string, matched bool) {
	Requires(abbrWF() && keysWF() && self != nil && len(sep) == 1)
	Decreases(len(path))
	NoAlloc()
	Ensures(Eq(r, keyMatch(self, path, sep)), "the matched part is the full names of the segments")
	Ensures(matched == keyKnown(self, path, sep), "it is matched exactly if every segment is known")
	//vc:inv 0: abbrWF()
	//vc:inv 0: Eq(keyMatch(self, path, sep), keyMatch(self, Old(path), sep))
	//vc:inv 0: keyKnown(self, path, sep) == keyKnown(self, Old(path), sep)
	//vc:inv 0: len(path) <= len(Old(path)) && len(matchedPath) == 0
	//vc:dec 0: len(path)
	return
}

// segsMatch: the full names of the segments.
//
//vc:spec
//vc:dec len(segs)
func segsMatch(t *EnvAbbrs, segs []string) []string {
	if len(segs) == 0 || !Has(t.subAbbrsRevIdx, segs[0]) {
		return []string{}
	}
	return append([]string{t.subAbbrsRevIdx[segs[0]]}, segsMatch(keyOf(t, segs[0]), segs[1:])...)
}

//vc:spec
//vc:dec len(segs)
func segsKnown(t *EnvAbbrs, segs []string) bool {
	return len(segs) == 0 || Has(t.subAbbrsRevIdx, segs[0]) && segsKnown(keyOf(t, segs[0]), segs[1:])
}

// A full key path and the same path with abbreviations mean the same.
//
//vc:lemma
func fullIsSame(t *EnvAbbrs, segs []string) {
	Requires(abbrWF() && keysWF() && Live(t) && segsKnown(t, segs))
	Ensures(len(segsMatch(t, segs)) == len(segs))
	Ensures(segsKnown(t, segsMatch(t, segs)))
	Ensures(Eq(segsMatch(t, segsMatch(t, segs)), segsMatch(t, segs)))
	Decreases(len(segs))
	if len(segs) > 0 {
		fullIsSame(keyOf(t, segs[0]), segs[1:])
		Assert(segsMatch(t, segs)[0] == t.subAbbrsRevIdx[segs[0]])
		Assert(Eq(segsMatch(t, segs)[1:], segsMatch(keyOf(t, segs[0]), segs[1:])))
		Assert(Has(t.subs, t.subAbbrsRevIdx[segs[0]]))
		Assert(keyOf(t, segsMatch(t, segs)[0]) == keyOf(t, segs[0]))
	}
}

// keyText: a key path written out.
//
//vc:spec
//vc:dec len(segs)
func keyText(segs []string, sep string) string {
	if len(segs) == 0 {
		return ""
	}
	if len(segs) == 1 {
		return segs[0]
	}
	return segs[0] + sep + keyText(segs[1:], sep)
}

//vc:lemma
func keyTextFirst(a string, b string, sep string) {
	Requires(len(sep) == 1 && NoByte(a, sep[0]))
	Ensures(strings.Index(a+sep+b, sep) == len(a))
	Ensures(strings.Index(a, sep) < 0)
	Assert(MatchAt(a+sep+b, sep, len(a)))
	Assert(Forall(0, len(a), func(i int) bool { Trig(a[i]); return (a + sep + b)[i] == a[i] }))
	Assert(Implies(strings.Index(a+sep+b, sep) < len(a), a[strings.Index(a+sep+b, sep)] == sep[0]))
	Assert(Implies(strings.Index(a, sep) >= 0, a[strings.Index(a, sep)] == sep[0]))
}

// A written key path means what its segments mean.
//
//vc:lemma
//vc:reveal keyMatch keyKnown
func keyTextMeans(t *EnvAbbrs, segs []string, sep string) {
	Requires(abbrWF() && keysWF() && Live(t) && len(sep) == 1)
	Requires(Forall(0, len(segs), func(i int) bool { Trig(segs[i]); return segs[i] != "" && NoByte(segs[i], sep[0]) }))
	Ensures(Eq(keyMatch(t, keyText(segs, sep), sep), segsMatch(t, segs)))
	Ensures(keyKnown(t, keyText(segs, sep), sep) == segsKnown(t, segs))
	Decreases(len(segs))
	if len(segs) > 0 {
		keyTextFirst(segs[0], keyText(segs[1:], sep), sep)
		Assert(segs[0] != "")
		if len(segs) > 1 {
			Assert(Eq((segs[0] + sep + keyText(segs[1:], sep))[:len(segs[0])], segs[0]))
			Assert(Eq((segs[0] + sep + keyText(segs[1:], sep))[len(segs[0])+1:], keyText(segs[1:], sep)))
		}
		if Has(t.subAbbrsRevIdx, segs[0]) {
			keyTextMeans(keyOf(t, segs[0]), segs[1:], sep)
		}
	}
}

// keysKept: no word of a node that was there means another key now.
//
//vc:spec
func keysKept() bool {
	return All(func(t *EnvAbbrs, s string) bool {
		Trig(Has(t.subAbbrsRevIdx, s))
		return Implies(Old(Live(t)) && Old(Has(t.subAbbrsRevIdx, s)), Has(t.subAbbrsRevIdx, s) && t.subAbbrsRevIdx[s] == Old(t.subAbbrsRevIdx[s]))
	}) && All(func(t *EnvAbbrs, n string) bool {
		Trig(Has(t.subs, n))
		return Implies(Old(Live(t)) && Old(Has(t.subs, n)), Has(t.subs, n) && t.subs[n] == Old(t.subs[n]))
	})
}
