//go:build go1.21

package model

import (
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- the tree of commands (C08)

// treeWF: every node has its own tables, and a node is younger than its parent.
//
//vc:spec
func treeWF() bool {
	return All(func(t *CmdTree) bool {
		Trig(t.parent)
		return Implies(Live(t), t.parent == nil || Live(t.parent) && Addr(t.parent) < Addr(t))
	}) && All(func(t *CmdTree) bool {
		Trig(t.Strs)
		return Implies(Live(t), Live(t.Strs))
	}) && All(func(t *CmdTree) bool {
		Trig(t.subs)
		return Implies(Live(t), Live(t.subs))
	}) && All(func(t *CmdTree) bool {
		Trig(t.subAbbrs)
		return Implies(Live(t), Live(t.subAbbrs))
	}) && All(func(t *CmdTree) bool {
		Trig(t.subAbbrsRevIdx)
		return Implies(Live(t), Live(t.subAbbrsRevIdx))
	}) && All(func(t, u *CmdTree) bool {
		Trig(t.subs, u.subs)
		return Implies(Live(t) && Live(u) && Addr(t.subs) == Addr(u.subs), t == u)
	}) && All(func(t, u *CmdTree) bool {
		Trig(t.subAbbrs, u.subAbbrs)
		return Implies(Live(t) && Live(u) && Addr(t.subAbbrs) == Addr(u.subAbbrs), t == u)
	}) && All(func(t, u *CmdTree) bool {
		Trig(t.subAbbrsRevIdx, u.subAbbrsRevIdx)
		return Implies(Live(t) && Live(u) && Addr(t.subAbbrsRevIdx) == Addr(u.subAbbrsRevIdx), t == u)
	})
}

// subsWF: in every node, a word means one child at most, and every child is called by its name.
//
//vc:spec
func subsWF() bool { return subsWFBut(nil, "") }

// subsWFBut: the same, but the child of x with this name may not be there yet.
//
//vc:spec
func subsWFBut(x *CmdTree, name string) bool {
	return All(func(t *CmdTree, s string) bool {
		Trig(Has(t.subAbbrsRevIdx, s))
		return Implies(Live(t) && Has(t.subAbbrsRevIdx, s), Has(t.subs, t.subAbbrsRevIdx[s]) || t == x && t.subAbbrsRevIdx[s] == name)
	}) && All(func(t *CmdTree) bool {
		Trig(t.subAbbrsRevIdx)
		return Implies(Live(t) && Has(t.subAbbrsRevIdx, ""), t.subAbbrsRevIdx[""] == "")
	}) && All(func(t *CmdTree, n string) bool {
		Trig(Has(t.subs, n))
		return Implies(Live(t) && Has(t.subs, n), Has(t.subAbbrsRevIdx, n) && t.subAbbrsRevIdx[n] == n)
	}) && All(func(t *CmdTree, n string) bool {
		Trig(t.subs[n])
		return Implies(Live(t) && Has(t.subs, n), Live(t.subs[n]) && t.subs[n].parent == t && t.subs[n].name == n)
	}) && All(func(t *CmdTree) bool {
		Trig(t.parent)
		return Implies(Live(t) && t.parent != nil, Has(t.parent.subs, t.name) && t.parent.subs[t.name] == t)
	})
}

// subOf: the child a word means.
//
//vc:spec
func subOf(t *CmdTree, word string) *CmdTree {
	if Has(t.subAbbrsRevIdx, word) {
		return t.subs[t.subAbbrsRevIdx[word]]
	}
	return nil
}

// treeFind: the node the words lead to.
//
//vc:spec
//vc:dec len(path)
func treeFind(t *CmdTree, path []string) *CmdTree {
	if len(path) == 0 {
		return t
	}
	if subOf(t, path[0]) == nil {
		return nil
	}
	return treeFind(subOf(t, path[0]), path[1:])
}

// treePath: the names on the way from the root.
//
//vc:spec
//vc:dec Addr(t)
func treePath(t *CmdTree) []string {
	if t == nil || t.parent == nil || !(0 < Addr(t.parent) && Addr(t.parent) < Addr(t)) {
		return []string{}
	}
	return append(treePath(t.parent), t.name)
}

//vc:spec
//vc:dec Addr(t)
func treeRoot(t *CmdTree) *CmdTree {
	if t == nil || t.parent == nil || !(0 < Addr(t.parent) && Addr(t.parent) < Addr(t)) {
		return t
	}
	return treeRoot(t.parent)
}

//vc:contract CmdTree.Path
func _(self *CmdTree) (r []string) {
	Requires(treeWF() && self != nil)
	NoAlloc()
	Ensures(Eq(r, treePath(self)))
	return
}

//vc:contract CmdTree.DisplayPath
func _(self *CmdTree) (r string) {
	Requires(treeWF() && self != nil)
	NoAlloc()
	return
}

//vc:contract NewCmdTree
func _(strs *CmdTreeStrs) (r *CmdTree) {
	Requires(treeWF() && strs != nil)
	Ensures(treeWF(), "a new tree has its own tables")
	Ensures(All(func(t *CmdTree) bool {
		Trig(t.subs)
		return Implies(Live(t), t == r || Old(Live(t)))
	}))
	Ensures(All(func(t *CmdTree) bool {
		Trig(t.parent)
		return Implies(Live(t), t == r || Old(Live(t)))
	}))
	Ensures(Fresh(r) && r.Strs == strs && r.parent == nil && r.name == "" && r.cmd == nil && r.source == "" && len(r.subOrderedNames) == 0)
	Ensures(Fresh(r.subs) && Fresh(r.subAbbrs) && Fresh(r.subAbbrsRevIdx))
	Ensures(ForallStr(func(k string) bool { Trig(Has(r.subs, k)); return !Has(r.subs, k) }))
	Ensures(ForallStr(func(k string) bool { Trig(Has(r.subAbbrs, k)); return !Has(r.subAbbrs, k) }))
	Ensures(ForallStr(func(k string) bool { Trig(Has(r.subAbbrsRevIdx, k)); return !Has(r.subAbbrsRevIdx, k) }))
	return
}

// wordTaken: the word means another child.
//
//vc:spec
func wordTaken(t *CmdTree, name string, word string) bool {
	return word != "" && Has(t.subAbbrsRevIdx, word) && t.subAbbrsRevIdx[word] != name
}

// subTaken: the name or one of the abbreviations means another child.
//
//vc:spec
func subTaken(t *CmdTree, name string, abbrs []string) bool {
	return wordTaken(t, name, name) || Exists(0, len(abbrs), func(i int) bool { Trig(abbrs[i]); return wordTaken(t, name, abbrs[i]) })
}

//vc:lemma auto
func wordsHas(name string, abbrs []string, n int, s string) {
	Trig(HasTo(append([]string{name}, abbrs...), n, s))
	Decreases(n)
	Ensures(Implies(0 < n && n <= len(abbrs)+1, HasTo(append([]string{name}, abbrs...), n, s) == (name == s || HasTo(abbrs, n-1, s))))
	if 1 < n && n <= len(abbrs)+1 {
		wordsHas(name, abbrs, n-1, s)
	}
	Assert(Implies(0 < n && n <= len(abbrs)+1, HasTo(append([]string{name}, abbrs...), n, s) == (HasTo(append([]string{name}, abbrs...), n-1, s) || append([]string{name}, abbrs...)[n-1] == s)))
	Assert(Implies(1 < n && n <= len(abbrs)+1, append([]string{name}, abbrs...)[n-1] == abbrs[n-2]))
}

//vc:contract CmdTree.addSubAbbrs
func _(self *CmdTree, name string, abbrs ...string) {
	Requires(treeWF() && subsWF() && self != nil)
	Modifies(self.subAbbrsRevIdx, self.subAbbrs)
	Panics(subTaken(self, name, abbrs), "a word that means another child is rejected")
	MustPanic(subTaken(self, name, abbrs), "a word that means another child is rejected")
	OnPanic(MapSame(self.subAbbrsRevIdx) && MapSame(self.subAbbrs), "a rejected word changes nothing")
	Ensures(treeWF() && subsWFBut(self, name))
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Has(self.subAbbrsRevIdx, s) == (Old(Has(self.subAbbrsRevIdx, s)) || s != "" && (s == name || HasTo(abbrs, len(abbrs), s)))
	}), "the child is called by its name and abbreviations")
	Ensures(ForallStr(func(s string) bool {
		Trig(self.subAbbrsRevIdx[s])
		return self.subAbbrsRevIdx[s] == Ite(Old(Has(self.subAbbrsRevIdx, s)), Old(self.subAbbrsRevIdx[s]), Ite(Has(self.subAbbrsRevIdx, s), name, ""))
	}), "the words of other children keep their meaning")
	//vc:inv 0: treeWF()
	//vc:inv 0: subsWF()
	//vc:inv 1: treeWF()
	//vc:inv 1: subsWFBut(self, name)
	//vc:inv 0: len(abbrs) == len(Old(abbrs))+1
	//vc:inv 0: Iter() == 0 || !wordTaken(self, name, name)
	//vc:inv 0: Forall(0, Iter()-1, func(i int) bool { Trig(Old(abbrs)[i]); return abbrs[i+1] == Old(abbrs)[i] && !wordTaken(self, name, Old(abbrs)[i]) })
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(abbrs[i]); return abbrs[i] == "" || !Has(self.subAbbrsRevIdx, abbrs[i]) || self.subAbbrsRevIdx[abbrs[i]] == name })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(Has(self.subAbbrsRevIdx, s)); return Has(self.subAbbrsRevIdx, s) == (AtLoop(Has(self.subAbbrsRevIdx, s)) || s != "" && HasTo(abbrs, Iter(), s)) })
	//vc:inv 1: ForallStr(func(s string) bool { Trig(self.subAbbrsRevIdx[s]); return self.subAbbrsRevIdx[s] == Ite(AtLoop(Has(self.subAbbrsRevIdx, s)), AtLoop(self.subAbbrsRevIdx[s]), Ite(Has(self.subAbbrsRevIdx, s), name, "")) })
	return
}

//vc:contract CmdTree.AddSub
func _(self *CmdTree, name string, abbrs ...string) (r *CmdTree) {
	Requires(treeWF() && subsWF() && self != nil)
	Modifies(self.subs, self.subAbbrsRevIdx, self.subAbbrs, &self.subOrderedNames)
	Panics(Has(self.subs, name) || subTaken(self, name, abbrs), "a name that is there already, or means another child, is rejected")
	MustPanic(Has(self.subs, name) || subTaken(self, name, abbrs), "a name that is there already, or means another child, is rejected")
	OnPanic(MapSame(self.subs) && MapSame(self.subAbbrsRevIdx) && MapSame(self.subAbbrs) && Eq(self.subOrderedNames, Old(self.subOrderedNames)), "a rejected name changes nothing")
	Ensures(treeWF() && subsWF(), "every word means one child at most")
	Ensures(Fresh(r) && r.parent == self && r.name == name && r.cmd == nil && r.Strs == self.Strs)
	Ensures(self.subs[name] == r)
	Ensures(Eq(self.subOrderedNames, append(Old(self.subOrderedNames), name)))
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subs, s))
		return Has(self.subs, s) == (s == name || Old(Has(self.subs, s)))
	}))
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(Old(Has(self.subAbbrsRevIdx, s)), Has(self.subAbbrsRevIdx, s) && self.subAbbrsRevIdx[s] == Old(self.subAbbrsRevIdx[s]))
	}), "the words of other children keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(Old(Has(self.subAbbrsRevIdx, s)), Old(self.subAbbrsRevIdx[s]) != name)
	}), "the words of other children keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(Old(Has(self.subAbbrsRevIdx, s)), subOf(self, s) == Old(subOf(self, s)))
	}), "the words of other children keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Has(self.subAbbrsRevIdx, s) == (Old(Has(self.subAbbrsRevIdx, s)) || s == name || s != "" && HasTo(abbrs, len(abbrs), s))
	}), "the new child is called by its name and abbreviations and by nothing else")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.subAbbrsRevIdx, s))
		return Implies(!Old(Has(self.subAbbrsRevIdx, s)) && Has(self.subAbbrsRevIdx, s), subOf(self, s) == r)
	}))
	return
}

// meaningsKept: no word of a node that was there means another child now.
//
//vc:spec
func subsKept() bool {
	return All(func(t *CmdTree, s string) bool {
		Trig(Has(t.subAbbrsRevIdx, s))
		return Implies(Old(Live(t)) && Old(Has(t.subAbbrsRevIdx, s)), Has(t.subAbbrsRevIdx, s) && t.subAbbrsRevIdx[s] == Old(t.subAbbrsRevIdx[s]))
	}) && All(func(t *CmdTree, n string) bool {
		Trig(Has(t.subs, n))
		return Implies(Old(Live(t)) && Old(Has(t.subs, n)), Has(t.subs, n) && t.subs[n] == Old(t.subs[n]))
	})
}

//vc:contract CmdTree.getOrAddSub
func _(self *CmdTree, source string, addIfNotExists bool, path ...string) (r *CmdTree) {
	Requires(treeWF() && subsWF() && self != nil)
	Requires(!addIfNotExists || Forall(0, len(path), func(i int) bool { Trig(path[i]); return path[i] != "" }))
	ModifiesField(self.subOrderedNames, self.source)
	ModifiesMaps(self.subs, self.subAbbrs, self.subAbbrsRevIdx)
	Decreases(len(path))
	ReadOnly(!addIfNotExists || treeFind(self, path) != nil, "looking up changes nothing")
	Ensures(treeWF() && subsWF() && subsKept())
	Ensures(Implies(!addIfNotExists, r == Old(treeFind(self, path))), "the command the path means is found")
	Ensures(Implies(addIfNotExists, r != nil && r == treeFind(self, path)), "the command is there afterwards")
	Ensures(Implies(Old(treeFind(self, path)) != nil, r == Old(treeFind(self, path))), "a command that is there is not replaced")
	return
}

//vc:contract CmdTree.GetSub
func _(self *CmdTree, path ...string) (r *CmdTree) {
	Requires(treeWF() && subsWF() && self != nil)
	NoAlloc()
	Ensures(r == treeFind(self, path), "the command the path means is found")
	return
}

//vc:contract CmdTree.GetSubByPath
func _(self *CmdTree, path string, panicOnNotFound bool) (r *CmdTree) {
	Requires(treeWF() && subsWF() && self != nil)
	Requires(self.Strs.PathSep != "")
	Panics(panicOnNotFound && treeFind(self, strings.Split(path, self.Strs.PathSep)) == nil)
	MustPanic(panicOnNotFound && treeFind(self, strings.Split(path, self.Strs.PathSep)) == nil, "a command that is not there is reported")
	NoAlloc()
	Ensures(r == treeFind(self, strings.Split(path, self.Strs.PathSep)), "the command the path means is found")
	return
}

// ---- the command of a node

//vc:spec
func cmdTables(c *Cmd) bool {
	return Live(c) && Live(c.arg2env) && Live(c.val2env) && Live(c.argsAutoMap)
}

// cmdNothing: a command that neither declares nor does anything.
//
//vc:spec
func cmdNothing(c *Cmd) bool {
	return (c.ty == CmdTypeEmptyDir || c.ty == CmdTypeEmpty || c.ty == CmdTypeMetaOnly) &&
		len(c.args.names) == 0 && len(c.arg2env.orderedKeys) == 0 && len(c.val2env.orderedKeys) == 0 &&
		len(c.autoTimerKeys.Begin) == 0 && len(c.autoTimerKeys.End) == 0 && len(c.autoTimerKeys.Dur) == 0 &&
		len(c.envOps.orderedNames) == 0 &&
		len(c.argsAutoMap.argList) == 0 && !c.argsAutoMap.mapAll && !c.argsAutoMap.mapNoProvider &&
		len(c.macros) == 0 && len(c.orderedMacros) == 0 && len(c.cmdLine) == 0 && len(c.flow) == 0 && len(c.depends) == 0 &&
		c.adhotFlow == nil && c.power == nil && c.normal == nil
}

// regAllowed: the node has no command and belongs to the source, or its command does nothing.
//
//vc:spec
func regAllowed(t *CmdTree, source string) bool {
	return t.cmd == nil && t.source == source || t.cmd != nil && cmdNothing(t.cmd)
}

//vc:contract Cmd.IsTotallyEmpty
func _(self *Cmd) (r bool) {
	Requires(cmdTables(self))
	Requires(treeWF())
	Ensures(treeWF())
	Ensures(r == cmdNothing(self))
	return
}

//vc:contract CmdTree.cmdConflictCheck
func _(self *CmdTree, help string, funName string, source string) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Panics(!regAllowed(self, source), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, source), "a second command of a node is rejected")
	return
}

//vc:contract CmdTree.RegCmd
func _(self *CmdTree, cmd NormalCmd, help string, source string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, source), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, source), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeNormal, "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegFileCmd
func _(self *CmdTree, cmd string, help string, source string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, source), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, source), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeFile && r.cmdLine == cmd, "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegDirWithCmd
func _(self *CmdTree, cmd string, help string, source string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, source), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, source), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeDirWithCmd && r.cmdLine == cmd, "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegEmptyCmd
func _(self *CmdTree, help string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, ""), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, ""), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeEmpty, "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegMetaOnlyCmd
func _(self *CmdTree, help string, source string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, source), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, source), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeMetaOnly, "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegFlowCmd
func _(self *CmdTree, flow []string, help string, source string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, source), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, source), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeFlow && Eq(r.flow, flow), "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegPowerCmd
func _(self *CmdTree, cmd PowerCmd, help string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, ""), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, ""), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypePower, "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegAdHotFlowCmd
func _(self *CmdTree, cmd AdHotFlowCmd, help string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, ""), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, ""), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeAdHotFlow, "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegFileNFlowCmd
func _(self *CmdTree, flow []string, cmd string, help string, source string) (r *Cmd) {
	Requires(treeWF() && self != nil && (self.cmd == nil || cmdTables(self.cmd)))
	Modifies(&self.cmd)
	Panics(!regAllowed(self, source), "a second command of a node is rejected")
	MustPanic(!regAllowed(self, source), "a second command of a node is rejected")
	OnPanic(self.cmd == Old(self.cmd), "the first command stays")
	Ensures(Fresh(r) && self.cmd == r && r.owner == self && r.help == help && r.ty == CmdTypeFileNFlow && r.cmdLine == cmd && Eq(r.flow, flow), "the command is registered in the node")
	return
}

//vc:contract CmdTree.RegEmptyDirCmd
func _(self *CmdTree, dir string, help string) (r *Cmd) {
	Requires(self != nil)
	Modifies(&self.cmd)
	Ensures(Implies(Old(self.cmd) != nil, self.cmd == Old(self.cmd)), "the first command stays")
	Ensures(self.cmd == r && r != nil)
	return
}

//vc:contract CmdTree.Realname
func _(self *CmdTree, nameOrAbbr string) (r string) {
	Requires(treeWF() && self != nil)
	NoAlloc()
	Ensures(r == Ite(self.parent == nil, "", Ite(Has(self.parent.subAbbrsRevIdx, nameOrAbbr), self.parent.subAbbrsRevIdx[nameOrAbbr], "")))
	return
}

//vc:contract CmdTree.AddAbbrs
func _(self *CmdTree, abbrs ...string) {
	Requires(treeWF() && subsWF() && self != nil)
	Modifies(self.parent.subAbbrsRevIdx, self.parent.subAbbrs)
	Panics(self.parent == nil || subTaken(self.parent, self.name, abbrs), "a word that means another child is rejected")
	MustPanic(self.parent == nil || subTaken(self.parent, self.name, abbrs), "a word that means another child is rejected")
	OnPanic(MapSame(self.parent.subAbbrsRevIdx) && MapSame(self.parent.subAbbrs), "a rejected word changes nothing")
	Ensures(treeWF() && subsWF() && subsKept(), "the words of other children keep their meaning")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.parent.subAbbrsRevIdx, s))
		return Has(self.parent.subAbbrsRevIdx, s) == (Old(Has(self.parent.subAbbrsRevIdx, s)) || s != "" && HasTo(abbrs, len(abbrs), s))
	}), "the child is called by its new abbreviations and by nothing else")
	Ensures(ForallStr(func(s string) bool {
		Trig(Has(self.parent.subAbbrsRevIdx, s))
		return Implies(s != "" && HasTo(abbrs, len(abbrs), s), subOf(self.parent, s) == self)
	}), "an abbreviation means the child it is declared for")
	return
}

//vc:contract CmdTree.GetOrAddSub
func _(self *CmdTree, path ...string) (r *CmdTree) {
	Requires(treeWF() && subsWF() && self != nil)
	Requires(Forall(0, len(path), func(i int) bool { Trig(path[i]); return path[i] != "" }))
	ModifiesField(self.subOrderedNames, self.source)
	ModifiesMaps(self.subs, self.subAbbrs, self.subAbbrsRevIdx)
	Ensures(treeWF() && subsWF() && subsKept(), "the words of other commands keep their meaning")
	Ensures(r != nil && r == treeFind(self, path), "the command is there afterwards")
	Ensures(Implies(Old(treeFind(self, path)) != nil, r == Old(treeFind(self, path))), "a command that is there is not replaced")
	return
}

//vc:contract CmdTree.GetOrAddSubEx
func _(self *CmdTree, source string, path ...string) (r *CmdTree) {
	Requires(treeWF() && subsWF() && self != nil)
	Requires(Forall(0, len(path), func(i int) bool { Trig(path[i]); return path[i] != "" }))
	ModifiesField(self.subOrderedNames, self.source)
	ModifiesMaps(self.subs, self.subAbbrs, self.subAbbrsRevIdx)
	Ensures(treeWF() && subsWF() && subsKept(), "the words of other commands keep their meaning")
	Ensures(r != nil && r == treeFind(self, path), "the command is there afterwards")
	Ensures(Implies(Old(treeFind(self, path)) != nil, r == Old(treeFind(self, path))), "a command that is there is not replaced")
	return
}

//vc:lemma
func findStep(t *CmdTree, path []string, word string) {
	Requires(t != nil && treeFind(t, path) != nil)
	Decreases(len(path))
	Ensures(treeFind(t, append(path, word)) == subOf(treeFind(t, path), word))
	When(len(path) > 0, func() { findStep(subOf(t, path[0]), path[1:], word) })
	Assert(Implies(len(path) > 0, Eq(append(path, word)[1:], append(path[1:], word))))
	Assert(treeFind(treeFind(t, path), []string{}) == treeFind(t, path))
}

// A full path means the command it is the path of.
//
//vc:lemma
func pathFindsCmd(t *CmdTree) {
	Requires(treeWF() && subsWF() && t != nil && Live(t))
	Decreases(Addr(t))
	Ensures(treeFind(treeRoot(t), treePath(t)) == t && treeRoot(t) != nil)
	When(t.parent != nil, func() {
		pathFindsCmd(t.parent)
		findStep(treeRoot(t.parent), treePath(t.parent), t.name)
		Assert(Has(t.parent.subs, t.name))
	})
}

// A path that found a command finds the same command after more names were registered.
//
//vc:lemma twostate
func findKept(t *CmdTree, path []string) {
	Requires(Old(treeWF()) && Old(subsWF()) && subsKept() && subsWF())
	Requires(t != nil && Old(Live(t)) && Old(treeFind(t, path)) != nil)
	Decreases(len(path))
	Ensures(treeFind(t, path) == Old(treeFind(t, path)))
	When(len(path) > 0, func() { findKept(Old(subOf(t, path[0])), path[1:]) })
}
