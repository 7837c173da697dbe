//go:build go1.21

package model

import . "github.com/innerr/ticat/pkg/vstd"

// ---- live flow-altering rules (C21)

// ruleV: what a rule says. kind: 1 replace, 2 remove, 3 insert before, 4 insert after.
type ruleV struct {
	kind int
	on   *CmdTree
	with any // a ParsedCmd
	cnt  int
}

//vc:spec
func nodeOf(cmd ParsedCmd) *CmdTree {
	return Ite(len(cmd.Segments) == 0, nil, cmd.Segments[len(cmd.Segments)-1].Matched.Cmd)
}

//vc:spec
func isReplace(i BlenderInvoker) bool { return TypeIs(i, (*BlenderInvokerReplace)(nil)) }

//vc:spec
func isRemove(i BlenderInvoker) bool { return TypeIs(i, (*BlenderInvokerRemove)(nil)) }

//vc:spec
func isInsert(i BlenderInvoker) bool { return TypeIs(i, (*BlenderInvokerInsert)(nil)) }

//vc:spec
func isAfter(i BlenderInvoker) bool { return TypeIs(i, (*BlenderInvokerInsertAfter)(nil)) }

//vc:spec
func asReplace(i BlenderInvoker) *BlenderInvokerReplace { return Unbox(i, (*BlenderInvokerReplace)(nil)) }

//vc:spec
func asRemove(i BlenderInvoker) *BlenderInvokerRemove { return Unbox(i, (*BlenderInvokerRemove)(nil)) }

//vc:spec
func asInsert(i BlenderInvoker) *BlenderInvokerInsert { return Unbox(i, (*BlenderInvokerInsert)(nil)) }

//vc:spec
func asAfter(i BlenderInvoker) *BlenderInvokerInsertAfter {
	return Unbox(i, (*BlenderInvokerInsertAfter)(nil))
}

//vc:spec
func ruleKind(i BlenderInvoker) int {
	return Ite(isReplace(i), 1, Ite(isRemove(i), 2, Ite(isInsert(i), 3, Ite(isAfter(i), 4, 0))))
}

//vc:spec
func ruleOn(i BlenderInvoker) *CmdTree {
	return Ite(isReplace(i), nodeOf(asReplace(i).src), Ite(isRemove(i), nodeOf(asRemove(i).target), Ite(isInsert(i), nodeOf(asInsert(i).target), nodeOf(asAfter(i).target))))
}

//vc:spec
func ruleWith(i BlenderInvoker) ParsedCmd {
	return Ite(isReplace(i), asReplace(i).dest, Ite(isInsert(i), asInsert(i).newCmd, asAfter(i).newCmd))
}

//vc:spec
func ruleCnt(i BlenderInvoker) int {
	return Ite(isReplace(i), asReplace(i).cnt, Ite(isRemove(i), asRemove(i).cnt, Ite(isInsert(i), asInsert(i).cnt, asAfter(i).cnt)))
}

// isRule: one of the kinds of rules the program has.
//
//vc:spec
func isRule(i BlenderInvoker) bool {
	return (isReplace(i) && Live(asReplace(i))) || (isRemove(i) && Live(asRemove(i))) || (isInsert(i) && Live(asInsert(i))) || (isAfter(i) && Live(asAfter(i)))
}

// afterUse: how often a rule still applies after it applied.
//
//vc:spec
func afterUse(n int) int { return Ite(n > 0, n-1, n) }

// applied: what a rule does to a command.
//
//vc:spec
func applied(i BlenderInvoker, cmd ParsedCmd, cnt int, cmds []ParsedCmd, deleted bool, delta int, finished bool) bool {
	met := ruleOn(i) == nodeOf(cmd)
	k := ruleKind(i)
	return ruleCnt(i) == Ite(met, afterUse(cnt), cnt) && deleted == (met && k <= 2) && delta == Ite(met, Ite(k <= 2, -1, Ite(k == 3, 1, 0)), 0) && finished == (met && afterUse(cnt) == 0) &&
		Implies(!met, Eq(cmds, []ParsedCmd{cmd})) &&
		Implies(met && k == 1, Eq(cmds, []ParsedCmd{ruleWith(i)})) &&
		Implies(met && k == 2, len(cmds) == 0) &&
		Implies(met && k == 3, Eq(cmds, []ParsedCmd{ruleWith(i), cmd})) &&
		Implies(met && k == 4, Eq(cmds, []ParsedCmd{cmd, ruleWith(i)}))
}

//vc:contract BlenderInvokerReplace.Invoke
func _(self *BlenderInvokerReplace, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
	Requires(self != nil)
	Modifies(&self.cnt)
	Ensures(applied(self, cmd, Old(self.cnt), cmds, originDeleted, originPosDelta, finished), "the matching command is replaced")
	return
}

//vc:contract BlenderInvokerRemove.Invoke
func _(self *BlenderInvokerRemove, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
	Requires(self != nil)
	Modifies(&self.cnt)
	Ensures(applied(self, cmd, Old(self.cnt), cmds, originDeleted, originPosDelta, finished), "the matching command is removed")
	return
}

//vc:contract BlenderInvokerInsert.Invoke
func _(self *BlenderInvokerInsert, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
	Requires(self != nil)
	Modifies(&self.cnt)
	Ensures(applied(self, cmd, Old(self.cnt), cmds, originDeleted, originPosDelta, finished), "the new command comes right before the matching one")
	return
}

//vc:contract BlenderInvokerInsertAfter.Invoke
func _(self *BlenderInvokerInsertAfter, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
	Requires(self != nil)
	Modifies(&self.cnt)
	Ensures(applied(self, cmd, Old(self.cnt), cmds, originDeleted, originPosDelta, finished), "the new command comes right after the matching one")
	return
}

// invokeAny: a call of a rule, whichever kind it is.
func invokeAny(self BlenderInvoker, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
	switch it := self.(type) {
	case *BlenderInvokerReplace:
		return it.Invoke(cmd)
	case *BlenderInvokerRemove:
		return it.Invoke(cmd)
	case *BlenderInvokerInsert:
		return it.Invoke(cmd)
	case *BlenderInvokerInsertAfter:
		return it.Invoke(cmd)
	}
	return
}

//vc:spec
func otherRulesKept(i BlenderInvoker) bool {
	return All(func(r *BlenderInvokerReplace) bool { Trig(r.cnt); return (isReplace(i) && r == asReplace(i)) || r.cnt == Old(r.cnt) }) &&
		All(func(r *BlenderInvokerRemove) bool { Trig(r.cnt); return (isRemove(i) && r == asRemove(i)) || r.cnt == Old(r.cnt) }) &&
		All(func(r *BlenderInvokerInsert) bool { Trig(r.cnt); return (isInsert(i) && r == asInsert(i)) || r.cnt == Old(r.cnt) }) &&
		All(func(r *BlenderInvokerInsertAfter) bool { Trig(r.cnt); return (isAfter(i) && r == asAfter(i)) || r.cnt == Old(r.cnt) })
}

//vc:contract invokeAny
func _(self BlenderInvoker, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
	Requires(isRule(self))
	Modifies(&asReplace(self).cnt, &asRemove(self).cnt, &asInsert(self).cnt, &asAfter(self).cnt)
	Ensures(otherRulesKept(self), "only the rule itself changes")
	Ensures(applied(self, cmd, Old(ruleCnt(self)), cmds, originDeleted, originPosDelta, finished), "a rule does what its kind says")
	return
}

//vc:trusted a call through the interface calls the method of the type the value has; the contract is the one proved for invokeAny
//vc:contract BlenderInvoker.Invoke
func _(self BlenderInvoker, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
	Requires(isRule(self))
	Modifies(&asReplace(self).cnt, &asRemove(self).cnt, &asInsert(self).cnt, &asAfter(self).cnt)
	Ensures(otherRulesKept(self))
	Ensures(applied(self, cmd, Old(ruleCnt(self)), cmds, originDeleted, originPosDelta, finished))
	return
}

//vc:spec
func boxed(cmd ParsedCmd) any { return cmd }

//vc:spec
func viewOf(i BlenderInvoker) ruleV { return ruleV{ruleKind(i), ruleOn(i), boxed(ruleWith(i)), ruleCnt(i)} }

// viewsTo: what the first n rules say.
//
//vc:spec opaque
//vc:dec n
func viewsTo(rules []BlenderInvoker, n int) []ruleV {
	if n <= 0 {
		return []ruleV{}
	}
	return append(viewsTo(rules, n-1), viewOf(rules[n-1]))
}

//vc:lemma auto
//vc:reveal viewsTo
func viewsLen(rules []BlenderInvoker, n int) {
	Requires(0 <= n)
	Trig(viewsTo(rules, n))
	Ensures(len(viewsTo(rules, n)) == n)
	Decreases(n)
	if n > 0 {
		viewsLen(rules, n-1)
	}
}

//vc:lemma
//vc:reveal viewsTo
func viewsAt(rules []BlenderInvoker, n int) {
	Requires(0 <= n)
	Ensures(Forall(0, n, func(i int) bool { Trig(viewsTo(rules, n)[i]); return viewsTo(rules, n)[i] == viewOf(rules[i]) }))
	Decreases(n)
	if n > 0 {
		viewsAt(rules, n-1)
	}
}

// around: what comes in the place of a command: rules from number i on apply, in order, until one takes it away.
//
//vc:spec opaque
//vc:dec len(rules) - i
func around(rules []ruleV, i int, cmd ParsedCmd) []ParsedCmd {
	if i < 0 || i >= len(rules) {
		return []ParsedCmd{cmd}
	}
	if rules[i].on != nodeOf(cmd) {
		return around(rules, i+1, cmd)
	}
	if rules[i].kind == 1 {
		return []ParsedCmd{Unbox(rules[i].with, ParsedCmd{})}
	}
	if rules[i].kind == 2 {
		return []ParsedCmd{}
	}
	if rules[i].kind == 3 {
		return append([]ParsedCmd{Unbox(rules[i].with, ParsedCmd{})}, around(rules, i+1, cmd)...)
	}
	return append(around(rules, i+1, cmd), Unbox(rules[i].with, ParsedCmd{}))
}

// left: the rules still live after they applied to a command.
//
//vc:spec opaque
//vc:dec len(rules) - i
func left(rules []ruleV, i int, cmd ParsedCmd) []ruleV {
	if i < 0 || i >= len(rules) {
		return []ruleV{}
	}
	r := rules[i]
	if r.on != nodeOf(cmd) {
		return append([]ruleV{r}, left(rules, i+1, cmd)...)
	}
	used := Ite(afterUse(r.cnt) == 0, []ruleV{}, []ruleV{ruleV{r.kind, r.on, r.with, afterUse(r.cnt)}})
	if r.kind <= 2 {
		return append(used, rules[i+1:]...)
	}
	return append(used, left(rules, i+1, cmd)...)
}

// blenderWF: the live rules are separate.
//
//vc:spec
func blenderWF(rules []BlenderInvoker) bool {
	return Forall(0, len(rules), func(i int) bool {
		Trig(rules[i])
		return isRule(rules[i]) && Forall(0, len(rules), func(j int) bool { Trig(rules[j]); return i == j || rules[i] != rules[j] })
	})
}

//vc:spec
func rulesOf(b *Blender) []ruleV { return viewsTo(b.invokers, len(b.invokers)) }

//vc:spec
func newRule(i BlenderInvoker, kind int, on *CmdTree, with any, cnt int) bool {
	return ruleKind(i) == kind && ruleOn(i) == on && boxed(ruleWith(i)) == with && ruleCnt(i) == cnt
}

//vc:contract Blender.AddReplace
func _(self *Blender, src ParsedCmd, dest ParsedCmd, cnt int) {
	Requires(self != nil && blenderWF(self.invokers))
	Modifies(&self.invokers)
	Ensures(blenderWF(self.invokers))
	Ensures(Eq(rulesOf(self), append(Old(rulesOf(self)), ruleV{1, nodeOf(src), boxed(dest), cnt})), "the rule comes after the live ones")
	Ensures(newRule(self.invokers[Old(len(self.invokers))], 1, nodeOf(src), boxed(dest), cnt))
	Ensures(len(self.invokers) == Old(len(self.invokers))+1 && Eq(self.invokers[:len(self.invokers)-1], Old(self.invokers)))
	//vc:use exit: viewsAt(self.invokers, len(self.invokers))
	//vc:use entry: viewsAt(self.invokers, len(self.invokers))
	return
}

//vc:contract Blender.AddRemove
func _(self *Blender, target ParsedCmd, cnt int) {
	Requires(self != nil && blenderWF(self.invokers))
	Modifies(&self.invokers)
	Ensures(blenderWF(self.invokers))
	Ensures(len(rulesOf(self)) == Old(len(rulesOf(self)))+1 && Eq(rulesOf(self)[:len(rulesOf(self))-1], Old(rulesOf(self))), "the live rules stay")
	Ensures(sameRule(rulesOf(self)[len(rulesOf(self))-1], 2, nodeOf(target), cnt), "the rule comes after the live ones")
	Ensures(len(self.invokers) == Old(len(self.invokers))+1 && Eq(self.invokers[:len(self.invokers)-1], Old(self.invokers)))
	//vc:use exit: viewsAt(self.invokers, len(self.invokers))
	//vc:use entry: viewsAt(self.invokers, len(self.invokers))
	return
}

//vc:contract Blender.AddInsert
func _(self *Blender, target ParsedCmd, newCmd ParsedCmd, cnt int) {
	Requires(self != nil && blenderWF(self.invokers))
	Modifies(&self.invokers)
	Ensures(blenderWF(self.invokers))
	Ensures(Eq(rulesOf(self), append(Old(rulesOf(self)), ruleV{3, nodeOf(target), boxed(newCmd), cnt})), "the rule comes after the live ones")
	Ensures(newRule(self.invokers[Old(len(self.invokers))], 3, nodeOf(target), boxed(newCmd), cnt))
	Ensures(len(self.invokers) == Old(len(self.invokers))+1 && Eq(self.invokers[:len(self.invokers)-1], Old(self.invokers)))
	//vc:use exit: viewsAt(self.invokers, len(self.invokers))
	//vc:use entry: viewsAt(self.invokers, len(self.invokers))
	return
}

//vc:contract Blender.AddInsertAfter
func _(self *Blender, target ParsedCmd, newCmd ParsedCmd, cnt int) {
	Requires(self != nil && blenderWF(self.invokers))
	Modifies(&self.invokers)
	Ensures(blenderWF(self.invokers))
	Ensures(Eq(rulesOf(self), append(Old(rulesOf(self)), ruleV{4, nodeOf(target), boxed(newCmd), cnt})), "the rule comes after the live ones")
	Ensures(newRule(self.invokers[Old(len(self.invokers))], 4, nodeOf(target), boxed(newCmd), cnt))
	Ensures(len(self.invokers) == Old(len(self.invokers))+1 && Eq(self.invokers[:len(self.invokers)-1], Old(self.invokers)))
	//vc:use exit: viewsAt(self.invokers, len(self.invokers))
	//vc:use entry: viewsAt(self.invokers, len(self.invokers))
	return
}

//vc:spec
func sameRule(r ruleV, kind int, on *CmdTree, cnt int) bool { return r.kind == kind && r.on == on && r.cnt == cnt }

//vc:contract Blender.Clear
func _(self *Blender) {
	Requires(self != nil)
	Modifies(&self.invokers)
	Ensures(blenderWF(self.invokers) && len(rulesOf(self)) == 0, "no rule is live")
	return
}

//vc:contract Blender.IsEmpty
func _(self *Blender) (r bool) {
	Requires(self != nil)
	NoAlloc()
	Ensures(r == (len(rulesOf(self)) == 0))
	return
}

//vc:contract NewBlender
func _() (r *Blender) {
	Ensures(Fresh(r) && blenderWF(r.invokers) && len(rulesOf(r)) == 0, "no rule is live")
	return
}

//vc:contract BlenderInvokerReplace.Clone
func _(self *BlenderInvokerReplace) (r BlenderInvoker) {
	Requires(self != nil)
	Ensures(isReplace(r) && Fresh(asReplace(r)) && viewOf(r) == Old(viewOf(self)), "the clone says the same")
	return
}

//vc:contract BlenderInvokerRemove.Clone
func _(self *BlenderInvokerRemove) (r BlenderInvoker) {
	Requires(self != nil)
	Ensures(isRemove(r) && Fresh(asRemove(r)) && sameRule(viewOf(r), 2, Old(ruleOn(self)), Old(self.cnt)), "the clone says the same")
	return
}

//vc:contract BlenderInvokerInsert.Clone
func _(self *BlenderInvokerInsert) (r BlenderInvoker) {
	Requires(self != nil)
	Ensures(isInsert(r) && Fresh(asInsert(r)) && viewOf(r) == Old(viewOf(self)), "the clone says the same")
	return
}

//vc:contract BlenderInvokerInsertAfter.Clone
func _(self *BlenderInvokerInsertAfter) (r BlenderInvoker) {
	Requires(self != nil)
	Ensures(isAfter(r) && Fresh(asAfter(r)) && viewOf(r) == Old(viewOf(self)), "the clone says the same")
	return
}

// cloneAny: a clone of a rule, whichever kind it is.
func cloneAny(self BlenderInvoker) (r BlenderInvoker) {
	switch it := self.(type) {
	case *BlenderInvokerReplace:
		return it.Clone()
	case *BlenderInvokerRemove:
		return it.Clone()
	case *BlenderInvokerInsert:
		return it.Clone()
	case *BlenderInvokerInsertAfter:
		return it.Clone()
	}
	return
}

//vc:spec
func freshRule(r BlenderInvoker) bool {
	return Implies(isReplace(r), Fresh(asReplace(r))) && Implies(isRemove(r), Fresh(asRemove(r))) && Implies(isInsert(r), Fresh(asInsert(r))) && Implies(isAfter(r), Fresh(asAfter(r)))
}

// says: the rule says the same as another one said.
//
//vc:spec
func says(r BlenderInvoker, v ruleV) bool {
	return sameRule(viewOf(r), v.kind, v.on, v.cnt) && Implies(v.kind != 2, viewOf(r) == v)
}

//vc:contract cloneAny
func _(self BlenderInvoker) (r BlenderInvoker) {
	Requires(isRule(self))
	Ensures(isRule(r) && freshRule(r) && says(r, Old(viewOf(self))), "the clone says the same")
	return
}

//vc:trusted a call through the interface calls the method of the type the value has; the contract is the one proved for cloneAny
//vc:contract BlenderInvoker.Clone
func _(self BlenderInvoker) (r BlenderInvoker) {
	Requires(isRule(self))
	Ensures(isRule(r) && freshRule(r) && says(r, Old(viewOf(self))))
	return
}

//vc:contract Blender.Clone
func _(self *Blender) (r *Blender) {
	Requires(self != nil && blenderWF(self.invokers))
	Ensures(Fresh(r) && blenderWF(r.invokers) && len(r.invokers) == len(self.invokers))
	Ensures(Forall(0, len(r.invokers), func(i int) bool { Trig(r.invokers[i]); return freshRule(r.invokers[i]) && says(r.invokers[i], Old(viewOf(self.invokers[i]))) }), "the clone has the same rules, apart from the ones cloned")
	//vc:inv 0: len(invokers) == Iter() && blenderWF(invokers) && blenderWF(self.invokers)
	//vc:inv 0: Forall(0, Iter(), func(i int) bool { Trig(invokers[i]); return freshRule(invokers[i]) && says(invokers[i], Old(viewOf(self.invokers[i]))) })
	return
}

//vc:lemma
//vc:reveal around
func aroundStep(rules []ruleV, i int, cmd ParsedCmd) {
	Ensures(Implies(i < 0 || i >= len(rules), Eq(around(rules, i, cmd), []ParsedCmd{cmd})))
	Ensures(Implies(0 <= i && i < len(rules) && rules[i].on != nodeOf(cmd), Eq(around(rules, i, cmd), around(rules, i+1, cmd))))
	Ensures(Implies(0 <= i && i < len(rules) && rules[i].on == nodeOf(cmd) && rules[i].kind == 1, Eq(around(rules, i, cmd), []ParsedCmd{Unbox(rules[i].with, ParsedCmd{})})))
	Ensures(Implies(0 <= i && i < len(rules) && rules[i].on == nodeOf(cmd) && rules[i].kind == 2, len(around(rules, i, cmd)) == 0))
	Ensures(Implies(0 <= i && i < len(rules) && rules[i].on == nodeOf(cmd) && rules[i].kind == 3, Eq(around(rules, i, cmd), append([]ParsedCmd{Unbox(rules[i].with, ParsedCmd{})}, around(rules, i+1, cmd)...))))
	Ensures(Implies(0 <= i && i < len(rules) && rules[i].on == nodeOf(cmd) && rules[i].kind > 3, Eq(around(rules, i, cmd), append(around(rules, i+1, cmd), Unbox(rules[i].with, ParsedCmd{})))))
}

// leftAhead: the first rule of left from i on is r, then come the ones from i+1 on; leftSame: r is not left.
//
//vc:spec
func leftAhead(rules []ruleV, i int, cmd ParsedCmd, r ruleV) bool {
	return len(left(rules, i, cmd)) == 1+len(left(rules, i+1, cmd)) && left(rules, i, cmd)[0] == r &&
		Forall(0, len(left(rules, i+1, cmd)), func(t int) bool {
			Trig(left(rules, i+1, cmd)[t])
			return left(rules, i, cmd)[t+1] == left(rules, i+1, cmd)[t]
		})
}

//vc:spec
func restAhead(rules []ruleV, i int, cmd ParsedCmd, r ruleV) bool {
	return len(left(rules, i, cmd)) == len(rules)-i && left(rules, i, cmd)[0] == r &&
		Forall(i+1, len(rules), func(t int) bool {
			Trig(rules[t])
			return left(rules, i, cmd)[t-i] == rules[t]
		})
}

//vc:lemma
//vc:reveal left
func leftStep(rules []ruleV, i int, cmd ParsedCmd) {
	met := 0 <= i && i < len(rules) && rules[i].on == nodeOf(cmd)
	Ensures(Implies(i < 0 || i >= len(rules), len(left(rules, i, cmd)) == 0))
	Ensures(Implies(0 <= i && i < len(rules) && !met, leftAhead(rules, i, cmd, rules[i])))
	Ensures(Implies(met && afterUse(rules[i].cnt) == 0 && rules[i].kind > 2, Eq(left(rules, i, cmd), left(rules, i+1, cmd))))
	Ensures(Implies(met && afterUse(rules[i].cnt) == 0 && rules[i].kind <= 2, Eq(left(rules, i, cmd), rules[i+1:])))
	Ensures(Implies(met && afterUse(rules[i].cnt) != 0 && rules[i].kind > 2, leftAhead(rules, i, cmd, ruleV{rules[i].kind, rules[i].on, rules[i].with, afterUse(rules[i].cnt)})))
	Ensures(Implies(met && afterUse(rules[i].cnt) != 0 && rules[i].kind <= 2, restAhead(rules, i, cmd, ruleV{rules[i].kind, rules[i].on, rules[i].with, afterUse(rules[i].cnt)})))
}

//vc:contract Blender.invokeOnCmd
func _(self *Blender, cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPos int) {
	Requires(self != nil && blenderWF(self.invokers))
	Modifies(&self.invokers)
	ModifiesField(asReplace(nil).cnt, asRemove(nil).cnt, asInsert(nil).cnt, asAfter(nil).cnt)
	Ensures(blenderWF(self.invokers), "the live rules stay separate")
	Ensures(Eq(cmds, Old(around(rulesOf(self), 0, cmd))), "the matching rules apply to the command, in order")
	Ensures(Eq(rulesOf(self), Old(left(rulesOf(self), 0, cmd))), "each rule that applied is left for one time less")
	Ensures(originDeleted || (0 <= originPos && originPos < len(cmds) && Eq(cmds[originPos], cmd)), "a command not taken away stays")
	//vc:inv 0: 0 <= j && j <= len(self.invokers) && len(self.invokers) <= Old(len(self.invokers))
	//vc:inv 0: blenderWF(self.invokers)
	//vc:inv 0: Forall(j, len(self.invokers), func(t int) bool { Trig(self.invokers[t]); return self.invokers[t] == Old(self.invokers)[t+Old(len(self.invokers))-len(self.invokers)] && viewOf(self.invokers[t]) == Old(rulesOf(self))[t+Old(len(self.invokers))-len(self.invokers)] })
	//vc:inv 0: Implies(!originDeleted, 0 <= originPos && originPos < len(cmds) && Eq(cmds[originPos], cmd))
	//vc:inv 0: Implies(!originDeleted, Eq(Old(around(rulesOf(self), 0, cmd)), append(append(cmds[:originPos], around(Old(rulesOf(self)), j+Old(len(self.invokers))-len(self.invokers), cmd)...), cmds[originPos+1:]...)))
	//vc:inv 0: Implies(originDeleted, Eq(Old(around(rulesOf(self), 0, cmd)), cmds))
	//vc:inv 0: Forall(0, j, func(t int) bool { Trig(Old(left(rulesOf(self), 0, cmd))[t]); return Old(left(rulesOf(self), 0, cmd))[t] == viewOf(self.invokers[t]) })
	//vc:inv 0: Implies(!originDeleted, len(Old(left(rulesOf(self), 0, cmd))) == j+len(left(Old(rulesOf(self)), j+Old(len(self.invokers))-len(self.invokers), cmd)))
	//vc:inv 0: Implies(!originDeleted, Forall(0, len(left(Old(rulesOf(self)), j+Old(len(self.invokers))-len(self.invokers), cmd)), func(t int) bool { Trig(left(Old(rulesOf(self)), j+Old(len(self.invokers))-len(self.invokers), cmd)[t]); return Old(left(rulesOf(self), 0, cmd))[j+t] == left(Old(rulesOf(self)), j+Old(len(self.invokers))-len(self.invokers), cmd)[t] }))
	//vc:inv 0: Implies(originDeleted, len(Old(left(rulesOf(self), 0, cmd))) == len(self.invokers))
	//vc:inv 0: Implies(originDeleted, Forall(j, len(self.invokers), func(t int) bool { Trig(self.invokers[t]); return Old(left(rulesOf(self), 0, cmd))[t] == viewOf(self.invokers[t]) }))
	//vc:use entry: viewsAt(self.invokers, len(self.invokers))
	//vc:use 0: aroundStep(Old(rulesOf(self)), j+Old(len(self.invokers))-len(self.invokers), cmd)
	//vc:use 0: leftStep(Old(rulesOf(self)), j+Old(len(self.invokers))-len(self.invokers), cmd)
	//vc:use exit: viewsAt(self.invokers, len(self.invokers))
	//vc:dec 0: len(self.invokers) - j
	return
}

// ruleCmd: a command that adds rules (or takes them away).
//
//vc:spec
func ruleCmd(cmd ParsedCmd) bool {
	return nodeOf(cmd) != nil && nodeOf(cmd).cmd != nil && nodeOf(cmd).cmd.flags.blender
}

//vc:spec
func noRuleCmds(cmds []ParsedCmd) bool {
	return Forall(0, len(cmds), func(i int) bool { Trig(cmds[i]); return !ruleCmd(cmds[i]) })
}

//vc:spec
func isCmd(cmd ParsedCmd) bool { return nodeOf(cmd) != nil }

// altered: the commands of a flow, from number i on, after the rules; each command sees the rules left by the ones before it.
//
//vc:spec opaque
//vc:dec len(cmds) - i
func altered(rules []ruleV, cmds []ParsedCmd, i int) []ParsedCmd {
	if i < 0 || i >= len(cmds) {
		return []ParsedCmd{}
	}
	if !isCmd(cmds[i]) {
		return append([]ParsedCmd{cmds[i]}, altered(rules, cmds, i+1)...)
	}
	return append(around(rules, 0, cmds[i]), altered(left(rules, 0, cmds[i]), cmds, i+1)...)
}

// leftAll: the rules left after a flow.
//
//vc:spec opaque
//vc:dec len(cmds) - i
func leftAll(rules []ruleV, cmds []ParsedCmd, i int) []ruleV {
	if i < 0 || i >= len(cmds) {
		return rules
	}
	if !isCmd(cmds[i]) {
		return leftAll(rules, cmds, i+1)
	}
	return leftAll(left(rules, 0, cmds[i]), cmds, i+1)
}

//vc:lemma
//vc:reveal altered leftAll
func alteredStep(rules []ruleV, cmds []ParsedCmd, i int) {
	Ensures(Implies(i < 0 || i >= len(cmds), len(altered(rules, cmds, i)) == 0 && Eq(leftAll(rules, cmds, i), rules)))
	Ensures(Implies(0 <= i && i < len(cmds) && !isCmd(cmds[i]), Eq(altered(rules, cmds, i), append([]ParsedCmd{cmds[i]}, altered(rules, cmds, i+1)...)) && Eq(leftAll(rules, cmds, i), leftAll(rules, cmds, i+1))))
	Ensures(Implies(0 <= i && i < len(cmds) && isCmd(cmds[i]), Eq(altered(rules, cmds, i), append(around(rules, 0, cmds[i]), altered(left(rules, 0, cmds[i]), cmds, i+1)...)) && Eq(leftAll(rules, cmds, i), leftAll(left(rules, 0, cmds[i]), cmds, i+1))))
}

//vc:contract Blender.Invoke
func _(self *Blender, cc *Cli, env *Env, flow *ParsedCmds) (changed bool) {
	Requires(self != nil && blenderWF(self.invokers) && env != nil && flow != nil && EnvIsWF() && noRuleCmds(flow.Cmds))
	Requires(All(func(c *Cmd) bool { Trig(c.flags); return Implies(Live(c), Live(c.flags)) }))
	Requires(All(func(n *CmdTree) bool { Trig(n.cmd); return Implies(Live(n) && n.cmd != nil, Live(n.cmd)) }))
	Requires(Forall(0, len(flow.Cmds), func(i int) bool { Trig(flow.Cmds[i]); return nodeOf(flow.Cmds[i]) == nil || Live(nodeOf(flow.Cmds[i])) }))
	Modifies(&self.invokers, &flow.Cmds, &flow.GlobalCmdIdx)
	ModifiesField(asReplace(nil).cnt, asRemove(nil).cnt, asInsert(nil).cnt, asAfter(nil).cnt)
	Ensures(blenderWF(self.invokers))
	Ensures(Eq(flow.Cmds, Old(altered(rulesOf(self), flow.Cmds, 0))), "the rules apply to the matching commands, in flow order; the others are unchanged")
	Ensures(Eq(rulesOf(self), Old(leftAll(rulesOf(self), flow.Cmds, 0))), "each rule is left for as often as it did not apply yet")
	Ensures(flow.GlobalCmdIdx == -1 || (0 <= flow.GlobalCmdIdx && flow.GlobalCmdIdx < len(flow.Cmds) && Eq(flow.Cmds[flow.GlobalCmdIdx], Old(flow.Cmds[flow.GlobalCmdIdx]))), "the mark of the command with the global settings stays on it")
	//vc:inv 0: globalCmdIdx == -1 || (0 <= globalCmdIdx && globalCmdIdx < len(result) && Eq(result[globalCmdIdx], flow.Cmds[flow.GlobalCmdIdx]))
	//vc:dec 0: len(flow.Cmds) - i
	//vc:inv 0: 0 <= i && i <= len(flow.Cmds)
	//vc:inv 0: blenderWF(self.invokers) && Eq(flow.Cmds, Old(flow.Cmds)) && flow.GlobalCmdIdx == Old(flow.GlobalCmdIdx)
	//vc:inv 0: Eq(Old(altered(rulesOf(self), flow.Cmds, 0)), append(result, altered(rulesOf(self), Old(flow.Cmds), i)...))
	//vc:inv 0: Eq(Old(leftAll(rulesOf(self), flow.Cmds, 0)), leftAll(rulesOf(self), Old(flow.Cmds), i))
	//vc:inv 0: noRuleCmds(flow.Cmds)
	//vc:use 0: alteredStep(rulesOf(self), Old(flow.Cmds), i)
	//vc:use exit: alteredStep(rulesOf(self), Old(flow.Cmds), Old(len(flow.Cmds)))
	return
}

// ---- the commands that add rules

// parsedOf: what the parser makes of the words of a command.
//
//vc:spec uf
func parsedOf(cmds *CmdTree, abbrs *EnvAbbrs, words []string) (r ParsedCmd) { return }

//vc:trusted the parser is contracted elsewhere; here it matters that it has one result for the words
//vc:contract Cli.ParseCmd
func _(self *Cli, panicOnError bool, cmdAndArgs ...string) (parsedCmd ParsedCmd, ok bool) {
	MayPanic()
	Ensures(Implies(ok, Eq(parsedCmd, parsedOf(self.Cmds, self.EnvAbbrs, cmdAndArgs))) && Implies(panicOnError, ok))
	return
}

//vc:spec
func BlenderOK(b *Blender) bool { return b != nil && blenderWF(b.invokers) }

// RuleAdded: the last rule is new, the others are the ones before it.
//
//vc:spec
func RuleAdded(before []BlenderInvoker, b *Blender, kind int, cc *Cli, target string, with []string, cnt int) bool {
	n := len(before)
	return len(b.invokers) == n+1 && Eq(b.invokers[:n], before) && ruleKind(b.invokers[n]) == kind && ruleCnt(b.invokers[n]) == cnt &&
		ruleOn(b.invokers[n]) == nodeOf(parsedOf(cc.Cmds, cc.EnvAbbrs, []string{target})) &&
		Implies(kind != 2, boxed(ruleWith(b.invokers[n])) == boxed(parsedOf(cc.Cmds, cc.EnvAbbrs, with)))
}

//vc:spec
func RulesIn(b *Blender) []BlenderInvoker { return b.invokers }

// FlowWords: how the reader of package shellwords splits a flow given as one text.
//
//vc:spec uf
func FlowWords(text string) (r []string) { return }

//vc:contract FlowStrToStrs
//vc:trusted package shellwords is not verified; what it reads from what is written is C06's and C18's subject
func _(flowStr string) (r []string) {
	MayPanic()
	Ensures(Eq(r, FlowWords(flowStr)))
	return
}
