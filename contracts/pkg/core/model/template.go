//go:build go1.21

package model

import (
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- templates in flows (C10)

// refHas, refVal: what a reference names: an env value, else a non-empty argument.
//
//vc:spec
func refHas(env *Env, argv ArgVals, key string) bool {
	return envHas(env, key) || Has(argv, key) && len(argv[key].Raw) != 0
}

//vc:spec
func refVal(env *Env, argv ArgVals, key string) string {
	if envHas(env, key) {
		return envGet(env, key).Raw
	}
	return argv[key].Raw
}

// tmplText: the text with its references replaced, those without a value kept.
//
//vc:spec opaque
//vc:dec len(s)
func tmplText(l, r string, env *Env, argv ArgVals, s string) string {
	i := strings.Index(s, l)
	if i < 0 || len(l) == 0 || i+len(l) > len(s) {
		return s
	}
	j := strings.Index(s[i+len(l):], r)
	if j < 0 || i+len(l)+j+len(r) > len(s) {
		return s
	}
	key := s[i+len(l):][:j]
	rest := tmplText(l, r, env, argv, s[i+len(l):][j+len(r):])
	if refHas(env, argv, key) {
		return s[:i] + refVal(env, argv, key) + rest
	}
	return s[:i] + l + key + r + rest
}

// tmplMiss: a reference has no value. tmplRand: a reference asks for a random number.
//
//vc:spec opaque
//vc:dec len(s)
func tmplMiss(l, r string, env *Env, argv ArgVals, s string) bool {
	i := strings.Index(s, l)
	if i < 0 || len(l) == 0 || i+len(l) > len(s) {
		return false
	}
	j := strings.Index(s[i+len(l):], r)
	if j < 0 || i+len(l)+j+len(r) > len(s) {
		return false
	}
	key := s[i+len(l):][:j]
	if !refHas(env, argv, key) && key != "RANDOM" {
		return true
	}
	return tmplMiss(l, r, env, argv, s[i+len(l):][j+len(r):])
}

//vc:spec opaque
//vc:dec len(s)
func tmplRand(l, r string, env *Env, argv ArgVals, s string) bool {
	i := strings.Index(s, l)
	if i < 0 || len(l) == 0 || i+len(l) > len(s) {
		return false
	}
	j := strings.Index(s[i+len(l):], r)
	if j < 0 || i+len(l)+j+len(r) > len(s) {
		return false
	}
	key := s[i+len(l):][:j]
	if !refHas(env, argv, key) && key == "RANDOM" {
		return true
	}
	return tmplRand(l, r, env, argv, s[i+len(l):][j+len(r):])
}

//vc:spec
func tmplCmd(cmd *Cmd) bool {
	return cmd != nil && cmd.owner != nil && cmd.owner.Strs != nil && len(cmd.owner.Strs.FlowTemplateBracketLeft) > 0
}

//vc:contract tryRenderSystemVars
func _(key string) (val string, ok bool) {
	Requires(envWF())
	Ensures(ok == (key == "RANDOM"))
	Ensures(envWF())
	return
}

//vc:contract templateRenderPanic
//vc:trusted it composes a message and panics on every path; run by the harness
func _(in string, cmd *Cmd, targetName string, key string, isMultiply bool) {
	Requires(tmplCmd(cmd))
	Panics(true, "a reference without a value is reported")
}

//vc:lemma
func tmplCut(a, b, v, t string) {
	n := len(a) + len(b) + len(v)
	Ensures((a + b + v + t)[:n] == a+b+v && (a + b + v + t)[n:] == t)
}

// tmplPut: one reference at i of the rest of the text replaced.
//
//vc:lemma
//vc:reveal tmplText tmplMiss tmplRand
func tmplPut(l, r string, env *Env, argv ArgVals, in string, p, i, j int, v string) {
	str := in[p:]
	tail := str[i+len(l):]
	next := in[:p] + str[0:i] + v + tail[j+len(r):]
	n := p + i + len(v)
	ok := 0 <= p && p <= len(in) && 0 <= i && i+len(l) <= len(str) && 0 <= j && j+len(r) <= len(tail) && len(l) > 0 && strings.Index(str, l) == i && strings.Index(tail, r) == j
	Ensures(Implies(ok, next[n:] == tail[j+len(r):]))
	Ensures(Implies(ok && refHas(env, argv, tail[0:j]) && v == refVal(env, argv, tail[0:j]), next[:n]+tmplText(l, r, env, argv, next[n:]) == in[:p]+tmplText(l, r, env, argv, in[p:])))
	Ensures(Implies(ok, tmplMiss(l, r, env, argv, in[p:]) == (!refHas(env, argv, tail[0:j]) && tail[0:j] != "RANDOM" || tmplMiss(l, r, env, argv, next[n:]))))
	Ensures(Implies(ok, tmplRand(l, r, env, argv, in[p:]) == (!refHas(env, argv, tail[0:j]) && tail[0:j] == "RANDOM" || tmplRand(l, r, env, argv, next[n:]))))
	if ok {
		tmplCut(in[:p], str[0:i], v, tail[j+len(r):])
	}
}

// tmplKeep: one reference without a value kept.
//
//vc:lemma
//vc:reveal tmplText tmplMiss tmplRand
func tmplKeep(l, r string, env *Env, argv ArgVals, in string, p, i, j int) {
	str := in[p:]
	tail := str[i+len(l):]
	n := p + i + len(l) + j + len(r)
	ok := 0 <= p && p <= len(in) && 0 <= i && i+len(l) <= len(str) && 0 <= j && j+len(r) <= len(tail) && len(l) > 0 && strings.Index(str, l) == i && strings.Index(tail, r) == j
	Ensures(Implies(ok, in[n:] == tail[j+len(r):] && in[:n] == in[:p]+str[:i]+l+tail[:j]+r))
	Ensures(Implies(ok && !refHas(env, argv, tail[0:j]), in[:n]+tmplText(l, r, env, argv, in[n:]) == in[:p]+tmplText(l, r, env, argv, in[p:])))
	Ensures(Implies(ok, tmplMiss(l, r, env, argv, in[p:]) == (!refHas(env, argv, tail[0:j]) && tail[0:j] != "RANDOM" || tmplMiss(l, r, env, argv, in[n:]))))
	Ensures(Implies(ok, tmplRand(l, r, env, argv, in[p:]) == (!refHas(env, argv, tail[0:j]) && tail[0:j] == "RANDOM" || tmplRand(l, r, env, argv, in[n:]))))
	if ok {
		Assert(str == str[:i]+l+tail)
		Assert(tail == tail[:j]+r+tail[j+len(r):])
		Assert(in == in[:p]+str)
		Assert(in == (in[:p]+str[:i]+l+tail[:j]+r)+tail[j+len(r):])
	}
}

//vc:contract tryRenderTemplate
//vc:reveal tmplText tmplMiss tmplRand
func _(in string, targetName string, cmd *Cmd, argv ArgVals, env *Env, allowError bool) (out string, hasError bool) {
	l := cmd.owner.Strs.FlowTemplateBracketLeft
	r := cmd.owner.Strs.FlowTemplateBracketRight
	Requires(tmplCmd(cmd) && envWF() && env != nil && envOK(env))
	Panics(!allowError && tmplMiss(l, r, env, argv, in), "a reference without a value is reported")
	Ensures(Implies(!tmplRand(l, r, env, argv, in), out == tmplText(l, r, env, argv, in)), "every reference is replaced by its value, and nothing else is changed or expanded")
	Ensures(hasError == tmplMiss(l, r, env, argv, in), "a reference kept without a value is reported")
	Ensures(envWF())
	//vc:inv 0: 0 <= findPos && findPos <= len(in) && envWF()
	//vc:inv 0: Implies(!tmplRand(templBracketLeft, templBracketRight, env, argv, AtLoop(in)), in[:findPos]+tmplText(templBracketLeft, templBracketRight, env, argv, in[findPos:]) == tmplText(templBracketLeft, templBracketRight, env, argv, AtLoop(in)))
	//vc:inv 0: Implies(tmplRand(templBracketLeft, templBracketRight, env, argv, in[findPos:]), tmplRand(templBracketLeft, templBracketRight, env, argv, AtLoop(in)))
	//vc:inv 0: (hasError || tmplMiss(templBracketLeft, templBracketRight, env, argv, in[findPos:])) == tmplMiss(templBracketLeft, templBracketRight, env, argv, AtLoop(in))
	//vc:inv 0: Implies(hasError, allowError)
	//vc:use 0: tmplKeep(templBracketLeft, templBracketRight, env, argv, in, findPos, strings.Index(in[findPos:], templBracketLeft), strings.Index(in[findPos:][strings.Index(in[findPos:], templBracketLeft)+len(templBracketLeft):], templBracketRight))
	//vc:use 0: tmplPut(templBracketLeft, templBracketRight, env, argv, in, findPos, strings.Index(in[findPos:], templBracketLeft), strings.Index(in[findPos:][strings.Index(in[findPos:], templBracketLeft)+len(templBracketLeft):], templBracketRight), refVal(env, argv, in[findPos:][strings.Index(in[findPos:], templBracketLeft)+len(templBracketLeft):][0:strings.Index(in[findPos:][strings.Index(in[findPos:], templBracketLeft)+len(templBracketLeft):], templBracketRight)]))
	//vc:dec 0: len(in) - findPos
	return
}

// ---- a line with one reference to a list: '** head [[*key*]] tail **' (C10)

//vc:spec
func mulKeyAt(in string) int { return strings.Index(in, "[[*") }

//vc:spec
func mulKeyEnd(in string) int {
	return mulKeyAt(in) + 3 + strings.Index(in[mulKeyAt(in)+3:], "*]]")
}

//vc:spec
func mulFrom(in string) int { return strings.Index(in[:mulKeyAt(in)], "**") }

//vc:spec
func mulTo(in string) int { return mulKeyEnd(in) + strings.Index(in[mulKeyEnd(in):], "**") }

//vc:spec
func mulIs(in string) bool {
	return mulKeyAt(in) > 0 && strings.Index(in[mulKeyAt(in)+3:], "*]]") >= 0 && mulFrom(in) >= 0 && strings.Index(in[mulKeyEnd(in):], "**") >= 0
}

//vc:spec
func mulKey(in string) string { return strings.TrimSpace(in[mulKeyAt(in)+3 : mulKeyEnd(in)]) }

//vc:spec
func mulLead(in string) string { return in[:mulFrom(in)] }

//vc:spec
func mulHead(in string) string { return in[mulFrom(in)+2 : mulKeyAt(in)] }

//vc:spec
func mulTail(in string) string { return in[mulKeyEnd(in)+3 : mulTo(in)] }

//vc:spec
func mulRest(in string) string { return in[mulTo(in)+2:] }

//vc:spec
//vc:dec n
func mulLines(head, tail string, vals []string, n int, out []string) []string {
	if n <= 0 {
		return out
	}
	return append(mulLines(head, tail, vals, n-1, out), strings.TrimSpace(head+strings.TrimSpace(vals[n-1])+tail))
}

//vc:spec
func tText(env *Env, argv ArgVals, s string) string { return tmplText("[[", "]]", env, argv, s) }

//vc:spec
func tMiss(env *Env, argv ArgVals, s string) bool { return tmplMiss("[[", "]]", env, argv, s) }

//vc:spec
func tRand(env *Env, argv ArgVals, s string) bool { return tmplRand("[[", "]]", env, argv, s) }

//vc:spec
func mulFirst(env *Env, argv ArgVals, in string) []string {
	if mulFrom(in) != 0 {
		return []string{strings.TrimSpace(tText(env, argv, mulLead(in)))}
	}
	return []string{}
}

//vc:spec
func mulMid(env *Env, argv ArgVals, in string) []string {
	vals := strings.Split(refVal(env, argv, mulKey(in)), ",")
	return mulLines(tText(env, argv, mulHead(in)), tText(env, argv, mulTail(in)), vals, len(vals), mulFirst(env, argv, in))
}

// mulText: the lines the line stands for.
//
//vc:spec
func mulText(env *Env, argv ArgVals, in string) []string {
	if mulTo(in)+2 != len(in) {
		return append(mulMid(env, argv, in), strings.TrimSpace(tText(env, argv, mulRest(in))))
	}
	return mulMid(env, argv, in)
}

//vc:spec
func mulMiss(env *Env, argv ArgVals, in string) bool {
	return tMiss(env, argv, mulLead(in)) || tMiss(env, argv, mulHead(in)) || tMiss(env, argv, mulTail(in)) || tMiss(env, argv, mulRest(in))
}

//vc:spec
func mulRand(env *Env, argv ArgVals, in string) bool {
	return tRand(env, argv, mulLead(in)) || tRand(env, argv, mulHead(in)) || tRand(env, argv, mulTail(in)) || tRand(env, argv, mulRest(in))
}

//vc:spec
func tmplStrs(cmd *Cmd) bool {
	return tmplCmd(cmd) && cmd.owner.Strs.FlowTemplateBracketLeft == "[[" && cmd.owner.Strs.FlowTemplateBracketRight == "]]" && cmd.owner.Strs.FlowTemplateMultiplyMark == "*" && cmd.owner.Strs.ListSep == ","
}

//vc:lemma
func mulMarks(cmd *Cmd) {
	Ensures(Implies(tmplStrs(cmd), cmd.owner.Strs.FlowTemplateBracketLeft+cmd.owner.Strs.FlowTemplateMultiplyMark == "[[*" && cmd.owner.Strs.FlowTemplateMultiplyMark+cmd.owner.Strs.FlowTemplateBracketRight == "*]]" && cmd.owner.Strs.FlowTemplateMultiplyMark+cmd.owner.Strs.FlowTemplateMultiplyMark == "**"))
}

// mulOrder: the parts of the line lie one after the other.
//
//vc:lemma
func mulOrder(in string) {
	Ensures(Implies(mulIs(in), 0 <= mulFrom(in) && mulFrom(in)+2 <= mulKeyAt(in) && mulKeyAt(in)+3 <= mulKeyEnd(in) && mulKeyEnd(in)+3 <= mulTo(in) && mulTo(in)+2 <= len(in)))
	if mulIs(in) {
		k := strings.Index(in[mulKeyEnd(in):], "**")
		s := in[mulKeyEnd(in):]
		Assert(MatchAt(s, "*]]", 0))
		Assert(s[0] == '*' && s[1] == ']' && s[2] == ']')
		Assert(MatchAt(s, "**", k))
		Assert(s[k] == '*' && s[k+1] == '*')
		Assert(k >= 3)
	}
}

//vc:lemma
//vc:reveal tmplText tmplMiss tmplRand
func tmplNone(env *Env, argv ArgVals) {
	Ensures(!tMiss(env, argv, "") && !tRand(env, argv, "") && tText(env, argv, "") == "")
	Assert(strings.Index("", "[[") < 0)
}

//vc:lemma
func mulEnds(env *Env, argv ArgVals, in string) {
	Ensures(Implies(mulIs(in) && mulFrom(in) == 0, !tMiss(env, argv, mulLead(in)) && !tRand(env, argv, mulLead(in))))
	Ensures(Implies(mulIs(in) && mulTo(in)+2 == len(in), !tMiss(env, argv, mulRest(in)) && !tRand(env, argv, mulRest(in))))
	mulOrder(in)
	tmplNone(env, argv)
	if mulIs(in) && mulFrom(in) == 0 {
		Assert(mulLead(in) == "")
	}
	if mulIs(in) && mulTo(in)+2 == len(in) {
		Assert(mulRest(in) == "")
	}
}

//vc:lemma
func mulDone(env *Env, argv ArgVals, in, head, tail string, vals, first, out []string) {
	ok := mulIs(in) && !mulRand(env, argv, in) &&
		Implies(!tRand(env, argv, mulHead(in)), head == tText(env, argv, mulHead(in))) &&
		Implies(!tRand(env, argv, mulTail(in)), tail == tText(env, argv, mulTail(in))) &&
		Implies(!tRand(env, argv, mulLead(in)), Eq(first, mulFirst(env, argv, in))) &&
		Eq(vals, strings.Split(refVal(env, argv, mulKey(in)), ",")) &&
		Eq(out, mulLines(head, tail, vals, len(vals), first))
	Ensures(Implies(ok && mulTo(in)+2 != len(in), Eq(append(out, strings.TrimSpace(tText(env, argv, mulRest(in)))), mulText(env, argv, in))))
	Ensures(Implies(ok && mulTo(in)+2 == len(in), Eq(out, mulText(env, argv, in))))
	if ok {
		Assert(Eq(out, mulMid(env, argv, in)))
	}
}

//vc:contract tryRenderMultiplyTemplate
func _(in string, targetName string, cmd *Cmd, argv ArgVals, env *Env, allowError bool) (out []string, isMultiply bool, hasError bool) {
	Requires(tmplStrs(cmd) && envWF() && env != nil && envOK(env))
	Panics(!allowError && mulIs(in) && (!refHas(env, argv, mulKey(in)) || mulMiss(env, argv, in)), "a reference without a value is reported")
	Ensures(isMultiply == mulIs(in))
	Ensures(Implies(mulIs(in) && refHas(env, argv, mulKey(in)) && !mulRand(env, argv, in), Eq(out, mulText(env, argv, in))), "a reference to a list gives one line for each value, in order")
	Ensures(Implies(mulIs(in) && !refHas(env, argv, mulKey(in)) && !tRand(env, argv, in), Eq(out, []string{tText(env, argv, in)})), "a list without a value is kept as it is")
	Ensures(Implies(mulIs(in), hasError == (!refHas(env, argv, mulKey(in)) || mulMiss(env, argv, in))), "a reference kept without a value is reported")
	Ensures(envWF())
	//vc:use entry: mulMarks(cmd)
	//vc:use entry: mulEnds(env, argv, in)
	//vc:inv 0: hasError == (tMiss(env, argv, mulLead(in)) || tMiss(env, argv, mulHead(in)) || tMiss(env, argv, mulTail(in)))
	//vc:use entry: mulOrder(in)
	//vc:inv 0: Eq(out, mulLines(head, tail, vals, Iter(), AtLoop(out)))
	//vc:inv 0: Eq(vals, strings.Split(refVal(env, argv, mulKey(in)), ","))
	//vc:inv 0: Implies(!tRand(env, argv, mulHead(in)), head == tText(env, argv, mulHead(in)))
	//vc:inv 0: Implies(!tRand(env, argv, mulTail(in)), tail == tText(env, argv, mulTail(in)))
	//vc:inv 0: Implies(!tRand(env, argv, mulLead(in)), Eq(AtLoop(out), mulFirst(env, argv, in)))
	//vc:use 0: mulDone(env, argv, in, head, tail, vals, AtLoop(out), out)
	return
}

//vc:spec
func lineText(env *Env, argv ArgVals, in string) []string {
	if mulIs(in) && refHas(env, argv, mulKey(in)) {
		return mulText(env, argv, in)
	}
	return []string{tText(env, argv, in)}
}

//vc:spec
func lineMiss(env *Env, argv ArgVals, in string) bool {
	if mulIs(in) {
		return !refHas(env, argv, mulKey(in)) || mulMiss(env, argv, in)
	}
	return tMiss(env, argv, in)
}

//vc:spec
func lineRand(env *Env, argv ArgVals, in string) bool {
	if mulIs(in) && refHas(env, argv, mulKey(in)) {
		return mulRand(env, argv, in)
	}
	return tRand(env, argv, in)
}

//vc:contract renderTemplateStr
func _(in string, targetName string, cmd *Cmd, argv ArgVals, env *Env, allowError bool) (rendered []string, fullyRendered bool) {
	Requires(tmplStrs(cmd) && envWF() && env != nil && envOK(env))
	Panics(!allowError && lineMiss(env, argv, in), "a reference without a value is reported")
	Ensures(Implies(!lineRand(env, argv, in), Eq(rendered, lineText(env, argv, in))), "every reference of a line is replaced by its value or values")
	Ensures(fullyRendered == !lineMiss(env, argv, in), "a reference kept without a value is reported")
	Ensures(envWF())
	return
}

//vc:spec
func isComment(line string) bool { return strings.HasPrefix(strings.TrimSpace(line), "#") }

//vc:spec
//vc:dec n
func linesText(env *Env, argv ArgVals, in []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	if isComment(in[n-1]) {
		return linesText(env, argv, in, n-1)
	}
	return CatAll(linesText(env, argv, in, n-1), lineText(env, argv, in[n-1]), len(lineText(env, argv, in[n-1])))
}

// CatAll: xs and the first n of ys.
//
//vc:spec
//vc:dec n
func CatAll(xs, ys []string, n int) []string {
	if n <= 0 {
		return xs
	}
	return append(CatAll(xs, ys, n-1), ys[n-1])
}

//vc:spec
func linesMiss(env *Env, argv ArgVals, in []string, n int) bool {
	return Exists(0, n, func(i int) bool { Trig(in[i]); return !isComment(in[i]) && lineMiss(env, argv, in[i]) })
}

//vc:spec
func linesRand(env *Env, argv ArgVals, in []string, n int) bool {
	return Exists(0, n, func(i int) bool { Trig(in[i]); return !isComment(in[i]) && lineRand(env, argv, in[i]) })
}

//vc:contract RenderTemplateStrLines
func _(in []string, targetName string, cmd *Cmd, argv ArgVals, env *Env, allowError bool) (out []string, fullyRendered bool) {
	Requires(tmplStrs(cmd) && envWF() && env != nil && envOK(env))
	Panics(!allowError && linesMiss(env, argv, in, len(in)), "a reference without a value is reported")
	Ensures(Implies(!linesRand(env, argv, in, len(in)), Eq(out, linesText(env, argv, in, len(in)))), "every reference of every line is replaced, the lines stay in order")
	Ensures(fullyRendered == !linesMiss(env, argv, in, len(in)), "a reference kept without a value is reported")
	Ensures(envWF())
	//vc:inv 0: envWF()
	//vc:inv 0: Implies(!linesRand(env, argv, in, len(in)), Eq(out, linesText(env, argv, in, Iter())))
	//vc:inv 0: fullyRendered == !linesMiss(env, argv, in, Iter())
	//vc:inv 0: Implies(!allowError, !linesMiss(env, argv, in, Iter()))
	//vc:inv 1: Eq(out, CatAll(AtLoop(out), rendereds, Iter()))
	return
}
