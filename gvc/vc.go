package main

// Core data structures of the symbolic executor.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Node struct {
	parents []*Node
	facts   []string
}

type State struct {
	pc    string
	vars  map[types.Object]string
	heap  map[string]string
	alloc string
	node  *Node
	hp    string // prefix of the initial heap's symbols
}

func (s *State) clone() *State {
	v := make(map[types.Object]string, len(s.vars))
	for k, x := range s.vars {
		v[k] = x
	}
	h := make(map[string]string, len(s.heap))
	for k, x := range s.heap {
		h[k] = x
	}
	return &State{s.pc, v, h, s.alloc, s.node, s.hp}
}

type Obl struct {
	Name   string // stable name: function / kind / clause
	Kind   string // post, pre, safety, inv-init, inv-keep, frame, dec, alias, panic, cover
	Pos    string
	Inv    string // houdini key of the invariant instance
	node   *Node
	pc     string
	goal   string
	status string // unsat, unknown, sat, timeout
	solver string
	ms     int64
	query  string
}

type WLog struct {
	vars  map[types.Object]bool
	comps map[string]map[string]bool
	all   bool
	alloc bool
}

// newHP: a heap of which nothing is known.
func (vc *VC) newHP() string {
	vc.nsym++
	hp := fmt.Sprintf("HX%d_", vc.nsym)
	vc.hps = append(vc.hps, hp)
	for _, c := range sortedKeys(vc.comps) {
		vc.declComp(c, hp)
	}
	return hp
}

func (vc *VC) declComp(name, hp string) {
	sort := vc.comps[name]
	init := hp + mangle(name)
	vc.decls = append(vc.decls, fmt.Sprintf("(declare-const %s %s)", init, sort))
	if strings.HasPrefix(name, "Mdom_") && (hp != "HO_" || vc.c != nil && vc.c.TwoState) {
		vc.globalFacts = append(vc.globalFacts, fmt.Sprintf("(= (select %s 0) %s)", init, vc.emptySet(sort)))
	}
}

func (vc *VC) setAlloc(st *State, a string) {
	st.alloc = a
	for _, l := range vc.logs {
		l.alloc = true
	}
}

type loopCtx struct {
	label    string
	brk, cnt []*State
	isSwitch bool
	iter     types.Object
	seen     types.Object // map range: seen set object
	seenSort string
	pre      *State // state at loop entry
}

type Frame struct {
	fd       *FuncDecl
	lit      *ast.FuncLit
	c        *Contract
	results  []types.Object
	resTypes []types.Type
	returns  []*State
	retPos   []token.Pos
	loops    []*loopCtx
	parent   *Frame
	top      bool
	entry    *State
	defers   []*ast.CallExpr
	params   []types.Object
	clob     map[types.Object]bool
	ordinal  map[ast.Node]int
	pkg      *types.Package
	rename   map[string]string
	ghost    bool
	alias    map[types.Object]ast.Expr // slice params of inlined functions -> argument expression
	aliasX   *X
}

type VC struct {
	w             *World
	reg           *Registry
	c             *Contract
	decls         []string
	nsym          int
	obls          []*Obl
	dry           int
	logs          []*WLog
	assume        map[string]bool
	dropped       map[string]bool
	pool          bool
	warns         map[string]bool
	comps         map[string]string // comp -> sort
	mods          []modItem
	modsAll       bool
	depth         int
	closures      map[string]*closure
	specRecHook   func(x *X, sp *SpecFn, args []string, conds []string)
	usedContracts map[*Contract]bool
	inlined       map[string]bool
	globalFacts   []string
	loopKeys      map[string]int
	entry         *State
	topFr         *Frame
	boxed         map[types.Object]bool
	scanned       map[ast.Node]bool
	caseBudget    int
	readLog       map[string]bool
	hps           []string // symbol prefixes of heaps after everything was overwritten
	oblCount      map[string]int
	covers        []*Obl
	fuel          map[*SpecFn]int
	measure0      []string
	entryArgs     []string
}

type closure struct {
	lit *ast.FuncLit
	fr  *Frame
	x   *X
}

type modItem struct {
	comp string
	ref  string // "" = whole component
}

type unsupported struct{ msg string }

func (vc *VC) unsup(n ast.Node, f string, a ...any) {
	p := ""
	if n != nil {
		p = vc.w.pos(n.Pos()) + ": "
	}
	panic(unsupported{p + fmt.Sprintf(f, a...)})
}

func (vc *VC) fresh(hint, sort string) string {
	vc.nsym++
	n := fmt.Sprintf("%s!%d", mangle(hint), vc.nsym)
	vc.decls = append(vc.decls, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}

func (vc *VC) fact(st *State, f string) {
	if f == "" || f == "true" {
		return
	}
	if st.pc != "true" {
		f = fmt.Sprintf("(=> %s %s)", st.pc, f)
	}
	st.node.facts = append(st.node.facts, f)
}

func (vc *VC) rawFact(st *State, f string) {
	st.node.facts = append(st.node.facts, f)
}

// name gives a short name to a term.
func (vc *VC) name(st *State, hint, term, sort string) string {
	if len(term) < 28 {
		return term
	}
	n := vc.fresh(hint, sort)
	vc.rawFact(st, fmt.Sprintf("(= %s %s)", n, term))
	return n
}

func (vc *VC) branch(st *State, cond string) *State {
	n := st.clone()
	n.node = &Node{parents: []*Node{st.node}}
	if cond == "true" {
		return n
	}
	pc := vc.fresh("pc", "Bool")
	n.pc = pc
	if st.pc == "true" {
		vc.rawFact(n, fmt.Sprintf("(= %s %s)", pc, cond))
	} else {
		vc.rawFact(n, fmt.Sprintf("(= %s (and %s %s))", pc, st.pc, cond))
	}
	return n
}

func not(c string) string {
	if c == "true" {
		return "false"
	}
	if c == "false" {
		return "true"
	}
	return "(not " + c + ")"
}

func and(cs ...string) string {
	var r []string
	for _, c := range cs {
		if c == "true" || c == "" {
			continue
		}
		r = append(r, c)
	}
	if len(r) == 0 {
		return "true"
	}
	if len(r) == 1 {
		return r[0]
	}
	return "(and " + strings.Join(r, " ") + ")"
}

func or(cs ...string) string {
	if len(cs) == 0 {
		return "false"
	}
	if len(cs) == 1 {
		return cs[0]
	}
	return "(or " + strings.Join(cs, " ") + ")"
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	return "(=> " + a + " " + b + ")"
}

func (vc *VC) compSort(comp string) string { return vc.comps[comp] }

// merge joins states; parentPC is the pc to use when the states cover their parent completely ("" = disjunction).
func (vc *VC) merge(states []*State, parentPC string, objSort func(types.Object) string) *State {
	var live []*State
	for _, s := range states {
		if s != nil {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	n := &State{vars: map[types.Object]string{}, heap: map[string]string{}, node: &Node{}, hp: live[0].hp}
	var pcs []string
	for _, s := range live {
		n.node.parents = append(n.node.parents, s.node)
		pcs = append(pcs, s.pc)
	}
	if parentPC != "" {
		n.pc = parentPC
	} else {
		n.pc = vc.fresh("pc", "Bool")
		vc.rawFact(n, fmt.Sprintf("(= %s %s)", n.pc, or(pcs...)))
	}
	vc.rawFact(n, imp(n.pc, or(pcs...)))
	// variables
	var objs []types.Object
	for o := range live[0].vars {
		ok := true
		for _, s := range live[1:] {
			if _, has := s.vars[o]; !has {
				ok = false
				break
			}
		}
		if ok {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool {
		if objs[i].Pos() != objs[j].Pos() {
			return objs[i].Pos() < objs[j].Pos()
		}
		return objs[i].Name() < objs[j].Name()
	})
	for _, o := range objs {
		v := live[0].vars[o]
		same := true
		for _, s := range live[1:] {
			if s.vars[o] != v {
				same = false
				break
			}
		}
		if same {
			n.vars[o] = v
			continue
		}
		m := vc.fresh(o.Name(), objSort(o))
		for _, s := range live {
			vc.rawFact(n, imp(s.pc, fmt.Sprintf("(= %s %s)", m, s.vars[o])))
		}
		n.vars[o] = m
	}
	for _, s := range live[1:] {
		if s.hp != n.hp {
			n.hp = vc.newHP()
			break
		}
	}
	comps := map[string]bool{}
	for _, s := range live {
		for c := range s.heap {
			comps[c] = true
		}
	}
	for _, c := range sortedKeys(comps) {
		same := true
		v := vc.hget(live[0], c)
		for _, s := range live[1:] {
			if vc.hget(s, c) != v {
				same = false
			}
		}
		if same {
			n.heap[c] = v
			continue
		}
		m := vc.fresh("H_"+c, vc.comps[c])
		for _, s := range live {
			vc.rawFact(n, imp(s.pc, fmt.Sprintf("(= %s %s)", m, vc.hget(s, c))))
		}
		n.heap[c] = m
		vc.heapFacts(n, c)
	}
	al := live[0].alloc
	same := true
	for _, s := range live[1:] {
		if s.alloc != al {
			same = false
		}
	}
	if same {
		n.alloc = al
	} else {
		m := vc.fresh("alloc", "Int")
		for _, s := range live {
			vc.rawFact(n, imp(s.pc, fmt.Sprintf("(= %s %s)", m, s.alloc)))
		}
		n.alloc = m
	}
	return n
}

// ---- heap

func (vc *VC) comp(name, sort string) string {
	if _, ok := vc.comps[name]; !ok {
		vc.comps[name] = sort
		for _, hp := range append([]string{"H0_", "HO_"}, vc.hps...) {
			vc.declComp(name, hp)
		}
	}
	return name
}

func (vc *VC) emptySet(mdomSort string) string {
	inner := strings.TrimSuffix(strings.TrimPrefix(mdomSort, "(Array Int "), ")")
	return fmt.Sprintf("((as const %s) false)", inner)
}

func (vc *VC) hget(st *State, comp string) string {
	if vc.readLog != nil {
		vc.readLog[comp] = true
	}
	if v, ok := st.heap[comp]; ok {
		return v
	}
	if st.hp != "" {
		return st.hp + mangle(comp)
	}
	return "H0_" + mangle(comp)
}

func (vc *VC) heapFacts(st *State, comp string) {
	if strings.HasPrefix(comp, "Mdom_") {
		vc.rawFact(st, fmt.Sprintf("(= (select %s 0) %s)", vc.hget(st, comp), vc.emptySet(vc.comps[comp])))
	}
}

func (vc *VC) hset(st *State, comp, ref, term string) {
	for _, l := range vc.logs {
		if l.comps[comp] == nil {
			l.comps[comp] = map[string]bool{}
		}
		l.comps[comp][ref] = true
	}
	st.heap[comp] = vc.name(st, "H_"+comp, term, vc.comps[comp])
}

func (vc *VC) hstore(st *State, comp, ref, val string) {
	vc.hset(st, comp, ref, fmt.Sprintf("(store %s %s %s)", vc.hget(st, comp), ref, val))
}

func (vc *VC) havocComp(st *State, comp, ref string) {
	s := vc.comps[comp]
	if ref == "" {
		n := vc.fresh("H_"+comp, s)
		for _, l := range vc.logs {
			if l.comps[comp] == nil {
				l.comps[comp] = map[string]bool{}
			}
			l.comps[comp][""] = true
		}
		st.heap[comp] = n
		vc.heapFacts(st, comp)
		return
	}
	es := arrElem(s)
	v := vc.fresh("hv", es)
	vc.hstore(st, comp, ref, v)
}

// arrElem gives the element sort of "(Array X Y)".
func arrElem(s string) string {
	in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[i+1:]
			}
		}
	}
	return in
}

func arrKey(s string) string {
	in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i]
			}
		}
	}
	return in
}

func (vc *VC) fieldComp(si *StructInfo, i int) string {
	return vc.comp("F_"+strings.TrimPrefix(vc.reg.sel(si, i), "f_"), "(Array Int "+si.FSorts[i]+")")
}

func (vc *VC) mapComps(t types.Type) (dom, val, ks, vs string) {
	m := t.Underlying().(*types.Map)
	ks = vc.reg.sortOf(m.Key())
	vs = vc.reg.sortOf(m.Elem())
	sfx := mangle(ks) + "__" + mangle(vs)
	dom = vc.comp("Mdom_"+sfx, fmt.Sprintf("(Array Int (Array %s Bool))", ks))
	val = vc.comp("Mval_"+sfx, fmt.Sprintf("(Array Int (Array %s %s))", ks, vs))
	return
}

func (vc *VC) cellComp(t types.Type) string {
	s := vc.reg.sortOf(t)
	return vc.comp("Cell_"+mangle(s), "(Array Int "+s+")")
}

func (vc *VC) globalComp(o types.Object) string {
	return vc.comp("G_"+mangle(o.Pkg().Name()+"_"+o.Name()), vc.reg.sortOf(o.Type()))
}

func (vc *VC) ghostComp(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	ks := vc.reg.sortOf(sig.Params().At(0).Type())
	return vc.comp("GF_"+mangle(f.Pkg().Name()+"_"+f.Name()), fmt.Sprintf("(Array %s %s)", ks, vc.reg.sortOf(sig.Results().At(0).Type())))
}

// rtag is the allocation type of references to t (a pointer's element type or a map type).
func (vc *VC) rtag(t types.Type) int {
	if _, isMap := t.Underlying().(*types.Map); isMap {
		t = t.Underlying()
	}
	k := "ref " + typeName(t)
	id, ok := vc.reg.tagIDs[k]
	if !ok {
		id = len(vc.reg.tagIDs) + 1
		vc.reg.tagIDs[k] = id
	}
	return id
}

func refType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u
	}
	return nil
}

func (vc *VC) alloc(st *State, t types.Type) string {
	r := vc.alloc1(st)
	if t != nil {
		vc.rawFact(st, fmt.Sprintf("(= (rtag %s) %d)", r, vc.rtag(t)))
	}
	return r
}

func (vc *VC) alloc1(st *State) string {
	r := vc.fresh("ref", "Int")
	vc.rawFact(st, fmt.Sprintf("(= %s %s)", r, st.alloc))
	na := vc.fresh("alloc", "Int")
	vc.rawFact(st, fmt.Sprintf("(= %s (+ %s 1))", na, st.alloc))
	vc.rawFact(st, fmt.Sprintf("(> %s 0)", r))
	vc.setAlloc(st, na)
	return r
}

// allocStruct: fresh object whose fields have the given values (prophetic initialisation).
func (vc *VC) allocStruct(st *State, si *StructInfo, vals []string) string {
	r := vc.alloc(st, si.Ty)
	for i := range si.Fields {
		c := vc.fieldComp(si, i)
		vc.fact(st, fmt.Sprintf("(= (select %s %s) %s)", vc.hget(st, c), r, vals[i]))
	}
	return r
}

func (vc *VC) allocMap(st *State, t types.Type) string {
	r := vc.alloc(st, t)
	dom, _, ks, _ := vc.mapComps(t)
	vc.fact(st, fmt.Sprintf("(= (select %s %s) ((as const (Array %s Bool)) false))", vc.hget(st, dom), r, ks))
	return r
}

// typeFacts: what holds for every value of a type.
func (vc *VC) typeFacts(st *State, t types.Type, v string) {
	if f := vc.typeFact(st, t, v, 0); f != "true" {
		vc.fact(st, f)
	}
}

func (vc *VC) typeFact(st *State, t types.Type, v string, d int) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", v, v)
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return fmt.Sprintf("(<= 0 %s)", v)
		}
	case *types.Pointer, *types.Map:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s) (=> (not (= %s 0)) (= (rtag %s) %d)))", v, v, st.alloc, v, v, vc.rtag(refType(t)))
	case *types.Struct:
		if d > 1 {
			return "true"
		}
		si := vc.reg.structOf(t)
		var fs []string
		for i, f := range si.Fields {
			fs = append(fs, vc.typeFact(st, f.Type(), fmt.Sprintf("(%s %s)", vc.reg.sel(si, i), v), d+1))
		}
		return and(fs...)
	}
	return "true"
}

func (vc *VC) obl(st *State, kind, name string, pos token.Pos, goal string) *Obl {
	if vc.dry > 0 {
		return nil
	}
	o := &Obl{Kind: kind, Name: name, Pos: vc.w.pos(pos), node: st.node, pc: st.pc, goal: goal}
	// the node is still growing: freeze it by splitting
	st.node = &Node{parents: []*Node{st.node}}
	if goal == "true" {
		o.status = "unsat"
		o.solver = "trivial"
	}
	vc.obls = append(vc.obls, o)
	return o
}

// check = obligation, then assumed.
func (vc *VC) check(st *State, kind, name string, pos token.Pos, goal string) {
	if goal == "true" {
		return
	}
	vc.obl(st, kind, name, pos, goal)
	vc.fact(st, goal)
}

func (vc *VC) logVar(o types.Object) {
	for _, l := range vc.logs {
		l.vars[o] = true
	}
}

func (vc *VC) warn(f string, a ...any) {
	vc.warns[fmt.Sprintf(f, a...)] = true
}

func collectFacts(n *Node, seen map[*Node]bool, out *[]string) {
	if seen[n] {
		return
	}
	seen[n] = true
	for _, p := range n.parents {
		collectFacts(p, seen, out)
	}
	*out = append(*out, n.facts...)
}
