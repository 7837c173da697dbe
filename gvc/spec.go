package main

// Specification language: spec functions, intrinsics, external axioms, lemma axioms.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (x *X) bind(o types.Object, v string) {
	nb := make(map[types.Object]string, len(x.bound)+1)
	for k, b := range x.bound {
		nb[k] = b
	}
	nb[o] = v
	x.bound = nb
}

func (x *X) oldX() *X {
	y := *x
	if x.old != nil {
		y.st = x.old
	}
	return &y
}

// intrinsic evaluates the vstd primitives.
func (x *X) intrinsic(e *ast.CallExpr, name string) ([]string, bool) {
	vc := x.vc
	one := func(s string) ([]string, bool) { return []string{s}, true }
	switch name {
	case "Old":
		y := x.oldX()
		return one(y.expr(e.Args[0]))
	case "AtLoop":
		if x.loop == nil {
			vc.unsup(e, "AtLoop outside a loop annotation")
		}
		y := *x
		y.st = x.loop.pre
		return one(y.expr(e.Args[0]))
	case "Implies":
		return one(fmt.Sprintf("(=> %s %s)", x.bool(e.Args[0]), x.bool(e.Args[1])))
	case "Iff":
		return one(fmt.Sprintf("(= %s %s)", x.bool(e.Args[0]), x.bool(e.Args[1])))
	case "Ite":
		t := x.typ(e)
		return one(fmt.Sprintf("(ite %s %s %s)", x.bool(e.Args[0]), x.exprTo(e.Args[1], t), x.exprTo(e.Args[2], t)))
	case "Eq":
		t := x.typ(e.Args[0])
		return one(vc.reg.eqT(vc.reg.sortOf(t), x.expr(e.Args[0]), x.exprTo(e.Args[1], t)))
	case "Has":
		t := x.typ(e.Args[0])
		m := x.expr(e.Args[0])
		k := x.exprTo(e.Args[1], t.Underlying().(*types.Map).Key())
		dom, _, _, _ := vc.mapComps(t)
		return one(fmt.Sprintf("(select (select %s %s) %s)", vc.hget(x.st, dom), m, k))
	case "Fresh":
		p := x.expr(e.Args[0])
		al := "0"
		if x.old != nil {
			al = x.old.alloc
		}
		tg := "true"
		if rt := refType(x.typ(e.Args[0])); rt != nil {
			tg = fmt.Sprintf("(= (rtag %s) %d)", p, vc.rtag(rt))
		}
		return one(fmt.Sprintf("(and (> %s 0) (>= %s %s) (< %s %s) %s)", p, p, al, p, x.st.alloc, tg))
	case "Addr":
		return one(x.expr(e.Args[0]))
	case "Live":
		p := x.expr(e.Args[0])
		if rt := refType(x.typ(e.Args[0])); rt != nil {
			return one(fmt.Sprintf("(and (< 0 %s) (< %s %s) (= (rtag %s) %d))", p, p, x.st.alloc, p, vc.rtag(rt)))
		}
		vc.unsup(e, "Live of %s", x.typ(e.Args[0]))
	case "Iter":
		l := x.loop
		n := 0
		if len(e.Args) > 0 {
			if tv := vc.w.info.Types[e.Args[0]]; tv.Value != nil {
				fmt.Sscanf(tv.Value.ExactString(), "%d", &n)
			}
		}
		if len(x.outer) > 0 {
			// x.outer includes the loop itself as its last element
			i := len(x.outer) - 1 - n
			if i < 0 {
				vc.unsup(e, "Iter(%d): no such loop", n)
			}
			l = x.outer[i]
		}
		if l == nil || l.iter == nil {
			vc.unsup(e, "Iter outside a loop")
		}
		v, ok := x.st.vars[l.iter]
		if !ok {
			vc.unsup(e, "Iter has no value")
		}
		return one(v)
	case "Seen":
		l := x.loop
		for i := len(x.outer) - 1; i >= 0 && (l == nil || l.seen == nil); i-- {
			l = x.outer[i]
		}
		if l == nil || l.seen == nil {
			vc.unsup(e, "Seen outside a map range")
		}
		k := x.expr(e.Args[0])
		return one(fmt.Sprintf("(select %s %s)", x.st.vars[l.seen], k))
	case "Forall", "Exists":
		lo, hi := x.expr(e.Args[0]), x.expr(e.Args[1])
		return one(x.quant(e, name == "Forall", e.Args[2], lo, hi))
	case "ForallStr", "ForallInt", "All", "Some", "ExistsStr", "ExistsInt":
		return one(x.quant(e, name == "All" || strings.HasPrefix(name, "Forall"), e.Args[0], "", ""))
	case "MatchAt":
		return one(fmt.Sprintf("(MatchAt %s %s %s)", x.expr(e.Args[0]), x.expr(e.Args[1]), x.expr(e.Args[2])))
	case "Itoa":
		vc.reg.ensureItoa()
		return one(fmt.Sprintf("(itoa %s)", x.expr(e.Args[0])))
	case "MapEq":
		t := x.typ(e.Args[0])
		a, b := x.expr(e.Args[0]), x.expr(e.Args[1])
		dom, val, ks, vs := vc.mapComps(t)
		d, v := vc.hget(x.st, dom), vc.hget(x.st, val)
		return one(fmt.Sprintf("(and (= (select %s %s) (select %s %s)) (forall ((k %s)) (! (=> (select (select %s %s) k) %s) :pattern ((select (select %s %s) k)) :pattern ((select (select %s %s) k)))))", d, a, d, b, ks, d, a,
			vc.reg.eqT(vs, fmt.Sprintf("(select (select %s %s) k)", v, a), fmt.Sprintf("(select (select %s %s) k)", v, b)), v, a, v, b))
	case "MapSame": // content of the map unchanged since Old
		t := x.typ(e.Args[0])
		a := x.expr(e.Args[0])
		dom, val, _, _ := vc.mapComps(t)
		y := x.oldX()
		return one(fmt.Sprintf("(and (= (select %s %s) (select %s %s)) (= (select %s %s) (select %s %s)))", vc.hget(x.st, dom), a, vc.hget(y.st, dom), a, vc.hget(x.st, val), a, vc.hget(y.st, val), a))
	case "TypeIs":
		t := x.typ(e.Args[1])
		if isIface(t) {
			k := "impl_" + mangle(typeName(t))
			vc.declFun(k, "(Int) Bool")
			return one(fmt.Sprintf("(%s (tag_of %s))", k, x.expr(e.Args[0])))
		}
		_, _, tag := vc.reg.box(t)
		return one(fmt.Sprintf("(= (tag_of %s) %d)", x.expr(e.Args[0]), tag))
	case "Unbox":
		t := x.typ(e.Args[1])
		if isIface(t) {
			return one(x.expr(e.Args[0]))
		}
		_, unbox, _ := vc.reg.box(t)
		return one(fmt.Sprintf("(%s %s)", unbox, x.expr(e.Args[0])))
	case "Assert", "Trig", "When":
		if x.spec {
			x.ghostCall(e)
			return nil, true
		}
	case "Requires", "Ensures", "Modifies", "ModifiesAll", "ModifiesField", "ModifiesMaps", "Clobbers", "Panics", "MustPanic", "MayPanic", "Decreases", "NoAlloc", "Always", "OnPanic", "ReadOnly":
		return nil, true
	}
	return nil, false
}

func (x *X) quant(e *ast.CallExpr, all bool, fe ast.Expr, lo, hi string) string {
	vc := x.vc
	fl, ok := ast.Unparen(fe).(*ast.FuncLit)
	if !ok {
		vc.unsup(e, "quantifier needs a function literal")
	}
	y := *x
	var vars, guards []string
	var names []string
	for _, f := range fl.Type.Params.List {
		for _, n := range f.Names {
			o := vc.w.info.Defs[n]
			vc.nsym++
			q := fmt.Sprintf("%s_q%d", mangle(n.Name), vc.nsym)
			so := vc.reg.sortOf(o.Type())
			vars = append(vars, fmt.Sprintf("(%s %s)", q, so))
			names = append(names, q)
			y.bind(o, q)
			if lo != "" {
				guards = append(guards, fmt.Sprintf("(<= %s %s)", lo, q), fmt.Sprintf("(< %s %s)", q, hi))
			}
			if vc.specRecHook != nil {
				vc.decls = append(vc.decls, fmt.Sprintf("(declare-const %s %s)", q, so))
			}
		}
	}
	if y.conds != nil {
		y.conds = append(append([]string{}, y.conds...), guards...)
	}
	// optional Trig(...) statement as the first statement
	body := fl.Body.List
	var pats []string
	for len(body) > 1 {
		es, ok := body[0].(*ast.ExprStmt)
		if !ok {
			break
		}
		c, ok := es.X.(*ast.CallExpr)
		if !ok {
			break
		}
		fn := calleeOf(vc.w.info, c)
		if fn == nil || fn.Name() != "Trig" {
			break
		}
		var ps []string
		for _, a := range c.Args {
			ps = append(ps, trigTerm(y.expr(a)))
		}
		pats = append(pats, ":pattern ("+strings.Join(ps, " ")+")")
		body = body[1:]
	}
	b := y.specBody(body, types.Typ[types.Bool], e)
	op := "forall"
	if all {
		if len(guards) > 0 {
			b = fmt.Sprintf("(=> %s %s)", and(guards...), b)
		}
	} else {
		op = "exists"
		b = and(append(guards, b)...)
	}
	if len(pats) > 0 {
		b = "(! " + b + " " + strings.Join(pats, " ") + ")"
	}
	return fmt.Sprintf("(%s (%s) %s)", op, strings.Join(vars, " "), b)
}

// trigTerm: a conditional is not allowed in a pattern; of a map read the stored value is taken.
func trigTerm(t string) string {
	for strings.HasPrefix(t, "(ite ") {
		as := sexpArgs(t)
		if len(as) != 4 {
			break
		}
		t = as[2]
	}
	return t
}

// sexpArgs: the head and arguments of a term.
func sexpArgs(t string) (r []string) {
	depth, from := 0, 1
	for i := 1; i < len(t)-1; i++ {
		switch t[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				if i > from {
					r = append(r, t[from:i])
				}
				from = i + 1
			}
		}
	}
	return append(r, t[from:len(t)-1])
}

// specBody turns the body of a specification function into a term.
func (x *X) specBody(list []ast.Stmt, rt types.Type, at ast.Node) string {
	vc := x.vc
	if len(list) == 0 {
		vc.unsup(at, "specification function falls off its end")
	}
	rest := list[1:]
	switch s := list[0].(type) {
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			vc.unsup(s, "specification functions return one value")
		}
		return x.exprTo(s.Results[0], rt)
	case *ast.BlockStmt:
		return x.specBody(append(append([]ast.Stmt{}, s.List...), rest...), rt, at)
	case *ast.AssignStmt:
		y := *x
		if len(s.Lhs) != len(s.Rhs) {
			rs := y.multi(s.Rhs[0], len(s.Lhs))
			for i, l := range s.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
					y.bind(y.obj(id), rs[i])
				}
			}
			return y.specBody(rest, rt, at)
		}
		var vs []string
		for i := range s.Rhs {
			id := s.Lhs[i].(*ast.Ident)
			if s.Tok == token.DEFINE || s.Tok == token.ASSIGN {
				if id.Name == "_" {
					vs = append(vs, "")
					continue
				}
				vs = append(vs, y.exprTo(s.Rhs[i], y.obj(id).Type()))
			} else {
				vc.unsup(s, "assignment operator in specification")
			}
		}
		for i := range s.Lhs {
			if id := s.Lhs[i].(*ast.Ident); id.Name != "_" {
				y.bind(y.obj(id), vs[i])
			}
		}
		return y.specBody(rest, rt, at)
	case *ast.DeclStmt:
		y := *x
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			if v, ok := sp.(*ast.ValueSpec); ok {
				for i, n := range v.Names {
					o := vc.w.info.Defs[n]
					if len(v.Values) > i {
						y.bind(o, y.exprTo(v.Values[i], o.Type()))
					} else {
						y.bind(o, vc.reg.zero(o.Type()))
					}
				}
			}
		}
		return y.specBody(rest, rt, at)
	case *ast.IfStmt:
		y := *x
		if s.Init != nil {
			vc.unsup(s, "if-init in specification")
		}
		c := y.bool(s.Cond)
		ya, yb := y, y
		if y.conds != nil {
			ya.conds = append(append([]string{}, y.conds...), c)
			yb.conds = append(append([]string{}, y.conds...), not(c))
		}
		a := ya.specBody(append(append([]ast.Stmt{}, s.Body.List...), rest...), rt, at)
		var b string
		switch el := s.Else.(type) {
		case nil:
			b = yb.specBody(rest, rt, at)
		case *ast.BlockStmt:
			b = yb.specBody(append(append([]ast.Stmt{}, el.List...), rest...), rt, at)
		default:
			b = yb.specBody(append([]ast.Stmt{el}, rest...), rt, at)
		}
		return fmt.Sprintf("(ite %s %s %s)", c, a, b)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if fn := calleeOf(vc.w.info, c); fn != nil && vc.w.isVstd(fn) && (fn.Name() == "Trig" || fn.Name() == "Assert") {
				return x.specBody(rest, rt, at)
			}
		}
	}
	vc.unsup(list[0], "statement %T in specification", list[0])
	return ""
}

// specCall applies a specification function.
func (x *X) specCall(sp *SpecFn, args []string, at ast.Node) string {
	vc := x.vc
	if vc.specRecHook != nil {
		vc.specRecHook(x, sp, args, x.conds)
	}
	if !sp.Rec && !sp.Opaque && !sp.Uninterp {
		if !x.spec {
			for i := range args {
				args[i] = vc.name(x.st, "sa", args[i], vc.reg.sortOf(sp.Obj.Type().(*types.Signature).Params().At(i).Type()))
			}
		}
		y := *x
		y.spec = true
		for i, p := range vc.w.paramObjs(sp.Decl) {
			if p != nil {
				y.bind(p, args[i])
			}
		}
		return y.specBody(sp.Decl.Body.List, sp.Obj.Type().(*types.Signature).Results().At(0).Type(), sp.Decl)
	}
	vc.reg.ensureSpec(sp)
	sym := sp.sym
	if lv, ok := vc.fuel[sp]; ok {
		sym = fmt.Sprintf("%s_%d", sp.sym, lv)
	}
	all := append([]string{}, args...)
	for _, c := range sp.comps {
		vc.comp(c, vc.reg.compSorts[c])
		all = append(all, vc.hget(x.st, c))
	}
	if len(all) == 0 {
		return sym
	}
	return "(" + sym + " " + strings.Join(all, " ") + ")"
}

func (r *Registry) scratch() *VC {
	vc := newVC(r.w, nil)
	vc.dry = 1
	return vc
}

func newVC(w *World, c *Contract) *VC {
	return &VC{w: w, reg: w.reg, c: c, assume: map[string]bool{}, dropped: map[string]bool{}, warns: map[string]bool{},
		comps: map[string]string{}, closures: map[string]*closure{}, usedContracts: map[*Contract]bool{}, inlined: map[string]bool{},
		loopKeys: map[string]int{}, boxed: map[types.Object]bool{}, scanned: map[ast.Node]bool{}, oblCount: map[string]int{}, fuel: map[*SpecFn]int{}}
}

func newState() *State {
	return &State{pc: "true", vars: map[types.Object]string{}, heap: map[string]string{}, alloc: "alloc0", node: &Node{}}
}

// ensureSpec adds the declaration and defining axioms of a recursive or opaque specification function.
func (r *Registry) ensureSpec(sp *SpecFn) {
	if sp.ready || sp.busy {
		return
	}
	sp.busy = true
	sig := sp.Obj.Type().(*types.Signature)
	rt := sig.Results().At(0).Type()
	var params []string
	ps := r.w.paramObjs(sp.Decl)
	for i := range ps {
		params = append(params, fmt.Sprintf("(p%d %s)", i, r.sortOf(sig.Params().At(i).Type())))
	}
	build := func(level int) (string, []string) {
		vc := r.scratch()
		vc.fuel[sp] = level
		st := newState()
		for _, c := range sp.comps {
			vc.comp(c, r.compSorts[c])
			st.heap[c] = "h_" + mangle(c)
		}
		vc.readLog = map[string]bool{}
		x := &X{vc: vc, st: st, old: st, spec: true, fr: &Frame{pkg: sp.Pkg.Types, ghost: true}}
		for i, p := range ps {
			if p != nil {
				x.bind(p, fmt.Sprintf("p%d", i))
			}
		}
		body := ""
		if !sp.Uninterp {
			body = x.specBody(sp.Decl.Body.List, rt, sp.Decl)
		}
		for c := range vc.readLog {
			r.compSorts[c] = vc.comps[c]
		}
		return body, sortedKeys(vc.readLog)
	}
	_, comps := build(0)
	sp.comps = comps
	var hs []string
	argSorts := ""
	for i := range ps {
		argSorts += " " + r.sortOf(sig.Params().At(i).Type())
	}
	for _, c := range comps {
		hs = append(hs, fmt.Sprintf("(h_%s %s)", mangle(c), r.compSorts[c]))
		argSorts += " " + r.compSorts[c]
	}
	argSorts = strings.TrimSpace(argSorts)
	call := func(sym string) string {
		s := "(" + sym
		for i := range ps {
			s += fmt.Sprintf(" p%d", i)
		}
		for _, c := range comps {
			s += " h_" + mangle(c)
		}
		return s + ")"
	}
	vars := strings.Join(append(append([]string{}, params...), hs...), " ")
	rs := r.sortOf(rt)
	names := []string{sp.sym, sp.sym + "_1", sp.sym + "_0"}
	var b strings.Builder
	for i, n := range names {
		if i > 0 && !sp.Rec {
			break
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", n, argSorts, rs)
	}
	d := &Def{Phase: 2, Provides: names, Text: b.String()}
	r.add(d)
	if !sp.Uninterp {
		lv := 1
		for i := 0; i < 2; i++ {
			if !sp.Rec && i > 0 {
				break
			}
			body, _ := build(lv - i)
			eq := r.defEq(rs, call(names[i]), body)
			syn := ""
			if sp.Rec {
				syn = fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))\n", vars, call(names[i]), call(names[i+1]), call(names[i]))
			}
			ax := &Def{Phase: 3, WantAll: []string{names[i]}, Text: fmt.Sprintf("%s(assert (forall (%s) (! %s :pattern (%s))))", syn, vars, eq, call(names[i]))}
			r.add(ax)
			if sp.Sealed {
				sp.defs = append(sp.defs, ax)
			}
		}
	}
	sp.ready = true
	sp.busy = false
}

func (r *Registry) defEq(sort, a, b string) string {
	return fmt.Sprintf("(= %s %s)", a, b)
}

func (r *Registry) ensureItoa() {
	if r.bySym["itoa"] != nil {
		return
	}
	r.add(&Def{Phase: 2, Provides: []string{"itoa", "atoi_inv"}, Text: `(declare-fun itoa (Int) Str)
(declare-fun atoi_inv (Str) Int)
(assert (forall ((i Int)) (! (and (= (atoi_inv (itoa i)) i) (>= (len_S (itoa i)) 1)) :pattern ((itoa i)))))
(assert (forall ((i Int) (k Int)) (! (=> (and (<= 0 k) (< k (len_S (itoa i)))) (or (and (<= 48 (at_S (itoa i) k)) (<= (at_S (itoa i) k) 57)) (and (= k 0) (< i 0) (= (at_S (itoa i) k) 45)))) :pattern ((at_S (itoa i) k)))))`})
}

// ensureExtern declares a pure external function and its axiom.
func (r *Registry) ensureExtern(c *Contract) {
	if r.externDone[c] {
		return
	}
	r.externDone[c] = true
	var argS, vars, args []string
	vc := r.scratch()
	ps := r.w.paramObjs(c.Decl)
	st := newState()
	for i := 0; i < c.Sig.Params().Len(); i++ {
		s := r.sortOf(c.Sig.Params().At(i).Type())
		argS = append(argS, s)
		vars = append(vars, fmt.Sprintf("(p%d %s)", i, s))
		args = append(args, fmt.Sprintf("p%d", i))
	}
	_ = ps
	var prov []string
	var b strings.Builder
	for i := 0; i < c.Sig.Results().Len(); i++ {
		s := "ext_" + mangle(c.Key)
		if i > 0 {
			s += fmt.Sprintf("_%d", i)
		}
		prov = append(prov, s)
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", s, strings.Join(argS, " "), r.sortOf(c.Sig.Results().At(i).Type()))
	}
	r.add(&Def{Phase: 2, Provides: prov, Text: b.String()})
	res := vc.externApp(c, args)
	y := vc.bindContract(c, st, st, args)
	vc.bindResults(c, y, res)
	var req, ens, pats []string
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			y.doLet(cl)
		case "Requires":
			req = append(req, y.bool(cl.call.Args[0]))
		case "Ensures":
			ens = append(ens, y.bool(cl.call.Args[0]))
		case "ghost":
			if fn := calleeOf(r.w.info, cl.call); fn != nil && fn.Name() == "Trig" {
				var ts []string
				for _, a := range cl.call.Args {
					ts = append(ts, y.expr(a))
				}
				pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
			}
		}
	}
	if len(ens) == 0 {
		return
	}
	for i := 0; i < c.Sig.Results().Len(); i++ {
		for _, tf := range []string{vc.typeFact(st, c.Sig.Results().At(i).Type(), res[i], 0)} {
			if tf != "true" && !strings.Contains(tf, "alloc") {
				ens = append(ens, tf)
			}
		}
	}
	if len(vars) == 0 {
		r.add(&Def{Phase: 3, WantAll: prov[:1], Text: fmt.Sprintf("(assert %s)", and(ens...))})
		return
	}
	for i, rterm := range res {
		_ = i
		pats = append(pats, ":pattern ("+rterm+")")
	}
	for _, p := range prov {
		_ = p
	}
	txt := fmt.Sprintf("(assert (forall (%s) (! %s %s)))", strings.Join(vars, " "), imp(and(req...), and(ens...)), strings.Join(pats, " "))
	d := &Def{Phase: 3, WantAll: prov[:1], Text: txt}
	r.add(d)
	for _, p := range prov[1:] {
		r.add(&Def{Phase: 3, WantAll: []string{p}, Text: fmt.Sprintf("; %s wants %s", p, prov[0])})
		_ = p
	}
}

// buildLemmaAxioms turns auto lemmas into quantified axioms.
func (r *Registry) buildLemmaAxioms() error {
	for _, c := range r.w.lemmas {
		if !c.Auto {
			continue
		}
		if err := r.lemmaAxiom(c); err != nil {
			return err
		}
	}
	return nil
}

func (r *Registry) lemmaAxiom(c *Contract) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				err = fmt.Errorf("lemma %s: %s", c.Key, u.msg)
				return
			}
			panic(x)
		}
	}()
	var comps []string
	for pass := 0; pass < 2; pass++ {
		vc := r.scratch()
		st := newState()
		var vars, args []string
		for i := 0; i < c.Sig.Params().Len(); i++ {
			s := r.sortOf(c.Sig.Params().At(i).Type())
			vars = append(vars, fmt.Sprintf("(p%d %s)", i, s))
			args = append(args, fmt.Sprintf("p%d", i))
		}
		for _, cm := range comps {
			vc.comp(cm, r.compSorts[cm])
			st.heap[cm] = "h_" + mangle(cm)
			vars = append(vars, fmt.Sprintf("(h_%s %s)", mangle(cm), r.compSorts[cm]))
		}
		vc.readLog = map[string]bool{}
		y := vc.bindContract(c, st, st, args)
		var req, ens, pats []string
		var trigTerms []string
		for _, cl := range vc.clauses(c) {
			switch cl.kind {
			case "let":
				y.doLet(cl)
			case "Requires":
				req = append(req, y.bool(cl.call.Args[0]))
			case "Ensures":
				ens = append(ens, y.bool(cl.call.Args[0]))
			case "ghost":
				if fn := calleeOf(r.w.info, cl.call); fn != nil && fn.Name() == "Trig" {
					var ts []string
					for _, a := range cl.call.Args {
						ts = append(ts, trigTerm(y.expr(a)))
					}
					pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
					trigTerms = append(trigTerms, strings.Join(ts, " "))
				}
			}
		}
		for cm := range vc.readLog {
			r.compSorts[cm] = vc.comps[cm]
		}
		comps = sortedKeys(vc.readLog)
		if pass == 0 {
			continue
		}
		if len(pats) == 0 {
			return fmt.Errorf("auto lemma %s needs Trig(...)", c.Key)
		}
		var want []string
		for _, t := range tokens(strings.Join(trigTerms, " ")) {
			if r.bySym[t] != nil {
				want = append(want, t)
			}
		}
		if len(want) == 0 {
			return fmt.Errorf("auto lemma %s: trigger names no function", c.Key)
		}
		name := c.Key
		d := &Def{Phase: 3, WantAll: want, Text: fmt.Sprintf("; lemma %s\n(assert (forall (%s) (! %s %s)))", name, strings.Join(vars, " "), imp(and(req...), and(ens...)), strings.Join(pats, " "))}
		r.add(d)
		r.lemmaDefs[c] = d
	}
	return nil
}
