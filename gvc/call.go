package main

// Calls: builtins, intrinsics of the contract language, contracts, inlining, external functions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

const maxInline = 6

func (x *X) call(e *ast.CallExpr) []string {
	vc := x.vc
	info := vc.w.info
	if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
		return []string{x.conversion(e, tv.Type)}
	}
	fun := ast.Unparen(e.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok { // explicit instantiation
		fun = ix.X
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := x.obj(id).(*types.Builtin); ok {
			return x.builtin(e, b.Name())
		}
	}
	fn := calleeOf(info, &ast.CallExpr{Fun: fun})
	if fn != nil {
		fn = fn.Origin()
	}
	if fn != nil && vc.w.isVstd(fn) {
		if r, ok := x.intrinsic(e, fn.Name()); ok {
			return r
		}
	}
	if fn == nil {
		return x.dynCall(e)
	}
	if vc.w.ghostFields[fn] {
		sig := fn.Type().(*types.Signature)
		k := x.exprTo(e.Args[0], sig.Params().At(0).Type())
		return []string{fmt.Sprintf("(select %s %s)", vc.hget(x.st, vc.ghostComp(fn)), k)}
	}
	if sp := vc.w.specs[fn]; sp != nil {
		var args []string
		sig := fn.Type().(*types.Signature)
		for i, a := range e.Args {
			args = append(args, x.exprTo(a, sig.Params().At(i).Type()))
		}
		return []string{x.specCall(sp, args, e)}
	}
	// arguments (receiver first)
	sig := fn.Type().(*types.Signature)
	var recvE ast.Expr
	var args []string
	var argEs []ast.Expr
	var post func()
	if sig.Recv() != nil {
		se, ok := fun.(*ast.SelectorExpr)
		if !ok {
			vc.unsup(e, "method call form")
		}
		sel := info.Selections[se]
		if sel.Kind() == types.MethodExpr {
			vc.unsup(e, "method expression")
		}
		recvE = se.X
		var v string
		v, post = x.receiver(se, sel, sig)
		args = append(args, v)
		argEs = append(argEs, recvE)
		if x.st.pc == "false" {
			return nil
		}
	}
	// special external functions
	if !vc.w.inRepo(fn) {
		if r, ok := x.special(e, fn); ok {
			return r
		}
	}
	as, aes := x.args(e, sig)
	if x.st.pc == "false" {
		return nil
	}
	args = append(args, as...)
	argEs = append(argEs, aes...)
	var res []string
	if vc.w.inRepo(fn) || vc.w.funcs[fn] != nil {
		res = x.repoCall(e, fn, args, argEs)
	} else {
		res = x.externCall(e, fn, args, argEs)
	}
	if post != nil && x.st.pc != "false" {
		post()
	}
	return res
}

// receiver evaluates a method receiver, taking addresses or copying as Go does.
func (x *X) receiver(se *ast.SelectorExpr, sel *types.Selection, sig *types.Signature) (string, func()) {
	vc := x.vc
	t := x.typ(se.X)
	_, wantPtr := sig.Recv().Type().(*types.Pointer)
	path := sel.Index()[:len(sel.Index())-1]
	if isIface(sig.Recv().Type()) {
		v := x.expr(se.X)
		for _, i := range path {
			v, t = x.fieldStep(se, v, t, i)
		}
		if !x.spec {
			vc.check(x.st, "safety", "method call on nil interface", se.Pos(), fmt.Sprintf("(not (= %s nil_iface))", v))
		}
		return v, nil
	}
	if len(path) == 0 {
		_, havePtr := derefType(t)
		switch {
		case wantPtr && havePtr, !wantPtr && !havePtr:
			return x.expr(se.X), nil
		case !wantPtr && havePtr:
			p := x.expr(se.X)
			return x.deref(se, p, t), nil
		default: // need the address of an addressable value
			if id, ok := ast.Unparen(se.X).(*ast.Ident); ok {
				if o := x.obj(id); vc.boxed[o] {
					return x.st.vars[o], nil
				}
			}
			// copy in, copy out through a temporary object
			v := vc.name(x.st, "rcv", x.expr(se.X), vc.reg.sortOf(t))
			if _, isS := t.Underlying().(*types.Struct); isS {
				si := vc.reg.structOf(t)
				vals := make([]string, len(si.Fields))
				for i := range si.Fields {
					vals[i] = fmt.Sprintf("(%s %s)", vc.reg.sel(si, i), v)
				}
				r := vc.allocStruct(x.st, si, vals)
				return r, func() { x.assign(se.X, x.loadPtr(r, t)) }
			}
			c := vc.cellComp(t)
			r := vc.alloc(x.st, t)
			vc.fact(x.st, fmt.Sprintf("(= (select %s %s) %s)", vc.hget(x.st, c), r, v))
			return r, func() { x.assign(se.X, x.loadPtr(r, t)) }
		}
	}
	v := x.expr(se.X)
	for _, i := range path {
		v, t = x.fieldStep(se, v, t, i)
	}
	_, havePtr := derefType(t)
	if wantPtr == havePtr {
		return v, nil
	}
	if havePtr {
		return x.deref(se, v, t), nil
	}
	vc.unsup(se, "address of embedded field")
	return "", nil
}

func (x *X) args(e *ast.CallExpr, sig *types.Signature) (vals []string, es []ast.Expr) {
	vc := x.vc
	np := sig.Params().Len()
	// f(g()) with multi-value g
	if len(e.Args) == 1 && np > 1 {
		if tup, ok := vc.w.info.TypeOf(e.Args[0]).(*types.Tuple); ok && tup.Len() == np && !sig.Variadic() {
			rs := x.multi(e.Args[0], np)
			for i := 0; i < np; i++ {
				vals = append(vals, x.conv(rs[i], tup.At(i).Type(), sig.Params().At(i).Type()))
				es = append(es, nil)
			}
			return
		}
	}
	for i := 0; i < np; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 {
			if e.Ellipsis != token.NoPos {
				vals = append(vals, x.expr(e.Args[i]))
				es = append(es, e.Args[i])
				return
			}
			el := pt.(*types.Slice).Elem()
			sx := x.seqX(vc.reg.sortOf(pt))
			v := "emp_" + sx
			var us []string
			for _, a := range e.Args[i:] {
				if tup, ok := vc.w.info.TypeOf(a).(*types.Tuple); ok {
					rs := x.multi(a, tup.Len())
					for k := range rs {
						us = append(us, x.conv(rs[k], tup.At(k).Type(), el))
					}
					continue
				}
				us = append(us, vc.nameIf(x, "va", x.exprTo(a, el), vc.reg.sortOf(el)))
			}
			for k := len(us) - 1; k >= 0; k-- {
				u := fmt.Sprintf("(unit_%s %s)", sx, us[k])
				if k == len(us)-1 {
					v = u
				} else {
					v = fmt.Sprintf("(cat_%s %s %s)", sx, u, v)
				}
			}
			vals = append(vals, v)
			es = append(es, nil)
			return
		}
		v := x.exprTo(e.Args[i], pt)
		if x.st.pc == "false" {
			return
		}
		vals = append(vals, vc.nameIf(x, "arg", v, vc.reg.sortOf(pt)))
		es = append(es, e.Args[i])
	}
	return
}

func (vc *VC) nameIf(x *X, hint, v, s string) string {
	if x.spec {
		return v
	}
	return vc.name(x.st, hint, v, s)
}

func (x *X) conversion(e *ast.CallExpr, to types.Type) string {
	vc := x.vc
	a := e.Args[0]
	from := x.typ(a)
	if tv, ok := vc.w.info.Types[a]; ok && tv.Value != nil && tv.Value.Kind() == constant.String && vc.reg.sortOf(to) != "Str" {
		from = types.Typ[types.String]
	}
	v := x.expr(a)
	fs, ts := vc.reg.sortOf(from), vc.reg.sortOf(to)
	if isIface(to) {
		return x.conv(v, from, to)
	}
	if fs == ts {
		if fs == "Int" && !x.spec {
			fb, ok1 := from.Underlying().(*types.Basic)
			tb, ok2 := to.Underlying().(*types.Basic)
			if ok1 && ok2 && narrower(tb, fb) {
				vc.assume["integer conversions do not truncate"] = true
			}
		}
		return v
	}
	if isNilT(from) {
		return vc.reg.zero(to)
	}
	switch {
	case ts == "Str" && fs == "Int":
		return fmt.Sprintf("(unit_S %s)", v) // runes below 128 only; see assumption
	case ts == "Real" && fs == "Int":
		return "(to_real " + v + ")"
	case ts == "Int" && fs == "Real":
		return "(to_int " + v + ")"
	case ts == "Str" || fs == "Str":
		n := "conv_" + mangle(fs) + "_" + mangle(ts)
		vc.declFun(n, fmt.Sprintf("(%s) %s", fs, ts))
		if fs == "Str" {
			// []byte(s): same bytes; []rune(s) keeps only the length bound
			if b, ok := elemType(to).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !x.spec {
				r := vc.name(x.st, "bs", fmt.Sprintf("(%s %s)", n, v), ts)
				vc.fact(x.st, fmt.Sprintf("(= (len_%s %s) (len_S %s))", vc.reg.seqSfx[ts], r, v))
				return r
			}
		}
		return fmt.Sprintf("(%s %s)", n, v)
	}
	return v
}

func narrower(to, from *types.Basic) bool {
	sz := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	if from.Info()&types.IsUntyped != 0 {
		return false
	}
	return sz(to) < sz(from) || (to.Info()&types.IsUnsigned != 0) != (from.Info()&types.IsUnsigned != 0)
}

func (x *X) builtin(e *ast.CallExpr, name string) []string {
	vc := x.vc
	switch name {
	case "len":
		v := x.expr(e.Args[0])
		return []string{x.lenOf(v, x.typ(e.Args[0]))}
	case "cap":
		v := x.expr(e.Args[0])
		if x.spec {
			vc.unsup(e, "cap in specification")
		}
		c := vc.fresh("cap", "Int")
		vc.fact(x.st, fmt.Sprintf("(>= %s %s)", c, x.lenOf(v, x.typ(e.Args[0]))))
		return []string{c}
	case "append":
		t := x.typ(e)
		so := vc.reg.sortOf(t)
		sx := x.seqX(so)
		base := x.exprTo(e.Args[0], t)
		defer func() {
			if !x.spec {
				x.appendAlias(e)
			}
		}()
		if e.Ellipsis != token.NoPos {
			o := x.expr(e.Args[1])
			ot := x.typ(e.Args[1])
			if vc.reg.sortOf(ot) == "Str" && so != "Str" {
				vc.unsup(e, "append of a string to bytes")
			}
			if isNilT(ot) {
				return []string{base}
			}
			return []string{fmt.Sprintf("(cat_%s %s %s)", sx, base, o)}
		}
		el := elemType(t)
		v := base
		if len(e.Args) > 1 {
			var us []string
			for _, a := range e.Args[1:] {
				us = append(us, fmt.Sprintf("(unit_%s %s)", sx, vc.nameIf(x, "ap", x.exprTo(a, el), vc.reg.sortOf(el))))
			}
			t := us[len(us)-1]
			for i := len(us) - 2; i >= 0; i-- {
				t = fmt.Sprintf("(cat_%s %s %s)", sx, us[i], t)
			}
			v = fmt.Sprintf("(cat_%s %s %s)", sx, base, t)
		}
		return []string{v}
	case "delete":
		t := x.typ(e.Args[0])
		m := x.expr(e.Args[0])
		k := x.exprTo(e.Args[1], t.Underlying().(*types.Map).Key())
		x.mapDelete(m, k, t)
		return nil
	case "panic":
		x.expr(e.Args[0])
		if x.st.pc == "false" {
			return nil
		}
		x.panicStmt(e)
		return nil
	case "make":
		t := x.typ(e.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Map:
			return []string{vc.allocMap(x.st, t)}
		case *types.Slice:
			n := "0"
			if len(e.Args) > 1 {
				n = x.expr(e.Args[1])
			}
			so := vc.reg.sortOf(t)
			sx := x.seqX(so)
			if n == "0" {
				return []string{"emp_" + sx}
			}
			vc.check(x.st, "safety", "make length", e.Pos(), fmt.Sprintf("(>= %s 0)", n))
			v := vc.fresh("mk", so)
			vc.fact(x.st, fmt.Sprintf("(= (len_%s %s) %s)", sx, v, n))
			z := vc.reg.zero(u.Elem())
			if z != "" {
				vc.fact(x.st, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (at_%s %s i) %s)) :pattern ((at_%s %s i))))", n, sx, v, z, sx, v))
			}
			return []string{v}
		case *types.Chan:
			return []string{vc.alloc(x.st, nil)}
		}
	case "new":
		t := x.typ(e.Args[0])
		if _, ok := t.Underlying().(*types.Struct); ok {
			si := vc.reg.structOf(t)
			var vals []string
			for _, f := range si.Fields {
				vals = append(vals, vc.reg.zero(f.Type()))
			}
			return []string{vc.allocStruct(x.st, si, vals)}
		}
		r := vc.alloc(x.st, t)
		vc.fact(x.st, fmt.Sprintf("(= (select %s %s) %s)", vc.hget(x.st, vc.cellComp(t)), r, vc.reg.zero(t)))
		return []string{r}
	case "min", "max":
		v := x.expr(e.Args[0])
		for _, a := range e.Args[1:] {
			b := x.expr(a)
			op := "<="
			if name == "max" {
				op = ">="
			}
			v = fmt.Sprintf("(ite (%s %s %s) %s %s)", op, v, b, v, b)
		}
		return []string{v}
	case "copy":
		x.havocSlice(e.Args[0])
		n := vc.fresh("n", "Int")
		vc.fact(x.st, fmt.Sprintf("(>= %s 0)", n))
		return []string{n}
	case "recover":
		vc.unsup(e, "recover")
	case "print", "println":
		for _, a := range e.Args {
			x.expr(a)
		}
		return nil
	}
	vc.unsup(e, "builtin %s", name)
	return nil
}

// appendAlias: append(y[:i], ...) overwrites elements of y that are still visible.
func (x *X) appendAlias(e *ast.CallExpr) {
	se, ok := ast.Unparen(e.Args[0]).(*ast.SliceExpr)
	if !ok || se.High == nil || len(e.Args) < 2 || se.Slice3 {
		if len(e.Args) > 1 {
			if id, ok := ast.Unparen(e.Args[0]).(*ast.Ident); ok {
				if o, ok := x.obj(id).(*types.Var); ok && x.ownedSlice(o) {
					return
				}
			}
			x.vc.assume["appending to a slice does not overwrite elements visible through another slice (spare capacity is not shared)"] = true
		}
		return
	}
	x.havocSlice(se.X)
}

func (x *X) panicStmt(e ast.Node) {
	vc := x.vc
	if vc.dry == 0 {
		goal := "false"
		if vc.topFr != nil && vc.topFr.c != nil {
			goal = vc.panicAllowed(x)
		}
		vc.obl(x.st, "panic", "panic is not reached", e.Pos(), goal)
		x.onPanic(e, x.st, "at panic")
	}
	x.kill()
}

func (vc *VC) hasOnPanic() bool {
	if vc.topFr == nil || vc.topFr.c == nil {
		return false
	}
	for _, cl := range vc.clauses(vc.topFr.c) {
		if cl.kind == "OnPanic" {
			return true
		}
	}
	return false
}

// onPanic checks the OnPanic clauses of the verified function in a state in which it panics.
func (x *X) onPanic(e ast.Node, st *State, what string) {
	vc := x.vc
	if !vc.hasOnPanic() {
		return
	}
	c := vc.topFr.c
	y := vc.bindContract(c, st, vc.entry, vc.entryArgs)
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			func() { defer func() { recover() }(); y.doLet(cl) }()
		case "OnPanic":
			for k, g := range splitAnd(y.bool(cl.call.Args[0])) {
				vc.obl(st, "post", fmt.Sprintf("%s: %s.%d %s", c.Key, cl.name, k, what), e.Pos(), g)
			}
		}
	}
}

func (x *X) kill() {
	x.st.pc = "false"
}

func (x *X) results(sig *types.Signature) (vals []string) {
	vc := x.vc
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := vc.fresh("r", vc.reg.sortOf(t))
		vals = append(vals, v)
	}
	return
}

func (x *X) resultFacts(sig *types.Signature, vals []string) {
	for i, v := range vals {
		x.vc.typeFacts(x.st, sig.Results().At(i).Type(), v)
	}
}

// havocAll forgets the whole heap.
func (x *X) havocAll() {
	vc := x.vc
	for _, c := range sortedKeys(vc.comps) {
		vc.havocComp(x.st, c, "")
	}
	for _, l := range vc.logs {
		l.all = true
	}
	x.st.hp = vc.newHP()
	na := vc.fresh("alloc", "Int")
	vc.rawFact(x.st, fmt.Sprintf("(>= %s %s)", na, x.st.alloc))
	vc.setAlloc(x.st, na)
}

func (x *X) dynCall(e *ast.CallExpr) []string {
	vc := x.vc
	f := x.expr(e.Fun)
	if x.spec {
		vc.unsup(e, "dynamic call in specification")
	}
	sig, ok := x.typ(e.Fun).Underlying().(*types.Signature)
	if !ok {
		vc.unsup(e, "call of %T", e.Fun)
	}
	if cl := vc.closures[f]; cl != nil {
		as, aes := x.args(e, sig)
		return x.inlineLit(e, cl, as, aes)
	}
	as, aes := x.args(e, sig)
	vc.check(x.st, "safety", "call of nil function", e.Pos(), fmt.Sprintf("(not (= %s nil_func))", f))
	nm := ""
	switch g := ast.Unparen(e.Fun).(type) {
	case *ast.Ident:
		nm = g.Name
	case *ast.SelectorExpr:
		nm = g.Sel.Name
	}
	if c := vc.w.funcTypes[x.fr.pkg.Name()+"."+nm]; c != nil {
		x.havocEscaped(e)
		return x.contractCall(e, c, as, aes, sig)
	}
	vc.assume["calls through function values may change anything reachable but neither panic nor block ("+vc.w.pos(e.Pos())+")"] = true
	x.havocEscaped(e)
	x.havocAll()
	r := x.results(sig)
	x.resultFacts(sig, r)
	x.always(e, nil, "a dynamic call")
	return r
}

// havocEscaped: closures passed as arguments may run and assign captured variables.
func (x *X) havocEscaped(e *ast.CallExpr) {
	for _, a := range e.Args {
		if fl, ok := ast.Unparen(a).(*ast.FuncLit); ok {
			x.havocLit(fl)
		}
	}
}

func (x *X) havocLit(fl *ast.FuncLit) {
	vc := x.vc
	ast.Inspect(fl.Body, func(n ast.Node) bool {
		var ls []ast.Expr
		switch n := n.(type) {
		case *ast.AssignStmt:
			ls = n.Lhs
		case *ast.IncDecStmt:
			ls = []ast.Expr{n.X}
		}
		for _, l := range ls {
			if id, ok := ast.Unparen(l).(*ast.Ident); ok {
				o := x.obj(id)
				if _, has := x.st.vars[o]; has && o.Pos() < fl.Pos() && !vc.boxed[o] {
					vc.logVar(o)
					v := vc.fresh(o.Name(), x.objSort(o))
					x.st.vars[o] = v
					vc.typeFacts(x.st, o.Type(), v)
				}
			} else {
				x.vc.assume["closures passed to external functions do not change the heap"] = true
			}
		}
		return true
	})
}

// ---- inlining

func (x *X) onStack(fn *types.Func) bool {
	for f := x.fr; f != nil; f = f.parent {
		if f.fd != nil && f.fd.Obj == fn && f.lit == nil {
			return true
		}
	}
	return false
}

func (x *X) depth() int {
	n := 0
	for f := x.fr; f != nil; f = f.parent {
		n++
	}
	return n
}

func (x *X) repoCall(e *ast.CallExpr, fn *types.Func, args []string, argEs []ast.Expr) []string {
	vc := x.vc
	if x.spec {
		if r, ok := x.realInSpec(e, fn, args); ok {
			return []string{r}
		}
	}
	if c := vc.w.contractsBy[fn]; c != nil && !c.Inline {
		return x.contractCall(e, c, args, argEs, fn.Type().(*types.Signature))
	}
	fd := vc.w.funcs[fn]
	if x.spec {
		vc.unsup(e, "call of %s in a specification", funcKey(fn))
	}
	if fd == nil || fd.Decl.Body == nil || x.onStack(fn) || x.depth() > maxInline {
		return x.unknownCall(e, fn, "call of "+funcKey(fn)+" is treated as changing anything")
	}
	snap := x.st.clone()
	snap.node = &Node{parents: []*Node{x.st.node}}
	nobl := len(vc.obls)
	var res []string
	var failed string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					failed = u.msg
					return
				}
				panic(r)
			}
		}()
		res = x.inline(e, fd, args, argEs)
	}()
	if failed != "" {
		*x.st = *snap
		vc.obls = vc.obls[:nobl]
		return x.unknownCall(e, fn, fmt.Sprintf("call of %s is treated as changing anything (%s)", funcKey(fn), failed))
	}
	vc.inlined[funcKey(fn)] = true
	return res
}

func (x *X) unknownCall(e *ast.CallExpr, fn *types.Func, why string) []string {
	vc := x.vc
	vc.assume[why+"; it is assumed not to panic"] = true
	x.havocEscaped(e)
	x.havocAll()
	sig := fn.Type().(*types.Signature)
	r := x.results(sig)
	x.resultFacts(sig, r)
	x.always(e, nil, funcKey(fn))
	return r
}

func (x *X) inline(e ast.Node, fd *FuncDecl, args []string, argEs []ast.Expr) []string {
	vc := x.vc
	vc.scanBoxed(fd.Decl.Body)
	fr := &Frame{fd: fd, parent: x.fr, pkg: fd.Pkg.Types, ordinal: numberLoops(fd.Decl.Body)}
	fr.params = vc.w.paramObjs(fd.Decl)
	fr.alias = map[types.Object]ast.Expr{}
	fr.aliasX = x
	y := &X{vc: vc, st: x.st, fr: fr, outer: x.outer}
	for i, p := range fr.params {
		if p == nil {
			continue
		}
		y.declare(p, args[i])
		if i < len(argEs) && argEs[i] != nil {
			fr.alias[p] = argEs[i]
		}
	}
	vc.setupResults(y, fd.Decl.Type, fd.Obj.Type().(*types.Signature))
	fr.entry = y.st.clone()
	ok := y.block(fd.Decl.Body.List)
	if ok {
		y.doReturn(fd.Decl.Body.Rbrace)
	}
	return x.finishInline(fr)
}

func (x *X) finishInline(fr *Frame) []string {
	vc := x.vc
	var live []*State
	for _, s := range fr.returns {
		if s.pc != "false" {
			live = append(live, s)
		}
	}
	m := vc.merge(live, "", x.objSort)
	if m == nil {
		x.st.pc = "false"
		return nil
	}
	*x.st = *m
	z := &X{vc: vc, st: x.st, fr: fr, spec: true}
	var res []string
	for _, o := range fr.results {
		res = append(res, z.readVar(nil, o.(*types.Var)))
	}
	return res
}

func (vc *VC) setupResults(y *X, ft *ast.FuncType, sig *types.Signature) {
	fr := y.fr
	n := sig.Results().Len()
	objs := make([]types.Object, n)
	if ft.Results != nil {
		k := 0
		for _, f := range ft.Results.List {
			if len(f.Names) == 0 {
				k++
				continue
			}
			for _, nm := range f.Names {
				if nm.Name != "_" {
					objs[k] = vc.w.info.Defs[nm]
				}
				k++
			}
		}
	}
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		fr.resTypes = append(fr.resTypes, t)
		if objs[i] == nil {
			objs[i] = types.NewVar(token.NoPos, fr.pkg, fmt.Sprintf("res%d", i), t)
		}
		z := vc.reg.zero(t)
		if z == "" {
			z = vc.fresh("zero", vc.reg.sortOf(t))
		}
		y.declare(objs[i], z)
	}
	fr.results = objs
}

func (x *X) inlineLit(e ast.Node, cl *closure, args []string, argEs []ast.Expr) []string {
	vc := x.vc
	if x.depth() > maxInline+4 {
		vc.unsup(e, "closure recursion")
	}
	vc.scanBoxed(cl.lit.Body)
	fr := &Frame{fd: cl.fr.fd, lit: cl.lit, parent: x.fr, pkg: cl.fr.pkg, ordinal: numberLoops(cl.lit.Body)}
	if cl.fr.top {
		fr.ordinal = cl.fr.ordinal
		fr.c = cl.fr.c
		fr.rename = cl.fr.rename
		fr.top = false
	}
	fr.alias = map[types.Object]ast.Expr{}
	fr.aliasX = x
	y := &X{vc: vc, st: x.st, fr: fr, outer: x.outer}
	k := 0
	for _, f := range cl.lit.Type.Params.List {
		for _, n := range f.Names {
			if o := vc.w.info.Defs[n]; o != nil && n.Name != "_" {
				y.declare(o, args[k])
				fr.params = append(fr.params, o)
				if argEs[k] != nil {
					fr.alias[o] = argEs[k]
				}
			}
			k++
		}
	}
	vc.setupResults(y, cl.lit.Type, vc.w.info.TypeOf(cl.lit).(*types.Signature))
	fr.entry = y.st.clone()
	if y.block(cl.lit.Body.List) {
		y.doReturn(cl.lit.Body.Rbrace)
	}
	return x.finishInline(fr)
}

// ---- contracts

// bindContract makes an evaluator whose parameters are the given values.
func (vc *VC) bindContract(c *Contract, st, old *State, args []string) *X {
	s := st.clone()
	s.node = st.node
	o := old.clone()
	ps := vc.w.paramObjs(c.Decl)
	for i, p := range ps {
		if p != nil && i < len(args) {
			s.vars[p] = args[i]
			o.vars[p] = args[i]
		}
	}
	return &X{vc: vc, st: s, old: o, spec: true, fr: &Frame{pkg: c.Pkg.Types, ghost: true, c: c, fd: vc.w.funcs[c.Obj]}}
}

func (vc *VC) bindResults(c *Contract, y *X, res []string) {
	ro, _ := vc.w.resultObjs(c.Decl)
	for i, r := range ro {
		if r != nil && i < len(res) {
			y.st.vars[r] = res[i]
		}
	}
}

type clause struct {
	kind string
	call *ast.CallExpr
	let  *ast.AssignStmt
	stmt ast.Stmt
	name string
}

func (vc *VC) clauses(c *Contract) []clause {
	var cs []clause
	info := vc.w.info
	n := map[string]int{}
	for _, s := range c.Decl.Body.List {
		switch s := s.(type) {
		case *ast.AssignStmt:
			cs = append(cs, clause{kind: "let", let: s, stmt: s})
		case *ast.ExprStmt:
			call, ok := s.X.(*ast.CallExpr)
			if !ok {
				continue
			}
			fn := calleeOf(info, call)
			k := "ghost"
			if fn != nil && vc.w.isVstd(fn) {
				switch fn.Name() {
				case "Requires", "Ensures", "Modifies", "ModifiesAll", "Clobbers", "Panics", "MustPanic", "Decreases", "NoAlloc", "MayPanic", "ModifiesField", "ModifiesMaps", "Always", "OnPanic", "ReadOnly":
					k = fn.Name()
				}
			}
			n[k]++
			nm := fmt.Sprintf("%s%d", strings.ToLower(k), n[k])
			if (k == "Ensures" || k == "Requires" || k == "Always" || k == "OnPanic" || k == "ReadOnly") && len(call.Args) > 1 {
				if tv := info.Types[call.Args[1]]; tv.Value != nil {
					nm = constant.StringVal(tv.Value)
				}
			}
			cs = append(cs, clause{kind: k, call: call, stmt: s, name: nm})
		case *ast.ReturnStmt:
			// "return" placeholders that make the contract function compile
		default:
			cs = append(cs, clause{kind: "stmt", stmt: s})
		}
	}
	return cs
}

func (y *X) doLet(cl clause) {
	for i, l := range cl.let.Lhs {
		id, ok := l.(*ast.Ident)
		if !ok {
			y.vc.unsup(l, "let")
		}
		if id.Name == "_" {
			continue
		}
		if len(cl.let.Lhs) != len(cl.let.Rhs) {
			rs := y.multi(cl.let.Rhs[0], len(cl.let.Lhs))
			y.bind(y.obj(id), rs[i])
			continue
		}
		y.bind(y.obj(id), y.exprTo(cl.let.Rhs[i], y.obj(id).Type()))
	}
}

// modItems evaluates the Modifies clauses.
func (vc *VC) modItems(c *Contract, y *X) (items []modItem, all bool) {
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			func() {
				defer func() { recover() }()
				y.doLet(cl)
			}()
		case "ModifiesAll":
			all = true
		case "ModifiesField":
			for _, a := range cl.call.Args {
				se := ast.Unparen(a).(*ast.SelectorExpr)
				sel := vc.w.info.Selections[se]
				el, _ := derefType(y.typ(se.X))
				si := vc.reg.structOf(el)
				items = append(items, modItem{vc.fieldComp(si, sel.Index()[0]), ""})
			}
		case "ModifiesMaps":
			for _, a := range cl.call.Args {
				dom, val, _, _ := vc.mapComps(y.typ(a))
				items = append(items, modItem{dom, ""}, modItem{val, ""})
			}
		case "Modifies":
			for _, a := range cl.call.Args {
				a = ast.Unparen(a)
				if fn := funcOf(vc.w.info, a); fn != nil && vc.w.ghostFields[fn] {
					items = append(items, modItem{vc.ghostComp(fn), ""})
					continue
				}
				t := y.typ(a)
				// global variable
				var o types.Object
				switch g := a.(type) {
				case *ast.Ident:
					o = y.obj(g)
				case *ast.SelectorExpr:
					if vc.w.info.Selections[g] == nil {
						o = vc.w.info.Uses[g.Sel]
					}
				case *ast.CallExpr:
					if fn := calleeOf(vc.w.info, g); fn != nil && vc.w.ghostFields[fn] {
						k := y.exprTo(g.Args[0], fn.Type().(*types.Signature).Params().At(0).Type())
						items = append(items, modItem{vc.ghostComp(fn), k})
						continue
					}
				}
				if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					if _, isMap := t.Underlying().(*types.Map); !isMap {
						items = append(items, modItem{vc.globalComp(v), ""})
						continue
					}
				}
				if se, ok := a.(*ast.UnaryExpr); ok && se.Op == token.AND { // &p.f : one field
					f := ast.Unparen(se.X).(*ast.SelectorExpr)
					sel := vc.w.info.Selections[f]
					bt := y.typ(f.X)
					p := y.expr(f.X)
					for _, i := range sel.Index()[:len(sel.Index())-1] {
						p, bt = y.fieldStep(f, p, bt, i)
					}
					el, _ := derefType(bt)
					si := vc.reg.structOf(el)
					items = append(items, modItem{vc.fieldComp(si, sel.Index()[len(sel.Index())-1]), p})
					continue
				}
				switch u := t.Underlying().(type) {
				case *types.Map:
					m := y.expr(a)
					dom, val, _, _ := vc.mapComps(t)
					items = append(items, modItem{dom, m}, modItem{val, m})
				case *types.Pointer:
					p := y.expr(a)
					if _, ok := u.Elem().Underlying().(*types.Struct); ok {
						si := vc.reg.structOf(u.Elem())
						for i := range si.Fields {
							items = append(items, modItem{vc.fieldComp(si, i), p})
						}
					} else {
						items = append(items, modItem{vc.cellComp(u.Elem()), p})
					}
				default:
					vc.unsup(a, "Modifies of %s", t)
				}
			}
		}
	}
	return
}

func (x *X) contractCall(e ast.Node, c *Contract, args []string, argEs []ast.Expr, sig *types.Signature) []string {
	vc := x.vc
	if x.spec && !x.fr.ghost {
		vc.unsup(e, "call of %s in a specification", c.Key)
	}
	if x.spec && sig.Results().Len() > 0 {
		vc.unsup(e, "call of %s in a specification", c.Key)
	}
	if vc.dry == 0 {
		vc.usedContracts[c] = true
	}
	if c.Missing != "" {
		vc.unsup(e, "%s", c.Missing)
	}
	pre := x.st.clone()
	y := vc.bindContract(c, x.st, x.st, args)
	y.old = y.st
	if c.TwoState {
		if x.old == nil {
			vc.unsup(e, "no earlier state for %s", c.Key)
		}
		pre = x.old
		y = vc.bindContract(c, x.st, x.old, args)
	}
	// preconditions, panics, measure
	var panicConds, readOnly []string
	var meas []string
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			func() {
				defer func() { recover() }()
				y.doLet(cl)
			}()
		case "Requires":
			g := y.bool(cl.call.Args[0])
			if vc.dry == 0 {
				for _, p := range splitAnd(g) {
					vc.obl(x.st, "pre", fmt.Sprintf("precondition %s of %s", cl.name, c.Key), e.Pos(), p)
					vc.fact(x.st, p)
				}
			}
		case "Panics", "MustPanic":
			panicConds = append(panicConds, y.bool(cl.call.Args[0]))
		case "MayPanic":
			panicConds = append(panicConds, vc.fresh("maypanic", "Bool"))
		case "ReadOnly":
			readOnly = append(readOnly, y.bool(cl.call.Args[0]))
		case "Decreases":
			for _, a := range cl.call.Args {
				meas = append(meas, y.expr(a))
			}
		}
	}
	if vc.topFr != nil && vc.topFr.c == c && len(meas) > 0 && vc.dry == 0 {
		vc.obl(x.st, "dec", "recursion measure decreases", e.Pos(), lexDec(vc.measure0, meas))
	} else if vc.topFr != nil && vc.topFr.c == c && len(meas) > 0 {
	} else if vc.topFr != nil && vc.topFr.c == c && !c.Lemma {
		vc.assume["termination of the recursion of "+c.Key+" is not proved (partial correctness)"] = true
	} else if vc.topFr != nil && vc.topFr.c == c {
		vc.obl(x.st, "dec", "recursive lemma needs a measure", e.Pos(), "false")
	}
	if len(panicConds) > 0 {
		pcnd := vc.name(x.st, "mp", or(panicConds...), "Bool")
		if vc.dry == 0 {
			b := vc.branch(x.st, pcnd)
			z := x.with(b)
			vc.obl(b, "panic", "panic of "+c.Key+" is not reached", e.Pos(), vc.panicAllowed(z))
			if vc.hasOnPanic() {
				// the state the callee leaves behind when it panics
				was := b.clone()
				items, all := vc.modItems(c, vc.bindContract(c, b, b, args))
				if all {
					z.havocAll()
				} else {
					for _, it := range items {
						vc.havocComp(b, it.comp, it.ref)
					}
				}
				w := vc.bindContract(c, b, was, args)
				for _, cl := range vc.clauses(c) {
					switch cl.kind {
					case "let":
						func() {
							defer func() { recover() }()
							w.doLet(cl)
						}()
					case "OnPanic":
						vc.fact(b, w.bool(cl.call.Args[0]))
					}
				}
				x.onPanic(e, b, "at panic of "+c.Key)
			}
		}
		vc.fact(x.st, not(pcnd))
	}
	// effects
	items, all := vc.modItems(c, vc.bindContract(c, x.st, x.st, args))
	if all {
		x.havocAll()
	} else {
		for _, it := range items {
			vc.havocComp(x.st, it.comp, it.ref)
		}
		if t := c.allocOne(vc.w); t != nil {
			na := vc.fresh("alloc", "Int")
			vc.rawFact(x.st, fmt.Sprintf("(= %s (+ %s 1))", na, x.st.alloc))
			vc.rawFact(x.st, fmt.Sprintf("(= (rtag %s) %d)", x.st.alloc, vc.rtag(t)))
			vc.setAlloc(x.st, na)
		} else if !c.Pure && !c.Lemma && !c.noAlloc() {
			na := vc.fresh("alloc", "Int")
			vc.rawFact(x.st, fmt.Sprintf("(>= %s %s)", na, x.st.alloc))
			vc.setAlloc(x.st, na)
		}
	}
	if len(readOnly) > 0 {
		ro := or(readOnly...)
		if all {
			vc.unsup(e, "ReadOnly with ModifiesAll")
		}
		done := map[string]bool{}
		for _, it := range items {
			if h, h0 := vc.hget(x.st, it.comp), vc.hget(pre, it.comp); h != h0 && !done[it.comp] {
				done[it.comp] = true
				vc.rawFact(x.st, imp(ro, fmt.Sprintf("(= %s %s)", h, h0)))
			}
		}
		vc.rawFact(x.st, imp(ro, fmt.Sprintf("(= %s %s)", x.st.alloc, pre.alloc)))
	}
	// clobbered slices
	ps := vc.w.paramObjs(c.Decl)
	for _, cl := range vc.clauses(c) {
		if cl.kind == "Clobbers" {
			for _, a := range cl.call.Args {
				id, ok := ast.Unparen(a).(*ast.Ident)
				if !ok {
					vc.unsup(a, "Clobbers needs a parameter")
				}
				for i, p := range ps {
					if p == x.obj(id) && i < len(argEs) && argEs[i] != nil && !x.fr.ghost {
						x.havocSlice(argEs[i])
					}
				}
			}
		}
	}
	var res []string
	if c.Extern && c.Pure {
		res = vc.externApp(c, args)
		for i := range res {
			res[i] = vc.name(x.st, "r", res[i], vc.reg.sortOf(sig.Results().At(i).Type()))
		}
	} else {
		res = x.results(sig)
	}
	x.resultFacts(sig, res)
	z := vc.bindContract(c, x.st, pre, args)
	vc.bindResults(c, z, res)
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			z.doLet(cl)
		case "Ensures":
			vc.fact(x.st, z.bool(cl.call.Args[0]))
		}
	}
	if !c.Lemma {
		inner := false
		for _, cl := range vc.clauses(c) {
			inner = inner || cl.kind == "Always"
		}
		if x.always(e, pre, c.Key) && !c.Extern && !inner {
			vc.assume["the states inside "+c.Key+" are not looked at, only the one it leaves behind"] = true
		}
	}
	return res
}

// always checks the Always clauses of the verified function after a step that changed ghost state:
// they hold at every point where the program may be stopped.
func (x *X) always(e ast.Node, pre *State, what string) bool {
	vc := x.vc
	if vc.dry > 0 || vc.topFr == nil || vc.topFr.c == nil || x.fr.ghost || x.spec {
		return false
	}
	c := vc.topFr.c
	has := false
	for _, cl := range vc.clauses(c) {
		has = has || cl.kind == "Always"
	}
	if !has {
		return false
	}
	changed := pre == nil
	for k, v := range x.st.heap {
		if strings.HasPrefix(k, "GF_") && (pre == nil || vc.hget(pre, k) != v) {
			changed = true
		}
	}
	if !changed {
		return false
	}
	y := vc.bindContract(c, x.st, vc.entry, vc.entryArgs)
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			func() {
				defer func() { recover() }()
				y.doLet(cl)
			}()
		case "Always":
			for k, g := range splitAnd(y.bool(cl.call.Args[0])) {
				vc.obl(x.st, "always", fmt.Sprintf("%s: %s.%d after %s", c.Key, cl.name, k, what), e.Pos(), g)
			}
		}
	}
	return true
}

// ghostCall runs a lemma call (its postcondition becomes a fact).
func (x *X) ghostCall(call *ast.CallExpr) {
	vc := x.vc
	fn := calleeOf(vc.w.info, call)
	if fn == nil {
		vc.unsup(call, "ghost call")
	}
	if vc.w.isVstd(fn) {
		switch fn.Name() {
		case "Assert":
			g := x.bool(call.Args[0])
			for _, p := range splitAnd(g) {
				vc.check(x.st, "assert", "ghost assertion", call.Pos(), p)
			}
			return
		case "Trig":
			for _, a := range call.Args {
				t := x.expr(a)
				n := vc.fresh("trig", x.sort(a))
				vc.fact(x.st, fmt.Sprintf("(= %s %s)", n, t))
			}
			return
		case "When":
			c := x.bool(call.Args[0])
			inner, ok := call.Args[1].(*ast.FuncLit)
			if !ok {
				vc.unsup(call, "When needs a function literal")
			}
			parent := x.st
			b := vc.branch(parent, c)
			e := vc.branch(parent, not(c))
			z := x.with(b)
			for _, s := range inner.Body.List {
				es, ok := s.(*ast.ExprStmt)
				if !ok {
					vc.unsup(s, "When body")
				}
				z.ghostCall(es.X.(*ast.CallExpr))
			}
			*x.st = *vc.merge([]*State{z.st, e}, parent.pc, x.objSort)
			return
		}
	}
	c := vc.w.contractsBy[fn]
	if c == nil || !c.Lemma {
		vc.unsup(call, "ghost call of %s", fn.Name())
	}
	sig := fn.Type().(*types.Signature)
	var args []string
	for i, a := range call.Args {
		args = append(args, x.exprTo(a, sig.Params().At(i).Type()))
	}
	g := *x.fr
	g.ghost = true
	sv := x.fr
	x.fr = &g
	x.contractCall(call, c, args, make([]ast.Expr, len(args)), sig)
	x.fr = sv
}

// realInSpec gives a call of a real function in a specification its meaning: the right side of
// its first 'Ensures(result == E)', or its body when it has no contract.
func (x *X) realInSpec(e ast.Node, fn *types.Func, args []string) (string, bool) {
	vc := x.vc
	sig := fn.Type().(*types.Signature)
	if sig.Results().Len() != 1 {
		return "", false
	}
	rt := sig.Results().At(0).Type()
	y := *x
	y.conds = nil
	if c := vc.w.contractsBy[fn]; c != nil && !c.Inline {
		ro, _ := vc.w.resultObjs(c.Decl)
		if c.Missing != "" || len(ro) != 1 || ro[0] == nil {
			return "", false
		}
		for i, p := range vc.w.paramObjs(c.Decl) {
			if p != nil && i < len(args) {
				y.bind(p, args[i])
			}
		}
		y.fr = &Frame{pkg: c.Pkg.Types, ghost: true, c: c}
		for _, cl := range vc.clauses(c) {
			if cl.kind == "let" {
				y.doLet(cl)
				continue
			}
			if cl.kind != "Ensures" {
				continue
			}
			if b, ok := ast.Unparen(cl.call.Args[0]).(*ast.BinaryExpr); ok && b.Op == token.EQL {
				if id, ok := ast.Unparen(b.X).(*ast.Ident); ok && vc.w.info.ObjectOf(id) == ro[0] {
					return y.exprTo(b.Y, rt), true
				}
			}
			return "", false
		}
		return "", false
	}
	fd := vc.w.funcs[fn]
	if fd == nil || fd.Decl.Body == nil || x.depth() > maxInline {
		return "", false
	}
	for i, p := range vc.w.paramObjs(fd.Decl) {
		if p != nil && i < len(args) {
			y.bind(p, args[i])
		}
	}
	y.fr = &Frame{pkg: fn.Pkg(), ghost: true, parent: x.fr}
	return y.specBody(fd.Decl.Body.List, rt, e), true
}

// ---- external functions

func (vc *VC) externApp(c *Contract, args []string) []string {
	vc.reg.ensureExtern(c)
	var res []string
	for i := 0; i < c.Sig.Results().Len(); i++ {
		s := "ext_" + mangle(c.Key)
		if i > 0 {
			s += fmt.Sprintf("_%d", i)
		}
		if len(args) == 0 {
			res = append(res, s)
		} else {
			res = append(res, "("+s+" "+strings.Join(args, " ")+")")
		}
	}
	return res
}

func (x *X) externCall(e *ast.CallExpr, fn *types.Func, args []string, argEs []ast.Expr) []string {
	vc := x.vc
	name := fn.FullName()
	sig := fn.Type().(*types.Signature)
	if c := vc.w.externs[name]; c != nil {
		if x.spec {
			if !c.Pure {
				vc.unsup(e, "impure %s in specification", name)
			}
			vc.usedContracts[c] = true
			return vc.externApp(c, args)
		}
		// variadic contracts declare a slice parameter: args are already packed
		return x.contractCall(e, c, args, argEs, sig)
	}
	if x.spec {
		vc.unsup(e, "external %s in specification", name)
	}
	vc.assume["external "+name+": any result, no effect on the program's own data, no panic"] = true
	x.havocEscaped(e)
	r := x.results(sig)
	x.resultFacts(sig, r)
	for i, a := range argEs {
		if a == nil {
			continue
		}
		// output parameters
		if u, ok := ast.Unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND {
			if id, ok := ast.Unparen(u.X).(*ast.Ident); ok {
				if o := x.obj(id); vc.boxed[o] {
					n := vc.fresh("out", vc.reg.sortOf(o.Type()))
					vc.typeFacts(x.st, o.Type(), n)
					x.storePtr(x.st.vars[o], o.Type(), n)
				}
			}
		}
		_ = i
	}
	return r
}

// special handles external functions whose meaning depends on the call's syntax.
func (x *X) special(e *ast.CallExpr, fn *types.Func) ([]string, bool) {
	vc := x.vc
	switch fn.FullName() {
	case "fmt.Sprintf":
		if s, ok := x.format(e.Args, e.Ellipsis != token.NoPos); ok {
			return []string{s}, true
		}
	case "fmt.Sprint":
		return nil, false
	case "fmt.Errorf", "errors.New":
		if x.spec {
			return nil, false
		}
		for _, a := range e.Args {
			x.expr(a)
		}
		r := vc.fresh("err", "Iface")
		vc.fact(x.st, fmt.Sprintf("(not (= %s nil_iface))", r))
		return []string{r}, true
	case "fmt.Fprintf":
		c := vc.w.externs["vstd.FprintStr"]
		if c == nil || x.spec {
			return nil, false
		}
		w := x.exprTo(e.Args[0], fn.Type().(*types.Signature).Params().At(0).Type())
		s, ok := x.format(e.Args[1:], e.Ellipsis != token.NoPos)
		if !ok {
			s = vc.fresh("fmt", "Str")
		}
		s = vc.name(x.st, "fs", s, "Str")
		return x.contractCall(e, c, []string{w, s}, []ast.Expr{nil, nil}, c.Sig), true
	case "sort.Strings", "sort.Ints":
		if x.spec {
			return nil, false
		}
		a := e.Args[0]
		old := vc.name(x.st, "sin", x.expr(a), x.sort(a))
		so := x.sort(a)
		sx := x.seqX(so)
		n := vc.fresh("sorted", so)
		es := vc.reg.seqElem[so]
		le := "(<= (at_$x $n i) (at_$x $n j))"
		if es == "Str" {
			le = "(not (str_lt (at_$x $n j) (at_$x $n i)))"
		}
		p := "sperm_" + mangle(so)
		vc.declFun(p, fmt.Sprintf("(%s Int) Int", so))
		q := "sperminv_" + mangle(so)
		vc.declFun(q, fmt.Sprintf("(%s Int) Int", so))
		r := strings.NewReplacer("$x", sx, "$n", n, "$o", old, "$p", p, "$q", q)
		vc.fact(x.st, r.Replace("(= (len_$x $n) (len_$x $o))"))
		vc.fact(x.st, r.Replace("(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (len_$x $n))) "+le+") :pattern ((at_$x $n i) (at_$x $n j))))"))
		vc.fact(x.st, r.Replace("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (len_$x $n))) (and (<= 0 ($p $n i)) (< ($p $n i) (len_$x $o)) (= (at_$x $n i) (at_$x $o ($p $n i))) (= ($q $n ($p $n i)) i))) :pattern ((at_$x $n i))))"))
		vc.fact(x.st, r.Replace("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (len_$x $o))) (and (<= 0 ($q $n i)) (< ($q $n i) (len_$x $n)) (= (at_$x $o i) (at_$x $n ($q $n i))) (= ($p $n ($q $n i)) i))) :pattern ((at_$x $o i))))"))
		x.elemWrite(a, n)
		return nil, true
	case "sort.Slice", "sort.SliceStable", "sort.Sort":
		if x.spec {
			return nil, false
		}
		a := e.Args[0]
		if _, ok := x.typ(a).Underlying().(*types.Slice); ok {
			vc.assume["comparison functions passed to sort have no effects"] = true
			x.havocSlice(a)
			return nil, true
		}
	}
	return nil, false
}

// format translates a constant format string; only %s %d %v %% with string or integer operands.
func (x *X) format(args []ast.Expr, ellipsis bool) (string, bool) {
	vc := x.vc
	if ellipsis || len(args) == 0 {
		return "", false
	}
	tv := vc.w.info.Types[args[0]]
	if tv.Value == nil || tv.Value.Kind() != constant.String {
		for _, a := range args[1:] {
			x.expr(a)
		}
		return "", false
	}
	f := constant.StringVal(tv.Value)
	var parts []string
	lit := ""
	k := 1
	flush := func() {
		if lit != "" {
			parts = append(parts, vc.reg.lit(lit))
			lit = ""
		}
	}
	okAll := true
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 >= len(f) {
			lit += string(f[i])
			continue
		}
		i++
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(args) {
			return "", false
		}
		a := args[k]
		k++
		if cv := vc.w.info.Types[a].Value; f[i] == 'c' && cv != nil {
			r, _ := constant.Int64Val(constant.ToInt(cv))
			lit += string(rune(r))
			continue
		}
		v := x.expr(a)
		t := x.typ(a)
		so := vc.reg.sortOf(t)
		flush()
		switch {
		case (f[i] == 's' || f[i] == 'v') && so == "Str" && !hasStringMethod(t):
			parts = append(parts, v)
		case (f[i] == 'd' || f[i] == 'v') && so == "Int" && isIntT(t) && !hasStringMethod(t):
			parts = append(parts, "(itoa "+v+")")
			vc.reg.ensureItoa()
		case f[i] == 'v' && so == "Bool" && !hasStringMethod(t):
			parts = append(parts, fmt.Sprintf("(ite %s %s %s)", v, vc.reg.lit("true"), vc.reg.lit("false")))
		default:
			okAll = false
			parts = append(parts, vc.fresh("fmtarg", "Str"))
		}
	}
	flush()
	for ; k < len(args); k++ {
		x.expr(args[k])
	}
	if x.spec && !okAll {
		return "", false
	}
	if len(parts) == 0 {
		return "emp_S", true
	}
	s := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		s = fmt.Sprintf("(cat_S %s %s)", parts[i], s)
	}
	return s, true
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" {
			return true
		}
	}
	return false
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

func (c *Contract) noAlloc() bool {
	for _, s := range c.Decl.Body.List {
		if es, ok := s.(*ast.ExprStmt); ok {
			if call, ok := es.X.(*ast.CallExpr); ok {
				if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "NoAlloc" {
					return true
				}
			}
		}
	}
	return false
}

// allocOne: "NoAlloc(r)" of an external function means that only the object r is new.
func (c *Contract) allocOne(w *World) types.Type {
	if !c.Extern {
		return nil
	}
	for _, s := range c.Decl.Body.List {
		es, ok := s.(*ast.ExprStmt)
		if !ok {
			continue
		}
		call, ok := es.X.(*ast.CallExpr)
		if !ok {
			continue
		}
		if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "NoAlloc" && len(call.Args) == 1 {
			return refType(w.info.TypeOf(call.Args[0]))
		}
	}
	return nil
}

func funcOf(info *types.Info, e ast.Expr) *types.Func {
	switch e := e.(type) {
	case *ast.Ident:
		f, _ := info.Uses[e].(*types.Func)
		return f
	case *ast.SelectorExpr:
		f, _ := info.Uses[e.Sel].(*types.Func)
		return f
	}
	return nil
}
