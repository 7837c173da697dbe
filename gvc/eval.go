package main

// Expression evaluation: executable code (with safety obligations) and specifications.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type X struct {
	vc    *VC
	st    *State
	old   *State // state for Old()
	spec  bool
	fr    *Frame
	loop  *loopCtx   // loop whose Iter() is meant (annotations)
	outer []*loopCtx // enclosing loops, innermost last
	sub   func(call *ast.CallExpr, fn *types.Func) (string, bool)
	bound map[types.Object]string // quantified and let-bound variables of specifications
	conds []string                // path conditions inside a specification function body
}

func (x *X) with(st *State) *X { y := *x; y.st = st; return &y }

func (x *X) typ(e ast.Expr) types.Type {
	t := x.vc.w.info.TypeOf(e)
	if t == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := x.obj(id); o != nil {
				return o.Type()
			}
		}
		x.vc.unsup(e, "no type for expression")
	}
	return t
}

func (x *X) obj(id *ast.Ident) types.Object {
	if o := x.vc.w.info.Uses[id]; o != nil {
		return o
	}
	return x.vc.w.info.Defs[id]
}

func (x *X) sort(e ast.Expr) string { return x.vc.reg.sortOf(x.typ(e)) }

func intLit(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprintf("%d", n)
}

func (x *X) constant(v constant.Value, t types.Type) string {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return "true"
		}
		return "false"
	case constant.String:
		return x.vc.reg.lit(constant.StringVal(v))
	case constant.Int:
		if x.vc.reg.sortOf(t) == "Real" {
			return v.ExactString() + ".0"
		}
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ")"
		}
		return s
	case constant.Float:
		if x.vc.reg.sortOf(t) == "Int" {
			if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
				return intLit(i)
			}
		}
		f, _ := constant.Float64Val(v)
		s := fmt.Sprintf("%f", f)
		if f < 0 {
			return "(- " + s[1:] + ")"
		}
		return s
	}
	return "0"
}

// exprTo evaluates e and converts it to type t (interface boxing).
func (x *X) exprTo(e ast.Expr, t types.Type) string {
	v := x.expr(e)
	return x.conv(v, x.typ(e), t)
}

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *X) conv(v string, from, to types.Type) string {
	if to == nil {
		return v
	}
	if isNilT(from) {
		return x.vc.reg.zero(to)
	}
	if isIface(to) && !isIface(from) {
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			from = types.Default(from)
		}
		box, _, _ := x.vc.reg.box(from)
		return fmt.Sprintf("(%s %s)", box, v)
	}
	if x.vc.reg.sortOf(to) == "Real" && x.vc.reg.sortOf(from) == "Int" {
		return "(to_real " + v + ")"
	}
	return v
}

func (x *X) bool(e ast.Expr) string { return x.expr(e) }

func (x *X) expr(e ast.Expr) string {
	if tv, ok := x.vc.w.info.Types[e]; ok && tv.Value != nil {
		return x.constant(tv.Value, tv.Type)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.expr(e.X)
	case *ast.Ident:
		return x.ident(e)
	case *ast.SelectorExpr:
		return x.selector(e)
	case *ast.IndexExpr:
		return x.index(e)
	case *ast.SliceExpr:
		return x.slice(e)
	case *ast.StarExpr:
		p := x.expr(e.X)
		return x.deref(e, p, x.typ(e.X))
	case *ast.UnaryExpr:
		return x.unary(e)
	case *ast.BinaryExpr:
		return x.binary(e)
	case *ast.CallExpr:
		rs := x.call(e)
		if len(rs) == 0 {
			return ""
		}
		return rs[0]
	case *ast.CompositeLit:
		return x.composite(e, x.typ(e))
	case *ast.FuncLit:
		n := x.vc.fresh("clo", "Func")
		x.vc.rawFact(x.st, fmt.Sprintf("(not (= %s nil_func))", n))
		x.vc.closures[n] = &closure{e, x.fr, x}
		return n
	case *ast.TypeAssertExpr:
		v, ok := x.typeAssert(e)
		if !x.spec {
			x.vc.check(x.st, "safety", "type assertion", e.Pos(), ok)
		}
		return v
	case *ast.BasicLit:
		x.vc.unsup(e, "literal")
	}
	x.vc.unsup(e, "expression %T", e)
	return ""
}

func (x *X) deref(n ast.Node, p string, pt types.Type) string {
	el := pt.Underlying().(*types.Pointer).Elem()
	x.nonNil(n, p)
	return x.loadPtr(p, el)
}

func (x *X) loadPtr(p string, el types.Type) string {
	if _, ok := el.Underlying().(*types.Struct); ok {
		si := x.vc.reg.structOf(el)
		if len(si.Fields) == 0 {
			return "mk_" + si.Sort
		}
		parts := []string{"(mk_" + si.Sort}
		for i := range si.Fields {
			c := x.vc.fieldComp(si, i)
			parts = append(parts, fmt.Sprintf("(select %s %s)", x.vc.hget(x.st, c), p))
		}
		v := strings.Join(parts, " ") + ")"
		if !x.spec {
			v = x.vc.name(x.st, "sv", v, si.Sort)
			x.vc.typeFacts(x.st, el, v)
		}
		return v
	}
	v := fmt.Sprintf("(select %s %s)", x.vc.hget(x.st, x.vc.cellComp(el)), p)
	if !x.spec {
		v = x.vc.name(x.st, "cv", v, x.vc.reg.sortOf(el))
		x.vc.typeFacts(x.st, el, v)
	}
	return v
}

func (x *X) nonNil(n ast.Node, p string) {
	if x.spec {
		return
	}
	x.vc.check(x.st, "safety", "nil dereference", n.Pos(), fmt.Sprintf("(not (= %s 0))", p))
}

func (x *X) ident(e *ast.Ident) string {
	o := x.obj(e)
	if o == nil {
		x.vc.unsup(e, "unresolved identifier %s", e.Name)
	}
	switch o := o.(type) {
	case *types.Nil:
		return x.vc.reg.zero(x.nilType(e))
	case *types.Const:
		return x.constant(o.Val(), o.Type())
	case *types.Var:
		return x.readVar(e, o)
	case *types.Func:
		n := "fn_" + mangle(funcKey(o))
		x.vc.declOnce(n, "Func")
		return n
	}
	x.vc.unsup(e, "identifier %s", e.Name)
	return ""
}

func (vc *VC) declOnce(n, s string) {
	d := fmt.Sprintf("(declare-const %s %s)", n, s)
	for _, x := range vc.decls {
		if x == d {
			return
		}
	}
	vc.decls = append(vc.decls, d)
}

func (x *X) nilType(e ast.Expr) types.Type {
	t := x.vc.w.info.TypeOf(e)
	if t == nil || isNilT(t) {
		return types.Typ[types.UntypedNil]
	}
	return t
}

func (x *X) isBoxed(o types.Object) bool { return x.vc.boxed[o] }

func (x *X) readVar(n ast.Node, o *types.Var) string {
	if v, ok := x.bound[o]; ok {
		return v
	}
	if v, ok := x.st.vars[o]; ok {
		if x.isBoxed(o) {
			return x.loadPtr(v, o.Type())
		}
		return v
	}
	if o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		v := x.vc.hget(x.st, x.vc.globalComp(o))
		return v
	}
	x.vc.unsup(n, "variable %s has no value here", o.Name())
	return ""
}

func derefType(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

// fieldAccess follows one field index from a value (or pointer) of type t.
func (x *X) fieldStep(n ast.Node, v string, t types.Type, idx int) (string, types.Type) {
	el, ptr := derefType(t)
	si := x.vc.reg.structOf(el)
	f := si.Fields[idx]
	if ptr {
		x.nonNil(n, v)
		c := x.vc.fieldComp(si, idx)
		r := fmt.Sprintf("(select %s %s)", x.vc.hget(x.st, c), v)
		if !x.spec {
			r = x.vc.name(x.st, f.Name(), r, si.FSorts[idx])
			x.vc.typeFacts(x.st, f.Type(), r)
		}
		return r, f.Type()
	}
	return fmt.Sprintf("(%s %s)", x.vc.reg.sel(si, idx), v), f.Type()
}

func (x *X) selector(e *ast.SelectorExpr) string {
	sel := x.vc.w.info.Selections[e]
	if sel == nil {
		o := x.vc.w.info.Uses[e.Sel]
		switch o := o.(type) {
		case *types.Var:
			if x.vc.w.inRepo(o) || x.vc.w.isVstd(o) {
				return x.vc.hget(x.st, x.vc.globalComp(o))
			}
			n := "XG_" + mangle(o.Pkg().Path()+"."+o.Name())
			x.vc.declOnce(n, x.vc.reg.sortOf(o.Type()))
			return n
		case *types.Const:
			return x.constant(o.Val(), o.Type())
		case *types.Func:
			n := "fn_" + mangle(funcKey(o))
			x.vc.declOnce(n, "Func")
			return n
		}
		x.vc.unsup(e, "selector")
	}
	if sel.Kind() == types.MethodVal || sel.Kind() == types.MethodExpr {
		n := x.vc.fresh("mv", "Func")
		return n
	}
	// read of a field of a struct variable held boxed: avoid building the whole value
	if id, ok := e.X.(*ast.Ident); ok {
		if o, ok := x.obj(id).(*types.Var); ok && x.isBoxed(o) {
			if _, isP := derefType(o.Type()); !isP {
				v, t := x.st.vars[o], types.Type(types.NewPointer(o.Type()))
				for _, i := range sel.Index() {
					v, t = x.fieldStepNoNil(e, v, t, i)
				}
				return v
			}
		}
	}
	v := x.expr(e.X)
	t := x.typ(e.X)
	for _, i := range sel.Index() {
		v, t = x.fieldStep(e, v, t, i)
	}
	return v
}

func (x *X) fieldStepNoNil(n ast.Node, v string, t types.Type, idx int) (string, types.Type) {
	sp := x.spec
	y := *x
	y.spec = true
	r, rt := y.fieldStep(n, v, t, idx)
	_ = sp
	return r, rt
}

func (x *X) seqX(s string) string { return x.vc.reg.seqSfx[s] }

func (x *X) lenOf(v string, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Map:
		dom, _, ks, _ := x.vc.mapComps(t)
		c := x.vc.reg.card(ks)
		return fmt.Sprintf("(%s (select %s %s))", c, x.vc.hget(x.st, dom), v)
	case *types.Pointer:
		return x.lenOf(v, u.Elem())
	case *types.Array:
		return fmt.Sprint(u.Len())
	}
	s := x.vc.reg.sortOf(t)
	return fmt.Sprintf("(len_%s %s)", x.seqX(s), v)
}

func (x *X) index(e *ast.IndexExpr) string {
	if _, ok := x.vc.w.info.Types[e.X]; ok {
		if _, isSig := x.typ(e.X).Underlying().(*types.Signature); isSig {
			return x.expr(e.X)
		}
	}
	t := x.typ(e.X)
	if m, ok := t.Underlying().(*types.Map); ok {
		mv := x.expr(e.X)
		k := x.exprTo(e.Index, m.Key())
		v, _ := x.mapGet(mv, k, t)
		return v
	}
	s := x.expr(e.X)
	i := x.expr(e.Index)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s = x.deref(e, s, t)
		t = p.Elem()
	}
	x.bounds(e, i, x.lenOf(s, t))
	so := x.vc.reg.sortOf(t)
	v := fmt.Sprintf("(at_%s %s %s)", x.seqX(so), s, i)
	if !x.spec {
		if et := elemType(t); et != nil {
			v = x.vc.name(x.st, "el", v, x.vc.reg.sortOf(et))
			x.vc.typeFacts(x.st, et, v)
		}
	}
	return v
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

func (x *X) bounds(n ast.Node, i, l string) {
	if x.spec {
		return
	}
	x.vc.check(x.st, "safety", "index in range", n.Pos(), fmt.Sprintf("(and (<= 0 %s) (< %s %s))", i, i, l))
}

func (x *X) mapGet(m, k string, t types.Type) (val, ok string) {
	dom, vc, _, vs := x.vc.mapComps(t)
	ok = fmt.Sprintf("(select (select %s %s) %s)", x.vc.hget(x.st, dom), m, k)
	raw := fmt.Sprintf("(select (select %s %s) %s)", x.vc.hget(x.st, vc), m, k)
	et := t.Underlying().(*types.Map).Elem()
	z := x.vc.reg.zero(et)
	if z == "" {
		z = raw
	}
	val = fmt.Sprintf("(ite %s %s %s)", ok, raw, z)
	if !x.spec {
		val = x.vc.name(x.st, "mv", val, vs)
		ok = x.vc.name(x.st, "mok", ok, "Bool")
		x.vc.typeFacts(x.st, et, val)
	}
	return
}

func (x *X) slice(e *ast.SliceExpr) string {
	t := x.typ(e.X)
	s := x.expr(e.X)
	lo := "0"
	if e.Low != nil {
		lo = x.expr(e.Low)
	}
	l := x.lenOf(s, t)
	hi := l
	if e.High != nil {
		hi = x.expr(e.High)
	}
	if !x.spec {
		x.vc.check(x.st, "safety", "slice bounds", e.Pos(), fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, l))
	}
	if lo == "0" && hi == l {
		return s
	}
	return fmt.Sprintf("(sub_%s %s %s %s)", x.seqX(x.vc.reg.sortOf(t)), s, lo, hi)
}

func (x *X) unary(e *ast.UnaryExpr) string {
	switch e.Op {
	case token.NOT:
		return not(x.expr(e.X))
	case token.SUB:
		return "(- " + x.expr(e.X) + ")"
	case token.ADD:
		return x.expr(e.X)
	case token.AND:
		return x.addrOf(e)
	case token.ARROW:
		x.vc.unsup(e, "channel receive")
	}
	x.vc.unsup(e, "unary %s", e.Op)
	return ""
}

func (x *X) addrOf(e *ast.UnaryExpr) string {
	in := ast.Unparen(e.X)
	if cl, ok := in.(*ast.CompositeLit); ok {
		t := x.typ(cl)
		if _, ok := t.Underlying().(*types.Struct); ok {
			si := x.vc.reg.structOf(t)
			vals := x.structVals(cl, t)
			return x.vc.allocStruct(x.st, si, vals)
		}
	}
	if id, ok := in.(*ast.Ident); ok {
		if o, ok := x.obj(id).(*types.Var); ok && x.isBoxed(o) {
			return x.st.vars[o]
		}
	}
	x.vc.unsup(e, "address of %T", in)
	return ""
}

func (x *X) structVals(e *ast.CompositeLit, t types.Type) []string {
	si := x.vc.reg.structOf(t)
	vals := make([]string, len(si.Fields))
	for i, el := range e.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			nm := kv.Key.(*ast.Ident).Name
			for j, f := range si.Fields {
				if f.Name() == nm {
					vals[j] = x.litElem(kv.Value, f.Type())
				}
			}
		} else {
			vals[i] = x.litElem(el, si.Fields[i].Type())
		}
	}
	for i := range vals {
		if vals[i] == "" {
			z := x.vc.reg.zero(si.Fields[i].Type())
			if z == "" {
				z = x.vc.fresh("zero", si.FSorts[i])
			}
			vals[i] = z
		}
	}
	return vals
}

func (x *X) litElem(e ast.Expr, t types.Type) string {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			si := x.vc.reg.structOf(p.Elem())
			return x.vc.allocStruct(x.st, si, x.structVals(cl, p.Elem()))
		}
		return x.composite(cl, t)
	}
	return x.exprTo(e, t)
}

func (x *X) composite(e *ast.CompositeLit, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		si := x.vc.reg.structOf(t)
		if len(si.Fields) == 0 {
			return "mk_" + si.Sort
		}
		vals := x.structVals(e, t)
		v := "(mk_" + si.Sort + " " + strings.Join(vals, " ") + ")"
		if x.spec {
			return v
		}
		return x.vc.name(x.st, "sv", v, si.Sort)
	case *types.Slice:
		return x.seqLit(e, t, u.Elem())
	case *types.Array:
		return x.seqLit(e, t, u.Elem())
	case *types.Map:
		if x.spec {
			x.vc.unsup(e, "map literal in a specification")
		}
		dom, val, ks, vs := x.vc.mapComps(t)
		if len(e.Elts) == 0 {
			return x.vc.allocMap(x.st, t)
		}
		d := fmt.Sprintf("((as const (Array %s Bool)) false)", ks)
		v := ""
		var kvs [][2]string
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			kvs = append(kvs, [2]string{x.litElem(kv.Key, u.Key()), x.litElem(kv.Value, u.Elem())})
		}
		r := x.vc.alloc(x.st, t)
		v = fmt.Sprintf("(select %s %s)", x.vc.hget(x.st, val), r)
		for _, kv := range kvs {
			d = fmt.Sprintf("(store %s %s true)", d, kv[0])
			x.vc.fact(x.st, fmt.Sprintf("(= (select %s %s) %s)", v, kv[0], kv[1]))
		}
		_ = vs
		x.vc.fact(x.st, fmt.Sprintf("(= (select %s %s) %s)", x.vc.hget(x.st, dom), r, d))
		return r
	}
	x.vc.unsup(e, "composite literal of %s", t)
	return ""
}

func (x *X) seqLit(e *ast.CompositeLit, t, el types.Type) string {
	so := x.vc.reg.sortOf(t)
	sx := x.seqX(so)
	if len(e.Elts) == 0 {
		return "emp_" + sx
	}
	var us []string
	for _, it := range e.Elts {
		if _, ok := it.(*ast.KeyValueExpr); ok {
			x.vc.unsup(e, "keyed slice literal")
		}
		us = append(us, fmt.Sprintf("(unit_%s %s)", sx, x.litElem(it, el)))
	}
	v := us[len(us)-1]
	for i := len(us) - 2; i >= 0; i-- {
		v = fmt.Sprintf("(cat_%s %s %s)", sx, us[i], v)
	}
	if x.spec {
		return v
	}
	n := x.vc.name(x.st, "lst", v, so)
	if len(us) <= 64 && len(us) > 1 {
		x.vc.fact(x.st, fmt.Sprintf("(= (len_%s %s) %d)", sx, n, len(us)))
		for i, u := range us {
			x.vc.fact(x.st, fmt.Sprintf("(= (at_%s %s %d) %s)", sx, n, i, strings.TrimSuffix(strings.TrimPrefix(u, "(unit_"+sx+" "), ")")))
		}
	}
	return n
}

func hasCall(e ast.Expr, info *types.Info) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if tv, ok := info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
				return true
			}
			found = true
		}
		return !found
	})
	return found
}

func (x *X) binary(e *ast.BinaryExpr) string {
	switch e.Op {
	case token.LAND, token.LOR:
		a := x.expr(e.X)
		if x.spec {
			y := x
			if x.conds != nil {
				z := *x
				c := a
				if e.Op == token.LOR {
					c = not(a)
				}
				z.conds = append(append([]string{}, x.conds...), c)
				y = &z
			}
			b := y.expr(e.Y)
			if e.Op == token.LAND {
				return and(a, b)
			}
			return or(a, b)
		}
		a = x.vc.name(x.st, "c", a, "Bool")
		cond := a
		if e.Op == token.LOR {
			cond = not(a)
		}
		parent := x.st
		b1 := x.vc.branch(parent, cond)
		b2 := x.vc.branch(parent, not(cond))
		y := x.with(b1)
		b := y.expr(e.Y)
		b1 = y.st
		res := x.vc.fresh("sc", "Bool")
		x.vc.fact(b1, fmt.Sprintf("(= %s %s)", res, b))
		if e.Op == token.LAND {
			x.vc.fact(b2, not(res))
		} else {
			x.vc.fact(b2, res)
		}
		m := x.vc.merge([]*State{b1, b2}, parent.pc, x.objSort)
		*x.st = *m
		return res
	}
	tx, ty := x.typ(e.X), x.typ(e.Y)
	// comparison with nil
	if e.Op == token.EQL || e.Op == token.NEQ {
		var r string
		if isNilE(x, e.Y) || isNilE(x, e.X) {
			op, t := e.X, tx
			if isNilE(x, e.X) {
				op, t = e.Y, ty
			}
			v := x.expr(op)
			switch t.Underlying().(type) {
			case *types.Slice:
				l := fmt.Sprintf("(= %s 0)", x.lenOf(v, t))
				if x.spec {
					r = l
				} else {
					r = x.vc.fresh("isnil", "Bool")
					x.vc.fact(x.st, imp(r, l))
				}
			case *types.Interface:
				r = fmt.Sprintf("(= %s nil_iface)", v)
			case *types.Signature:
				r = fmt.Sprintf("(= %s nil_func)", v)
			default:
				r = fmt.Sprintf("(= %s 0)", v)
			}
		} else {
			a, b := x.expr(e.X), x.expr(e.Y)
			if isIface(tx) && !isIface(ty) {
				b = x.conv(b, ty, tx)
				ty = tx
			} else if isIface(ty) && !isIface(tx) {
				a = x.conv(a, tx, ty)
				tx = ty
			}
			so := x.vc.reg.sortOf(tx)
			if so == "Real" || x.vc.reg.sortOf(ty) == "Real" {
				a, b = x.conv(a, tx, types.Typ[types.Float64]), x.conv(b, ty, types.Typ[types.Float64])
			}
			r = x.vc.reg.eqT(so, a, b)
		}
		if e.Op == token.NEQ {
			return not(r)
		}
		return r
	}
	a, b := x.expr(e.X), x.expr(e.Y)
	return x.arith(e, e.Op, a, b, tx, ty)
}

func isNilE(x *X, e ast.Expr) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	_, ok = x.obj(id).(*types.Nil)
	return ok
}

func (x *X) arith(e ast.Node, op token.Token, a, b string, tx, ty types.Type) string {
	so := x.vc.reg.sortOf(tx)
	if so == "Str" {
		switch op {
		case token.ADD:
			return fmt.Sprintf("(cat_S %s %s)", a, b)
		case token.LSS:
			return fmt.Sprintf("(str_lt %s %s)", a, b)
		case token.GTR:
			return fmt.Sprintf("(str_lt %s %s)", b, a)
		case token.LEQ:
			return fmt.Sprintf("(not (str_lt %s %s))", b, a)
		case token.GEQ:
			return fmt.Sprintf("(not (str_lt %s %s))", a, b)
		}
	}
	if so == "Real" || x.vc.reg.sortOf(ty) == "Real" {
		a, b = x.conv(a, tx, types.Typ[types.Float64]), x.conv(b, ty, types.Typ[types.Float64])
		so = "Real"
	}
	switch op {
	case token.ADD, token.SUB, token.MUL, token.LSS, token.GTR, token.LEQ, token.GEQ:
		o := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.LSS: "<", token.GTR: ">", token.LEQ: "<=", token.GEQ: ">="}[op]
		return fmt.Sprintf("(%s %s %s)", o, a, b)
	case token.QUO, token.REM:
		if so == "Real" {
			return fmt.Sprintf("(/ %s %s)", a, b)
		}
		if !x.spec {
			x.vc.check(x.st, "safety", "division by zero", e.Pos(), fmt.Sprintf("(not (= %s 0))", b))
		}
		f := "godiv"
		if op == token.REM {
			f = "gomod"
		}
		return fmt.Sprintf("(%s %s %s)", f, a, b)
	}
	if so == "Int" {
		switch op {
		case token.OR:
			return fmt.Sprintf("(bor %s %s)", a, b)
		case token.AND:
			for k := 1; k <= 128; k *= 2 {
				switch fmt.Sprint(k) {
				case b:
					return fmt.Sprintf("(band %s %s)", a, b)
				case a:
					return fmt.Sprintf("(band %s %s)", b, a)
				}
			}
		}
	}
	if x.spec {
		x.vc.unsup(e, "operator %s", op)
	}
	x.vc.assume["bit operations are unconstrained"] = true
	return x.vc.fresh("bits", so)
}

func (x *X) objSort(o types.Object) string {
	if x.vc.boxed[o] {
		return "Int"
	}
	if hv, ok := o.(*hiddenVar); ok {
		return hv.sort
	}
	return x.vc.reg.sortOf(o.Type())
}

// hiddenVar is an executor-internal variable (loop index, seen set).
type hiddenVar struct {
	*types.Var
	sort string
}

func newHidden(name, sort string) *hiddenVar {
	return &hiddenVar{types.NewVar(token.NoPos, nil, name, types.Typ[types.Int]), sort}
}

func (x *X) typeAssert(e *ast.TypeAssertExpr) (v, ok string) {
	i := x.expr(e.X)
	t := x.typ(e.Type)
	if isIface(t) {
		if x.spec {
			x.vc.unsup(e, "interface type assertion in specification")
		}
		if t.Underlying().(*types.Interface).Empty() {
			return i, fmt.Sprintf("(not (= %s nil_iface))", i)
		}
		k := "impl_" + mangle(typeName(t))
		x.vc.declFun(k, "(Int) Bool")
		x.vc.rawFact(x.st, fmt.Sprintf("(not (%s 0))", k))
		return i, fmt.Sprintf("(%s (tag_of %s))", k, i)
	}
	_, unbox, tag := x.vc.reg.box(t)
	v = fmt.Sprintf("(%s %s)", unbox, i)
	ok = fmt.Sprintf("(= (tag_of %s) %d)", i, tag)
	return
}

func (vc *VC) declFun(n, sig string) {
	d := fmt.Sprintf("(declare-fun %s %s)", n, sig)
	for _, x := range vc.decls {
		if x == d {
			return
		}
	}
	vc.decls = append(vc.decls, d)
}
