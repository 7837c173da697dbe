package main

// Statement execution.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// scanBoxed finds variables whose address is taken; they live in the heap.
func (vc *VC) scanBoxed(body ast.Node) {
	if vc.scanned[body] {
		return
	}
	vc.scanned[body] = true
	info := vc.w.info
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
					if o, ok := info.Uses[id].(*types.Var); ok {
						vc.boxed[o] = true
					}
				}
			}
		case *ast.CallExpr:
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				if sel := info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					f := sel.Obj().(*types.Func)
					r := f.Type().(*types.Signature).Recv()
					if r == nil {
						return true
					}
					if _, ptr := r.Type().(*types.Pointer); ptr {
						if id, ok := ast.Unparen(se.X).(*ast.Ident); ok && len(sel.Index()) == 1 {
							if o, ok := info.Uses[id].(*types.Var); ok {
								if _, isP := o.Type().Underlying().(*types.Pointer); !isP && !isIface(o.Type()) {
									vc.boxed[o] = true
								}
							}
						}
					}
				}
			}
		}
		return true
	})
}

// declare binds a new variable.
func (x *X) declare(o types.Object, v string) {
	if o == nil {
		return
	}
	vc := x.vc
	vc.logVar(o)
	if vc.boxed[o] {
		t := o.Type()
		if _, ok := t.Underlying().(*types.Struct); ok {
			si := vc.reg.structOf(t)
			vals := make([]string, len(si.Fields))
			for i := range si.Fields {
				vals[i] = fmt.Sprintf("(%s %s)", vc.reg.sel(si, i), v)
			}
			x.st.vars[o] = vc.allocStruct(x.st, si, vals)
			return
		}
		c := vc.cellComp(t)
		r := vc.alloc(x.st, t)
		vc.fact(x.st, fmt.Sprintf("(= (select %s %s) %s)", vc.hget(x.st, c), r, v))
		x.st.vars[o] = r
		return
	}
	x.st.vars[o] = vc.name(x.st, o.Name(), v, vc.reg.sortOf(o.Type()))
}

func (x *X) setVar(o types.Object, v string) {
	if x.vc.boxed[o] {
		x.storePtr(x.st.vars[o], o.Type(), v)
		return
	}
	x.vc.logVar(o)
	x.st.vars[o] = x.vc.name(x.st, o.Name(), v, x.vc.reg.sortOf(o.Type()))
}

func (x *X) storePtr(p string, el types.Type, v string) {
	vc := x.vc
	if _, ok := el.Underlying().(*types.Struct); ok {
		si := vc.reg.structOf(el)
		for i := range si.Fields {
			vc.hstore(x.st, vc.fieldComp(si, i), p, fmt.Sprintf("(%s %s)", vc.reg.sel(si, i), v))
		}
		return
	}
	vc.hstore(x.st, vc.cellComp(el), p, v)
}

func (x *X) assign(l ast.Expr, v string) {
	vc := x.vc
	l = ast.Unparen(l)
	switch l := l.(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		o := x.obj(l)
		if x.vc.w.info.Defs[l] != nil {
			x.declare(o, v)
			return
		}
		if o.Parent() == o.Pkg().Scope() {
			c := vc.globalComp(o)
			vc.hset(x.st, c, "", v)
			return
		}
		x.setVar(o, v)
		return
	case *ast.SelectorExpr:
		sel := vc.w.info.Selections[l]
		if sel == nil {
			o := vc.w.info.Uses[l.Sel]
			if vc.w.inRepo(o) || vc.w.isVstd(o) {
				vc.hset(x.st, vc.globalComp(o), "", v)
				return
			}
			vc.unsup(l, "assignment to foreign variable")
		}
		x.assignField(l, l.X, x.typ(l.X), sel.Index(), v)
		return
	case *ast.IndexExpr:
		t := x.typ(l.X)
		if m, ok := t.Underlying().(*types.Map); ok {
			mv := x.expr(l.X)
			k := x.exprTo(l.Index, m.Key())
			x.mapSet(l, mv, k, v, t)
			return
		}
		s := x.expr(l.X)
		i := x.expr(l.Index)
		x.bounds(l, i, x.lenOf(s, t))
		so := vc.reg.sortOf(t)
		x.elemWrite(l.X, fmt.Sprintf("(upd_%s %s %s %s)", x.seqX(so), s, i, v))
		return
	case *ast.StarExpr:
		p := x.expr(l.X)
		x.nonNil(l, p)
		el, _ := derefType(x.typ(l.X))
		x.storePtr(p, el, v)
		return
	}
	vc.unsup(l, "assignment to %T", l)
}

func (x *X) mapSet(n ast.Node, mv, k, v string, t types.Type) {
	vc := x.vc
	dom, val, _, _ := vc.mapComps(t)
	vc.check(x.st, "safety", "write to nil map", n.Pos(), fmt.Sprintf("(not (= %s 0))", mv))
	d, vv := vc.hget(x.st, dom), vc.hget(x.st, val)
	nd := vc.name(x.st, "dom", fmt.Sprintf("(store (select %s %s) %s true)", d, mv, k), arrElem(vc.comps[dom]))
	vc.hstore(x.st, dom, mv, nd)
	vc.hstore(x.st, val, mv, fmt.Sprintf("(store (select %s %s) %s %s)", vv, mv, k, v))
}

func (x *X) mapDelete(mv, k string, t types.Type) {
	vc := x.vc
	dom, _, _, _ := vc.mapComps(t)
	d := vc.hget(x.st, dom)
	// deleting from a nil map is a no-op
	nd := vc.name(x.st, "dom", fmt.Sprintf("(store (select %s %s) %s false)", d, mv, k), arrElem(vc.comps[dom]))
	vc.hstore(x.st, dom, mv, nd)
}

// assignField assigns base.path = v where base is an expression.
func (x *X) assignField(n ast.Node, base ast.Expr, bt types.Type, path []int, v string) {
	vc := x.vc
	// walk down to the last pointer
	cur := x.expr2(base)
	t := bt
	type step struct {
		val string
		si  *StructInfo
		idx int
	}
	lastPtr := -1
	var steps []step
	var ptrRef string
	for k, idx := range path {
		el, ptr := derefType(t)
		si := vc.reg.structOf(el)
		if ptr {
			x.nonNil(n, cur)
			lastPtr = k
			ptrRef = cur
		}
		steps = append(steps, step{cur, si, idx})
		if k < len(path)-1 {
			if ptr {
				cur = fmt.Sprintf("(select %s %s)", vc.hget(x.st, vc.fieldComp(si, idx)), cur)
			} else {
				cur = fmt.Sprintf("(%s %s)", vc.reg.sel(si, idx), cur)
			}
		}
		t = si.Fields[idx].Type()
	}
	val := v
	for k := len(steps) - 1; k > lastPtr; k-- {
		s := steps[k]
		var parts []string
		for i := range s.si.Fields {
			if i == s.idx {
				parts = append(parts, val)
			} else {
				parts = append(parts, fmt.Sprintf("(%s %s)", vc.reg.sel(s.si, i), s.val))
			}
		}
		val = "(mk_" + s.si.Sort + " " + strings.Join(parts, " ") + ")"
	}
	if lastPtr >= 0 {
		s := steps[lastPtr]
		vc.hstore(x.st, vc.fieldComp(s.si, s.idx), ptrRef, val)
		return
	}
	// boxed local struct variable: store the field directly
	if id, ok := ast.Unparen(base).(*ast.Ident); ok {
		if o := x.obj(id); vc.boxed[o] {
			x.storePtr(x.st.vars[o], bt, vc.name(x.st, "sv", val, vc.reg.sortOf(bt)))
			return
		}
	}
	x.assign(base, vc.name(x.st, "sv", val, vc.reg.sortOf(bt)))
}

func (x *X) expr2(e ast.Expr) string { return x.expr(e) }

// elemWrite: the slice denoted by e now has value v (its elements were written in place).
func (x *X) elemWrite(e ast.Expr, v string) {
	vc := x.vc
	e = ast.Unparen(e)
	switch b := e.(type) {
	case *ast.Ident:
		o := x.obj(b)
		if vo, ok := o.(*types.Var); ok {
			if _, isArr := vo.Type().Underlying().(*types.Array); !isArr && !x.ownedSlice(vo) {
				x.clobber(e, vo)
			}
		}
		if o.Parent() == o.Pkg().Scope() {
			vc.hset(x.st, vc.globalComp(o), "", v)
			return
		}
		x.setVar(o, v)
		return
	case *ast.SelectorExpr:
		vc.assume["slices held in different fields or variables do not share a written backing array"] = true
		x.assign(e, v)
		return
	case *ast.IndexExpr:
		vc.assume["slices held in different fields or variables do not share a written backing array"] = true
		x.assign(e, v)
		return
	case *ast.SliceExpr:
		// writing through a reslice: the base's elements become unknown
		x.havocSlice(b.X)
		return
	}
	vc.check(x.st, "alias", "in-place write to a slice of unknown origin", e.Pos(), "false")
}

// havocSlice: the elements of the slice denoted by e were overwritten; its length is kept.
func (x *X) havocSlice(e ast.Expr) {
	vc := x.vc
	e = ast.Unparen(e)
	if s, ok := e.(*ast.SliceExpr); ok {
		x.havocSlice(s.X)
		return
	}
	if _, ok := e.(*ast.CallExpr); ok {
		return // unnamed value: nobody can observe it... unless the callee keeps it
	}
	if _, ok := e.(*ast.CompositeLit); ok {
		return
	}
	old := x.expr(e)
	so := x.sort(e)
	n := vc.fresh("clob", so)
	vc.fact(x.st, fmt.Sprintf("(= (len_%s %s) (len_%s %s))", x.seqX(so), n, x.seqX(so), old))
	x.elemWrite(e, n)
}

// ownedSlice: the variable only ever holds slices allocated in its function.
func (x *X) ownedSlice(o *types.Var) bool {
	fr := x.fr
	var body ast.Node
	for f := fr; f != nil; f = f.parent {
		b := ast.Node(nil)
		if f.lit != nil {
			b = f.lit.Body
		} else if f.fd != nil {
			b = f.fd.Decl.Body
		}
		if b != nil && b.Pos() <= o.Pos() && o.Pos() < b.End() {
			body = b
			break
		}
	}
	if body == nil {
		for f := fr; f != nil; f = f.parent { // named results are owned if all assignments are
			for _, r := range f.results {
				if r == o && f.fd != nil {
					body = f.fd.Decl.Body
				}
			}
		}
		if body == nil {
			return false
		}
	}
	return x.vc.ownedVar(o, body, nil, 4)
}

// ownedVar: every value assigned to o in body is a slice allocated there (or, for the parameters in
// args, one whose argument is), or comes from a function of the repository that returns such a slice.
func (vc *VC) ownedVar(o *types.Var, body ast.Node, args map[types.Object]func() bool, depth int) bool {
	info := vc.w.info
	owned := true
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				id, ok := ast.Unparen(l).(*ast.Ident)
				if !ok || (info.Defs[id] != o && info.Uses[id] != o) {
					continue
				}
				if len(n.Rhs) == 1 && len(n.Lhs) > 1 {
					call, isCall := ast.Unparen(n.Rhs[0]).(*ast.CallExpr)
					if !isCall || !vc.freshResult(call, i, o, body, args, depth) {
						owned = false
					}
				} else if len(n.Rhs) != len(n.Lhs) || !vc.freshExpr(n.Rhs[i], o, body, args, depth) {
					owned = false
				}
			}
		case *ast.ValueSpec:
			for i, id := range n.Names {
				if info.Defs[id] == o && len(n.Values) > 0 {
					if len(n.Values) != len(n.Names) || !vc.freshExpr(n.Values[i], o, body, args, depth) {
						owned = false
					}
				}
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{n.Key, n.Value} {
				if id, ok := l.(*ast.Ident); ok && (info.Defs[id] == o || info.Uses[id] == o) {
					owned = false
				}
			}
		case *ast.UnaryExpr:
			if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && n.Op == token.AND && info.Uses[id] == o {
				owned = false
			}
		}
		return true
	})
	return owned
}

func (vc *VC) freshExpr(e ast.Expr, o *types.Var, body ast.Node, args map[types.Object]func() bool, depth int) bool {
	info := vc.w.info
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.CompositeLit:
		return true
	case *ast.Ident:
		u := info.Uses[e]
		if _, ok := u.(*types.Nil); ok || u == types.Object(o) && o != nil {
			return true
		}
		if f, ok := args[u]; ok {
			return f()
		}
		if v, ok := u.(*types.Var); ok && depth > 0 && body != nil && body.Pos() <= v.Pos() && v.Pos() < body.End() {
			if _, isSl := v.Type().Underlying().(*types.Slice); isSl {
				vc.assume["slices held in different fields or variables do not share a written backing array"] = true
				return vc.ownedVar(v, body, args, depth-1)
			}
		}
		return false
	case *ast.SliceExpr:
		return vc.freshExpr(e.X, o, body, args, depth)
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok {
			if id.Name == "make" {
				return true
			}
			if id.Name == "append" {
				return vc.freshExpr(e.Args[0], o, body, args, depth)
			}
		}
		if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
			return true // conversions from string copy
		}
		if f := calleeOf(info, e); f != nil && f.Pkg() != nil {
			switch f.FullName() {
			case "strings.Split", "strings.Fields":
				return true
			}
			return vc.freshResult(e, 0, o, body, args, depth)
		}
	}
	return false
}

// freshResult: result k of the call is a slice that the called function allocated, or one of its
// slice arguments, all of which are owned here.
func (vc *VC) freshResult(call *ast.CallExpr, k int, o *types.Var, body ast.Node, args map[types.Object]func() bool, depth int) bool {
	fn := calleeOf(vc.w.info, call)
	if fn == nil || depth <= 0 {
		return false
	}
	fd := vc.w.funcs[fn]
	if fd == nil || fd.Ghost || fd.Decl.Body == nil || call.Ellipsis.IsValid() {
		return false
	}
	sig := fn.Type().(*types.Signature)
	if sig.Variadic() {
		return false
	}
	in := map[types.Object]func() bool{}
	i := 0
	for _, f := range fd.Decl.Type.Params.List {
		for _, id := range f.Names {
			if i < len(call.Args) {
				arg := call.Args[i]
				in[vc.w.info.Defs[id]] = func() bool {
					vc.assume["slices held in different fields or variables do not share a written backing array"] = true
					return vc.freshExpr(arg, o, body, args, depth-1)
				}
			}
			i++
		}
	}
	var named []*types.Var
	if fd.Decl.Type.Results != nil {
		for _, f := range fd.Decl.Type.Results.List {
			for _, id := range f.Names {
				v, _ := vc.w.info.Defs[id].(*types.Var)
				named = append(named, v)
			}
		}
	}
	for v := range in { // a parameter that is reassigned stays owned only if all its values are
		if pv, ok := v.(*types.Var); ok {
			if _, isSl := pv.Type().Underlying().(*types.Slice); isSl {
				arg := in[v]
				in[v] = func() bool { return arg() && vc.ownedVar(pv, fd.Decl.Body, nil, depth-1) }
			}
		}
	}
	ok := true
	usesNamed := func() {
		if len(named) <= k || named[k] == nil || !vc.ownedVar(named[k], fd.Decl.Body, in, depth-1) {
			ok = false
		}
	}
	ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			switch {
			case len(n.Results) == 0:
				usesNamed()
			case len(n.Results) == 1 && sig.Results().Len() > 1:
				c, isC := ast.Unparen(n.Results[0]).(*ast.CallExpr)
				if !isC || !vc.freshResult(c, k, nil, fd.Decl.Body, in, depth-1) {
					ok = false
				}
			default:
				var self *types.Var
				if len(named) > k {
					self = named[k]
				}
				if self != nil {
					if id, isId := ast.Unparen(n.Results[k]).(*ast.Ident); isId && vc.w.info.Uses[id] == types.Object(self) {
						usesNamed()
						return true
					}
				}
				if !vc.freshExpr(n.Results[k], nil, fd.Decl.Body, in, depth-1) {
					ok = false
				}
			}
		}
		return true
	})
	return ok
}

func calleeOf(info *types.Info, e *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(e.Fun).(type) {
	case *ast.Ident:
		fn, _ := info.Uses[f].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := info.Uses[f.Sel].(*types.Func)
		return fn
	}
	return nil
}

// clobber: elements of a slice the caller can see are overwritten.
func (x *X) clobber(n ast.Node, o *types.Var) {
	vc := x.vc
	for f := x.fr; f != nil; f = f.parent {
		isParam := false
		for _, p := range f.params {
			if p == o {
				isParam = true
			}
		}
		if !isParam {
			continue
		}
		if f.top {
			if !f.clob[o] {
				vc.check(x.st, "alias", "writes elements of a caller's slice ("+o.Name()+") without declaring it", n.Pos(), "false")
			}
			return
		}
		if arg := f.alias[o]; arg != nil && f.aliasX != nil {
			y := f.aliasX.with(x.st)
			y.havocSlice(arg)
			return
		}
		return
	}
	vc.check(x.st, "alias", "in-place write to slice "+o.Name()+" of unknown origin", n.Pos(), "false")
}

// ---- statements

func (x *X) block(list []ast.Stmt) bool {
	for _, s := range list {
		if !x.stmt(s) {
			return false
		}
	}
	return true
}

// stmt executes s on x.st; false means control does not fall through.
func (x *X) stmt(s ast.Stmt) bool {
	vc := x.vc
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			x.call(c)
			return x.st.pc != "false"
		}
		x.expr(s.X)
		return true
	case *ast.AssignStmt:
		x.assignStmt(s)
		return x.st.pc != "false"
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if o := vc.w.info.Defs[n]; o != nil {
						z := vc.reg.zero(o.Type())
						if z == "" {
							z = vc.fresh("zero", vc.reg.sortOf(o.Type()))
						}
						if _, isC := o.(*types.Const); !isC {
							x.declare(o, z)
						}
					}
				}
				continue
			}
			if gd.Tok == token.CONST {
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				for i, n := range vs.Names {
					o := vc.w.info.Defs[n]
					v := x.expr(vs.Values[i])
					if o != nil {
						x.declare(o, x.conv(v, x.typ(vs.Values[i]), o.Type()))
					}
				}
			} else {
				rs := x.multi(vs.Values[0], len(vs.Names))
				for i, n := range vs.Names {
					if o := vc.w.info.Defs[n]; o != nil {
						x.declare(o, rs[i])
					}
				}
			}
		}
		return true
	case *ast.IncDecStmt:
		v := x.expr(s.X)
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		x.assign(s.X, fmt.Sprintf("(%s %s 1)", op, v))
		return true
	case *ast.BlockStmt:
		return x.block(s.List)
	case *ast.IfStmt:
		return x.ifStmt(s)
	case *ast.ForStmt:
		return x.forStmt(s, "")
	case *ast.RangeStmt:
		return x.rangeStmt(s, "")
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.ForStmt:
			return x.forStmt(b, s.Label.Name)
		case *ast.RangeStmt:
			return x.rangeStmt(b, s.Label.Name)
		}
		return x.stmt(s.Stmt)
	case *ast.SwitchStmt:
		return x.switchStmt(s)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(s)
	case *ast.ReturnStmt:
		x.returnStmt(s)
		return false
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK:
			for i := len(x.fr.loops) - 1; i >= 0; i-- {
				l := x.fr.loops[i]
				if s.Label == nil || l.label == s.Label.Name {
					l.brk = append(l.brk, x.st.clone())
					return false
				}
			}
		case token.CONTINUE:
			for i := len(x.fr.loops) - 1; i >= 0; i-- {
				l := x.fr.loops[i]
				if l.isSwitch {
					continue
				}
				if s.Label == nil || l.label == s.Label.Name {
					l.cnt = append(l.cnt, x.st.clone())
					return false
				}
			}
		}
		vc.unsup(s, "branch %s", s.Tok)
	case *ast.DeferStmt:
		if len(x.fr.loops) > 0 {
			vc.unsup(s, "defer in a loop")
		}
		x.fr.defers = append(x.fr.defers, s.Call)
		return true
	case *ast.GoStmt:
		vc.unsup(s, "go statement")
	}
	vc.unsup(s, "statement %T", s)
	return false
}

func (x *X) multi(e ast.Expr, n int) []string {
	switch e := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		rs := x.call(e)
		for len(rs) < n { // unreachable continuation
			rs = append(rs, "0")
		}
		return rs
	case *ast.IndexExpr:
		t := x.typ(e.X)
		m := t.Underlying().(*types.Map)
		mv := x.expr(e.X)
		k := x.exprTo(e.Index, m.Key())
		v, ok := x.mapGet(mv, k, t)
		return []string{v, ok}
	case *ast.TypeAssertExpr:
		v, ok := x.typeAssert(e)
		t := x.typ(e.Type)
		if !isIface(t) {
			z := x.vc.reg.zero(t)
			v = fmt.Sprintf("(ite %s %s %s)", ok, v, z)
		} else {
			v = fmt.Sprintf("(ite %s %s nil_iface)", ok, v)
		}
		return []string{v, ok}
	}
	x.vc.unsup(e, "multi-value %T", e)
	return nil
}

func (x *X) multiTypes(e ast.Expr) []types.Type {
	if tup, ok := x.vc.w.info.TypeOf(e).(*types.Tuple); ok {
		var ts []types.Type
		for i := 0; i < tup.Len(); i++ {
			ts = append(ts, tup.At(i).Type())
		}
		return ts
	}
	switch e := ast.Unparen(e).(type) {
	case *ast.IndexExpr:
		return []types.Type{x.typ(e.X).Underlying().(*types.Map).Elem(), types.Typ[types.Bool]}
	case *ast.TypeAssertExpr:
		return []types.Type{x.typ(e.Type), types.Typ[types.Bool]}
	}
	return nil
}

func (x *X) lhsType(l ast.Expr) types.Type {
	if id, ok := ast.Unparen(l).(*ast.Ident); ok {
		if id.Name == "_" {
			return nil
		}
		if o := x.obj(id); o != nil {
			return o.Type()
		}
	}
	return x.typ(l)
}

func (x *X) assignStmt(s *ast.AssignStmt) {
	vc := x.vc
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.XOR_ASSIGN: token.XOR}[s.Tok]
		a := x.expr(s.Lhs[0])
		b := x.expr(s.Rhs[0])
		x.assign(s.Lhs[0], x.arith(s, op, a, b, x.typ(s.Lhs[0]), x.typ(s.Rhs[0])))
		return
	}
	if len(s.Lhs) == len(s.Rhs) {
		vals := make([]string, len(s.Rhs))
		for i := range s.Rhs {
			v := x.expr(s.Rhs[i])
			if x.st.pc == "false" {
				return
			}
			vals[i] = x.conv(v, x.typ(s.Rhs[i]), x.lhsType(s.Lhs[i]))
			if len(s.Rhs) > 1 {
				if lt := x.lhsType(s.Lhs[i]); lt != nil {
					vals[i] = vc.name(x.st, "t", vals[i], vc.reg.sortOf(lt))
				}
			}
		}
		for i := range s.Lhs {
			x.assign(s.Lhs[i], vals[i])
		}
		return
	}
	rs := x.multi(s.Rhs[0], len(s.Lhs))
	if x.st.pc == "false" {
		return
	}
	ts := x.multiTypes(s.Rhs[0])
	for i := range s.Lhs {
		x.assign(s.Lhs[i], x.conv(rs[i], ts[i], x.lhsType(s.Lhs[i])))
	}
}

func (x *X) ifStmt(s *ast.IfStmt) bool {
	vc := x.vc
	if s.Init != nil {
		if !x.stmt(s.Init) {
			return false
		}
	}
	c := x.bool(s.Cond)
	if x.st.pc == "false" {
		return false
	}
	c = vc.name(x.st, "c", c, "Bool")
	parent := x.st
	a := vc.branch(parent, c)
	b := vc.branch(parent, not(c))
	apc, bpc := a.pc, b.pc
	ya := x.with(a)
	fa := ya.block(s.Body.List)
	fb := true
	yb := x.with(b)
	if s.Else != nil {
		fb = yb.stmt(s.Else)
	}
	var ls []*State
	if fa {
		ls = append(ls, ya.st)
	}
	if fb {
		ls = append(ls, yb.st)
	}
	if len(ls) == 0 {
		return false
	}
	ppc := ""
	if fa && fb && ya.st.pc == apc && yb.st.pc == bpc {
		ppc = parent.pc
	}
	m := vc.merge(ls, ppc, x.objSort)
	x.st = m
	return true
}

func (x *X) switchStmt(s *ast.SwitchStmt) bool {
	vc := x.vc
	if s.Init != nil {
		if !x.stmt(s.Init) {
			return false
		}
	}
	tag := ""
	var tt types.Type
	if s.Tag != nil {
		tt = x.typ(s.Tag)
		tag = vc.name(x.st, "tag", x.expr(s.Tag), vc.reg.sortOf(tt))
	}
	lc := &loopCtx{isSwitch: true}
	x.fr.loops = append(x.fr.loops, lc)
	cur := x.with(x.st)
	var outs []*State
	var def *ast.CaseClause
	var bodies []*ast.CaseClause
	for _, c := range s.Body.List {
		bodies = append(bodies, c.(*ast.CaseClause))
	}
	for _, cc := range bodies {
		for _, st := range cc.Body {
			if b, ok := st.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				vc.unsup(b, "fallthrough")
			}
		}
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []string
		for _, e := range cc.List {
			if tag != "" {
				v := cur.exprTo(e, tt)
				conds = append(conds, vc.reg.eqT(vc.reg.sortOf(tt), tag, v))
			} else {
				conds = append(conds, cur.bool(e))
			}
		}
		cond := vc.name(cur.st, "case", or(conds...), "Bool")
		b := vc.branch(cur.st, cond)
		e := vc.branch(cur.st, not(cond))
		y := x.with(b)
		if y.block(cc.Body) {
			outs = append(outs, y.st)
		}
		cur.st = e
	}
	if def != nil {
		if cur.block(def.Body) {
			outs = append(outs, cur.st)
		}
	} else {
		outs = append(outs, cur.st)
	}
	x.fr.loops = x.fr.loops[:len(x.fr.loops)-1]
	outs = append(outs, lc.brk...)
	m := vc.merge(outs, "", x.objSort)
	if m == nil {
		return false
	}
	x.st = m
	return true
}

func (x *X) typeSwitch(s *ast.TypeSwitchStmt) bool {
	vc := x.vc
	if s.Init != nil {
		if !x.stmt(s.Init) {
			return false
		}
	}
	var ex ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ex = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		ex = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	iv := vc.name(x.st, "ts", x.expr(ex), "Iface")
	lc := &loopCtx{isSwitch: true}
	x.fr.loops = append(x.fr.loops, lc)
	cur := x.with(x.st)
	var outs []*State
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []string
		val := iv
		for _, e := range cc.List {
			if isNilE(x, e) {
				conds = append(conds, fmt.Sprintf("(= %s nil_iface)", iv))
				continue
			}
			t := x.typ(e)
			if isIface(t) {
				k := "impl_" + mangle(typeName(t))
				vc.declFun(k, "(Int) Bool")
				vc.rawFact(cur.st, fmt.Sprintf("(not (%s 0))", k))
				conds = append(conds, fmt.Sprintf("(%s (tag_of %s))", k, iv))
				continue
			}
			_, unbox, tag := vc.reg.box(t)
			conds = append(conds, fmt.Sprintf("(= (tag_of %s) %d)", iv, tag))
			if len(cc.List) == 1 {
				val = fmt.Sprintf("(%s %s)", unbox, iv)
			}
		}
		cond := vc.name(cur.st, "case", or(conds...), "Bool")
		b := vc.branch(cur.st, cond)
		e := vc.branch(cur.st, not(cond))
		y := x.with(b)
		if o := vc.w.info.Implicits[cc]; o != nil {
			y.declare(o, val)
			vc.typeFacts(y.st, o.Type(), val)
		}
		if y.block(cc.Body) {
			outs = append(outs, y.st)
		}
		cur.st = e
	}
	if def != nil {
		if o := vc.w.info.Implicits[def]; o != nil {
			cur.declare(o, iv)
		}
		if cur.block(def.Body) {
			outs = append(outs, cur.st)
		}
	} else {
		outs = append(outs, cur.st)
	}
	x.fr.loops = x.fr.loops[:len(x.fr.loops)-1]
	outs = append(outs, lc.brk...)
	m := vc.merge(outs, "", x.objSort)
	if m == nil {
		return false
	}
	x.st = m
	return true
}

func (x *X) returnStmt(s *ast.ReturnStmt) {
	fr := x.fr
	if len(s.Results) > 0 {
		var vals []string
		if len(s.Results) == len(fr.results) {
			for i, e := range s.Results {
				v := x.expr(e)
				if x.st.pc == "false" {
					return
				}
				v = x.conv(v, x.typ(e), fr.resTypes[i])
				vals = append(vals, x.vc.name(x.st, "ret", v, x.vc.reg.sortOf(fr.resTypes[i])))
			}
		} else {
			rs := x.multi(s.Results[0], len(fr.results))
			if x.st.pc == "false" {
				return
			}
			ts := x.multiTypes(s.Results[0])
			for i := range fr.results {
				vals = append(vals, x.conv(rs[i], ts[i], fr.resTypes[i]))
			}
		}
		for i, o := range fr.results {
			x.setVar(o, vals[i])
		}
	}
	x.doReturn(s.Pos())
}

func (x *X) doReturn(pos token.Pos) {
	fr := x.fr
	for i := len(fr.defers) - 1; i >= 0; i-- {
		x.call(fr.defers[i])
	}
	fr.returns = append(fr.returns, x.st.clone())
	fr.retPos = append(fr.retPos, pos)
}

func (x *X) iv(o *hiddenVar) string { return x.st.vars[o] }

// ---- loops

type loopSpec struct {
	log        *WLog
	node       ast.Stmt
	body       *ast.BlockStmt
	label      string
	cond       func(y *X) string
	pre        func(y *X)
	post       func(y *X) bool
	auto       func(y *X) []string
	lc         *loopCtx
	extraHavoc []types.Object
	hiddenSort map[types.Object]string
	hasDec     bool
	annPos     token.Pos
	frameKeep  []frameKeep
}

func (x *X) forStmt(s *ast.ForStmt, label string) bool {
	if s.Init != nil {
		if !x.stmt(s.Init) {
			return false
		}
	}
	lc := &loopCtx{label: label}
	ls := &loopSpec{node: s, body: s.Body, label: label, lc: lc}
	ls.annPos = s.Body.Lbrace + 1
	hid := newHidden("it", "Int")
	x.st.vars[hid] = "0"
	ls.extraHavoc = []types.Object{hid}
	lc.iter = hid
	if a, ok := s.Init.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && a.Tok == token.DEFINE {
		if id, ok := a.Lhs[0].(*ast.Ident); ok {
			if o := x.vc.w.info.Defs[id]; o != nil && x.vc.reg.sortOf(o.Type()) == "Int" && !x.vc.boxed[o] {
				lc.iter = o
			}
		}
	}
	if s.Cond != nil {
		ls.cond = func(y *X) string { return y.bool(s.Cond) }
	}
	ls.post = func(y *X) bool {
		y.vc.logVar(hid)
		y.st.vars[hid] = fmt.Sprintf("(+ %s 1)", y.st.vars[hid])
		if s.Post != nil {
			return y.stmt(s.Post)
		}
		return true
	}
	ls.auto = func(y *X) []string { return []string{fmt.Sprintf("(>= %s 0)", y.st.vars[hid])} }
	return x.loopExec(ls)
}

func (x *X) rangeStmt(s *ast.RangeStmt, label string) bool {
	vc := x.vc
	t := x.typ(s.X)
	lc := &loopCtx{label: label}
	ls := &loopSpec{node: s, body: s.Body, label: label, lc: lc, hasDec: true}
	ls.annPos = s.Body.Lbrace + 1
	setKV := func(y *X, e ast.Expr, v string, vt types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		y.assign(e, v)
		_ = vt
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := vc.name(x.st, "rm", x.expr(s.X), "Int")
		dom, val, ks, vs := vc.mapComps(t)
		_ = vs
		setSort := fmt.Sprintf("(Array %s Bool)", ks)
		seen := newHidden("seen", setSort)
		hid := newHidden("it", "Int")
		x.st.vars[seen] = fmt.Sprintf("((as const %s) false)", setSort)
		x.st.vars[hid] = "0"
		lc.seen, lc.seenSort, lc.iter = seen, ks, hid
		ls.extraHavoc = []types.Object{seen, hid}
		dom0 := vc.name(x.st, "dom0", fmt.Sprintf("(select %s %s)", vc.hget(x.st, dom), m), setSort)
		kv := ""
		ls.cond = func(y *X) string {
			// another key may be visited, or the loop ends when every remaining initial key was visited
			k := vc.fresh("k", ks)
			kv = k
			c := vc.fresh("more", "Bool")
			sv := y.st.vars[seen]
			d := fmt.Sprintf("(select %s %s)", vc.hget(y.st, dom), m)
			vc.fact(y.st, imp(c, fmt.Sprintf("(and (select %s %s) (not (select %s %s)))", d, k, sv, k)))
			vc.fact(y.st, imp(not(c), fmt.Sprintf("(forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, dom0, d, sv, d, sv)))
			return c
		}
		ls.pre = func(y *X) {
			k := kv
			vc.typeFacts(y.st, u.Key(), k)
			vc.logVar(seen)
			y.st.vars[seen] = vc.name(y.st, "seen", fmt.Sprintf("(store %s %s true)", y.st.vars[seen], k), setSort)
			setKV(y, s.Key, k, u.Key())
			if s.Value != nil {
				v := vc.name(y.st, "v", fmt.Sprintf("(select (select %s %s) %s)", vc.hget(y.st, val), m, k), vs)
				vc.typeFacts(y.st, u.Elem(), v)
				setKV(y, s.Value, v, u.Elem())
			}
		}
		ls.post = func(y *X) bool {
			vc.logVar(hid)
			y.st.vars[hid] = fmt.Sprintf("(+ %s 1)", y.st.vars[hid])
			return true
		}
		ls.auto = func(y *X) []string {
			fs := []string{fmt.Sprintf("(>= %s 0)", y.st.vars[hid])}
			if ls.log.comps[dom] == nil && !ls.log.all {
				fs = append(fs, fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k))))", ks, y.st.vars[seen], dom0, y.st.vars[seen]))
			}
			return fs
		}
		return x.loopExec(ls)
	case *types.Slice, *types.Array, *types.Basic, *types.Pointer:
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n := vc.name(x.st, "rn", x.expr(s.X), "Int")
			hid := newHidden("it", "Int")
			x.st.vars[hid] = "0"
			lc.iter = hid
			ls.extraHavoc = []types.Object{hid}
			ls.cond = func(y *X) string { return fmt.Sprintf("(< %s %s)", y.st.vars[hid], n) }
			ls.pre = func(y *X) { setKV(y, s.Key, y.st.vars[hid], types.Typ[types.Int]) }
			ls.post = func(y *X) bool {
				vc.logVar(hid)
				y.st.vars[hid] = fmt.Sprintf("(+ %s 1)", y.st.vars[hid])
				return true
			}
			ls.auto = func(y *X) []string {
				i := y.st.vars[hid]
				return []string{fmt.Sprintf("(and (<= 0 %s) (or (<= %s %s) (= %s 0)))", i, i, n, i)}
			}
			return x.loopExec(ls)
		}
		so := vc.reg.sortOf(t)
		isStr := so == "Str"
		seqv := vc.name(x.st, "rs", x.expr(s.X), so)
		l := x.lenOf(seqv, t)
		hid := newHidden("it", "Int")
		x.st.vars[hid] = "0"
		lc.iter = hid
		ls.extraHavoc = []types.Object{hid}
		ls.cond = func(y *X) string { return fmt.Sprintf("(< %s %s)", y.st.vars[hid], l) }
		ls.pre = func(y *X) {
			i := y.st.vars[hid]
			setKV(y, s.Key, i, types.Typ[types.Int])
			if s.Value != nil {
				if isStr {
					b := fmt.Sprintf("(at_S %s %s)", seqv, i)
					r := vc.fresh("rune", "Int")
					vc.fact(y.st, fmt.Sprintf("(ite (< %s 128) (= %s %s) (>= %s 128))", b, r, b, r))
					setKV(y, s.Value, r, types.Typ[types.Rune])
				} else {
					et := elemType(t)
					v := vc.name(y.st, "el", fmt.Sprintf("(at_%s %s %s)", y.seqX(so), seqv, i), vc.reg.sortOf(et))
					vc.typeFacts(y.st, et, v)
					setKV(y, s.Value, v, et)
				}
			}
		}
		ls.post = func(y *X) bool {
			vc.logVar(hid)
			i := y.st.vars[hid]
			if isStr {
				w := vc.fresh("w", "Int")
				b := fmt.Sprintf("(at_S %s %s)", seqv, i)
				vc.fact(y.st, fmt.Sprintf("(and (<= 1 %s) (<= %s 4) (=> (< %s 128) (= %s 1)) (<= (+ %s %s) %s))", w, w, b, w, i, w, l))
				y.st.vars[hid] = vc.name(y.st, "it", fmt.Sprintf("(+ %s %s)", i, w), "Int")
			} else {
				y.st.vars[hid] = fmt.Sprintf("(+ %s 1)", i)
			}
			return true
		}
		ls.auto = func(y *X) []string {
			i := y.st.vars[hid]
			return []string{fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", i, i, l)}
		}
		return x.loopExec(ls)
	}
	vc.unsup(s, "range over %s", t)
	return false
}

type annInst struct {
	key string
	ann *Ann
	e   ast.Expr
}

func (x *X) loopExec(ls *loopSpec) bool {
	vc := x.vc
	fr := x.fr
	pre := x.st
	for o, s := range ls.hiddenSort {
		_ = o
		_ = s
	}
	ls.lc.pre = pre.clone()
	// --- annotations for this loop
	anns, decs, usesStart, usesEnd := x.loopAnns(ls)

	// --- find what the body writes
	var log *WLog
	vc.dry++
	markN := vc.nsym
	dryState := pre.clone()
	for phase := 0; phase < 2; phase++ {
		log2 := &WLog{vars: map[types.Object]bool{}, comps: map[string]map[string]bool{}}
		d := dryState.clone()
		d.node = &Node{parents: []*Node{pre.node}}
		if phase == 1 {
			// arbitrary iteration: everything the body writes is unknown at its start
			for o := range pre.vars {
				if log.vars[o] && !vc.boxed[o] {
					d.vars[o] = vc.fresh(o.Name(), x.objSort(o))
				}
			}
			for c := range log.comps {
				d.heap[c] = vc.fresh("H_"+c, vc.comps[c])
			}
			if log.alloc {
				d.alloc = vc.fresh("alloc", "Int")
			}
			if log.all {
				d.hp = vc.newHP()
			}
		}
		y := x.with(d)
		vc.logs = append(vc.logs, log2)
		nret := len(fr.returns)
		lc := *ls.lc
		fr.loops = append(fr.loops, &lc)
		if ls.cond != nil {
			ls.cond(y)
		}
		if ls.pre != nil {
			ls.pre(y)
		}
		y2 := *y
		y2.outer = append(append([]*loopCtx{}, x.outer...), &lc)
		ok := y2.block(ls.body.List)
		var sts []*State
		if ok {
			sts = append(sts, y2.st)
		}
		sts = append(sts, lc.cnt...)
		if m := vc.merge(sts, "", x.objSort); m != nil {
			y.st = m
			ls.post(y)
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
		fr.returns = fr.returns[:nret]
		fr.retPos = fr.retPos[:nret]
		vc.logs = vc.logs[:len(vc.logs)-1]
		log = log2
	}
	vc.dry--
	// propagate to enclosing logs
	for _, l := range vc.logs {
		l.alloc = l.alloc || log.alloc
		l.all = l.all || log.all
		for o := range log.vars {
			l.vars[o] = true
		}
		for c, rs := range log.comps {
			if l.comps[c] == nil {
				l.comps[c] = map[string]bool{}
			}
			for r := range rs {
				l.comps[c][r] = true
			}
		}
	}

	evalInv := func(y *X, a annInst) string {
		z := *y
		z.spec = true
		z.loop = ls.lc
		z.outer = append(append([]*loopCtx{}, x.outer...), ls.lc)
		z.old = fr.entry
		return z.bool(a.e)
	}
	// --- establish
	for _, a := range anns {
		g := evalInv(x, a)
		if o := vc.obl(x.st, "inv-init", a.ann.ID+" holds on entry", ls.node.Pos(), g); o != nil {
			o.Inv = a.key
			o.Name = a.key + " on entry"
		}
	}
	// --- havoc
	head := pre.clone()
	head.node = &Node{parents: []*Node{pre.node}}
	y := x.with(head)
	oldAlloc := pre.alloc
	if log.alloc {
		na := vc.fresh("alloc", "Int")
		vc.rawFact(head, fmt.Sprintf("(>= %s %s)", na, oldAlloc))
		head.alloc = na
	}
	if log.all {
		head.hp = vc.newHP()
	}
	for o := range pre.vars {
		if log.vars[o] && !vc.boxed[o] {
			so := x.objSort(o)
			v := vc.fresh(o.Name(), so)
			head.vars[o] = v
		}
	}
	for _, o := range ls.extraHavoc {
		if !log.vars[o] {
			continue
		}
		head.vars[o] = vc.fresh(o.Name(), x.objSort(o))
	}
	for _, c := range sortedKeys(log.comps) {
		refs := log.comps[c]
		var inv []string
		precise, freshOnly := true, true
		for r := range refs {
			if r == "" {
				precise, freshOnly = false, false
				break
			}
			if symAfter(r, markN) {
				precise = false
				if !strings.HasPrefix(r, "ref!") {
					freshOnly = false
				}
			} else {
				inv = append(inv, r)
			}
		}
		if precise {
			for _, r := range sortedKeys(refs) {
				v := vc.fresh("hv", arrElem(vc.comps[c]))
				nm := vc.fresh("H_"+c, vc.comps[c])
				vc.rawFact(head, fmt.Sprintf("(= %s (store %s %s %s))", nm, vc.hget(head, c), r, v))
				head.heap[c] = nm
			}
			vc.heapFacts(head, c)
		} else {
			n := vc.fresh("H_"+c, vc.comps[c])
			oldH := vc.hget(pre, c)
			head.heap[c] = n
			vc.heapFacts(head, c)
			if freshOnly && strings.HasPrefix(vc.comps[c], "(Array Int ") {
				g := []string{fmt.Sprintf("(< r %s)", oldAlloc)}
				for _, r := range inv {
					g = append(g, fmt.Sprintf("(not (= r %s))", r))
				}
				vc.rawFact(head, fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", and(g...), n, oldH, n))
			} else if vc.topFr != nil && !strings.HasPrefix(c, "G_") && strings.HasPrefix(vc.comps[c], "(Array Int ") && !vc.modsAll {
				// the function's own frame, checked at its returns, is assumed for the loop and checked at its end
				g := vc.frameGuard(c, "r")
				if g != "" {
					h0 := vc.hget(vc.entry, c)
					body := fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", g, "$H", h0, "$H")
					cc := c
					key := vc.annKey(fr, ls, "frame:"+cc)
					if !vc.dropped[key] {
						if o := vc.obl(x.st, "inv-init", key, ls.node.Pos(), strings.ReplaceAll(body, "$H", oldH)); o != nil {
							o.Inv = key
						}
						vc.rawFact(head, strings.ReplaceAll(body, "$H", n))
						oldAuto := ls.auto
						_ = oldAuto
						ls.frameKeep = append(ls.frameKeep, frameKeep{cc, body, key})
					}
				}
			}
		}
	}
	for o := range pre.vars {
		if log.vars[o] && !vc.boxed[o] {
			if _, h := o.(*hiddenVar); !h {
				vc.typeFacts(head, o.Type(), head.vars[o])
			}
		}
	}
	ls.log = log
	if ls.auto != nil {
		for _, f := range ls.auto(y) {
			vc.fact(head, f)
		}
	}
	for _, a := range anns {
		vc.fact(head, evalInv(y, a))
	}
	x.runUses(usesStart, y, ls, evalInv)
	// --- decreases
	var dec0 []string
	for _, d := range decs {
		v := vc.name(head, "dec", evalInv(y, d), "Int")
		dec0 = append(dec0, v)
	}
	// --- condition
	cond := "true"
	if ls.cond != nil {
		cond = ls.cond(y)
		cond = vc.name(y.st, "lc", cond, "Bool")
	}
	in := vc.branch(y.st, cond)
	var exits []*State
	if ls.cond != nil {
		exits = append(exits, vc.branch(y.st, not(cond)))
	}
	z := x.with(in)
	z.outer = append(append([]*loopCtx{}, x.outer...), ls.lc)
	ls.lc.brk, ls.lc.cnt = nil, nil
	fr.loops = append(fr.loops, ls.lc)
	if ls.pre != nil {
		ls.pre(z)
	}
	ok := z.block(ls.body.List)
	fr.loops = fr.loops[:len(fr.loops)-1]
	var conts []*State
	if ok {
		conts = append(conts, z.st)
	}
	conts = append(conts, ls.lc.cnt...)
	for ci, cs := range conts {
		e := x.with(&State{cs.pc, cs.vars, cs.heap, cs.alloc, &Node{parents: []*Node{cs.node}}, cs.hp})
		if !ls.post(e) {
			continue
		}
		x.runUses(usesEnd, e, ls, evalInv)
		for _, a := range anns {
			g := evalInv(e, a)
			for _, gp := range splitAnd(g) {
				if o := vc.obl(e.st, "inv-keep", a.key+" kept", ls.node.Pos(), gp); o != nil {
					o.Inv = a.key
					o.Name = fmt.Sprintf("%s kept#%d", a.key, ci)
				}
			}
		}
		for _, fk := range ls.frameKeep {
			if o := vc.obl(e.st, "inv-keep", fk.key, ls.node.Pos(), strings.ReplaceAll(fk.body, "$H", vc.hget(e.st, fk.comp))); o != nil {
				o.Inv = fk.key
			}
		}
		if len(decs) > 0 {
			var now []string
			for _, d := range decs {
				now = append(now, evalInv(e, d))
			}
			vc.obl(e.st, "dec", "loop measure decreases", ls.node.Pos(), lexDec(dec0, now))
		}
	}
	if len(decs) == 0 && !ls.hasDec && vc.dry == 0 {
		vc.noteLoopNoDec(ls)
	}
	ls.frameKeep = nil
	exits = append(exits, ls.lc.brk...)
	m := vc.merge(exits, "", x.objSort)
	if m == nil {
		return false
	}
	x.st = m
	return true
}

type frameKeep struct{ comp, body, key string }

func lexDec(old, now []string) string {
	// lexicographic
	var alts []string
	eq := "true"
	for i := range old {
		alts = append(alts, and(eq, fmt.Sprintf("(<= 0 %s)", old[i]), fmt.Sprintf("(< %s %s)", now[i], old[i])))
		eq = and(eq, fmt.Sprintf("(= %s %s)", now[i], old[i]))
	}
	return or(alts...)
}

// splitAnd splits a top-level conjunction.
func splitAnd(g string) []string {
	if !strings.HasPrefix(g, "(and ") {
		return []string{g}
	}
	in := g[5 : len(g)-1]
	var parts []string
	d, start := 0, 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if i > start {
					parts = append(parts, in[start:i])
				}
				start = i + 1
			}
		}
	}
	if start < len(in) {
		parts = append(parts, in[start:])
	}
	var out []string
	for _, p := range parts {
		out = append(out, splitAnd(p)...)
	}
	return out
}

// symAfter: does the term mention a symbol created after mark?
func symAfter(t string, mark int) bool {
	for _, k := range tokens(t) {
		if i := strings.IndexByte(k, '!'); i >= 0 {
			n := 0
			fmt.Sscanf(k[i+1:], "%d", &n)
			if n > mark {
				return true
			}
		}
	}
	return false
}

func (vc *VC) annKey(fr *Frame, ls *loopSpec, id string) string {
	owner := ""
	if fr.fd != nil {
		owner = funcKey(fr.fd.Obj)
	}
	return fmt.Sprintf("%s@%s.loop%d", id, owner, fr.ordinal[ls.node])
}

func (vc *VC) noteLoopNoDec(ls *loopSpec) {
	vc.assume["termination of the loop at "+vc.w.pos(ls.node.Pos())+" is not proved (partial correctness)"] = true
}

func (x *X) loopAnns(ls *loopSpec) (invs, decs, us, ue []annInst) {
	vc := x.vc
	fr := x.fr
	c := vc.c
	if c == nil || fr.ghost {
		return
	}
	ord, known := fr.ordinal[ls.node]
	pkg := fr.pkg
	ren := map[string]string{}
	// a closure of the function under contract counts as part of it
	top := fr.top || fr.lit != nil && fr.c == c
	if top {
		ren = fr.rename
	}
	seenText := map[string]bool{}
	for _, a := range c.Anns {
		if a.Loop < 0 {
			continue
		}
		exact := top && known && a.Loop == ord
		if !exact && (!vc.pool || a.Kind != "inv") {
			continue
		}
		key := vc.annKey(fr, ls, a.ID)
		if vc.dropped[key] || seenText[a.Text] {
			continue
		}
		e, err := vc.w.parseAnn(pkg, ls.annPos, a.Text, ren)
		if err != nil {
			if exact {
				vc.warn("%s: annotation does not fit: %v", key, err)
			}
			vc.dropped[key] = true
			continue
		}
		if a.Kind == "inv" {
			seenText[a.Text] = true
			// the expression must be evaluable here
			if !x.tryEval(e, ls) {
				vc.dropped[key] = true
				if exact {
					vc.warn("%s: annotation cannot be evaluated", key)
				}
				continue
			}
		}
		ai := annInst{key, a, e}
		switch a.Kind {
		case "inv":
			invs = append(invs, ai)
		case "dec":
			if !x.tryEval(e, ls) {
				continue
			}
			decs = append(decs, ai)
		case "use":
			if a.End {
				ue = append(ue, ai)
			} else {
				us = append(us, ai)
			}
		}
	}
	return
}

func (x *X) tryEval(e ast.Expr, ls *loopSpec) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	z := *x
	z.spec = true
	z.loop = ls.lc
	z.outer = append(append([]*loopCtx{}, x.outer...), ls.lc)
	z.old = x.fr.entry
	z.st = x.st.clone()
	z.st.node = &Node{parents: []*Node{x.st.node}}
	z.expr(e)
	return true
}

// runUses executes ghost lemma calls.
func (x *X) runUses(us []annInst, y *X, ls *loopSpec, ev func(*X, annInst) string) {
	for _, a := range us {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, is := r.(unsupported); is {
						x.vc.warn("use %q: %s", a.ann.Text, u.msg)
						return
					}
					panic(r)
				}
			}()
			z := *y
			z.spec = true
			z.loop = ls.lc
			z.outer = append(append([]*loopCtx{}, x.outer...), ls.lc)
			z.old = x.fr.entry
			call, ok := a.e.(*ast.CallExpr)
			if !ok {
				return
			}
			z.ghostCall(call)
			y.st = z.st
		}()
	}
}

func numberLoops(body ast.Node) map[ast.Node]int {
	m := map[ast.Node]int{}
	n := 0
	ast.Inspect(body, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			m[x] = n
			n++
		}
		return true
	})
	return m
}
