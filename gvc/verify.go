package main

// Verification of one function (or lemma) against its contract.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
)

type FuncResult struct {
	Key      string    `json:"function"`
	Obls     []*OblOut `json:"obligations"`
	Failed   int       `json:"failed"`
	Error    string    `json:"error,omitempty"`
	Assume   []string  `json:"assumptions,omitempty"`
	Uses     []string  `json:"uses,omitempty"`
	Inlined  []string  `json:"inlined,omitempty"`
	Warn     []string  `json:"warnings,omitempty"`
	Dropped  []string  `json:"dropped_invariants,omitempty"`
	SolverMS int64     `json:"solver_ms"`
	Covers   int       `json:"reachability_checks"`
	Rounds   int       `json:"rounds"`
	c        *Contract
	uses     map[*Contract]bool
}

type OblOut struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Solver string `json:"solver,omitempty"`
	MS     int64  `json:"ms"`
	Query  string `json:"-"`
	Goal   string `json:"-"`
}

func (vc *VC) panicAllowed(x *X) string {
	c := vc.topFr.c
	var gs []string
	y := vc.bindContract(c, vc.entry, vc.entry, vc.entryArgs)
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			func() { defer func() { recover() }(); y.doLet(cl) }()
		case "Panics", "MustPanic":
			gs = append(gs, y.bool(cl.call.Args[0]))
		case "MayPanic":
			return "true"
		}
	}
	return or(gs...)
}

func (vc *VC) frameGuard(comp, r string) string {
	g := []string{fmt.Sprintf("(<= 0 %s)", r), fmt.Sprintf("(< %s %s)", r, vc.entry.alloc)}
	for _, it := range vc.mods {
		if it.comp != comp {
			continue
		}
		if it.ref == "" {
			return ""
		}
		g = append(g, fmt.Sprintf("(not (= %s %s))", r, it.ref))
	}
	return and(g...)
}

// run generates the obligations of c.
func (vc *VC) run() (err error) {
	c := vc.c
	w := vc.w
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	if c.Missing != "" {
		return fmt.Errorf("%s", c.Missing)
	}
	fd := w.funcs[c.Fn]
	if fd == nil || fd.Decl.Body == nil {
		return fmt.Errorf("%s has no body", c.Key)
	}
	st := newState()
	vc.decls = append(vc.decls, "(declare-const alloc0 Int)")
	vc.rawFact(st, "(> alloc0 0)")
	fr := &Frame{fd: fd, c: c, top: true, pkg: fd.Pkg.Types, ghost: c.Lemma, clob: map[types.Object]bool{}, rename: map[string]string{}}
	vc.topFr = fr
	fr.params = w.paramObjs(fd.Decl)
	fr.ordinal = numberLoops(fd.Decl.Body)
	vc.scanBoxed(fd.Decl.Body)
	cps := w.paramObjs(c.Decl)
	sig := c.Fn.Type().(*types.Signature)
	var pts []types.Type
	if sig.Recv() != nil {
		pts = append(pts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	x := &X{vc: vc, st: st, fr: fr, spec: c.Lemma}
	var args []string
	for i, t := range pts {
		nm := fmt.Sprintf("arg%d", i)
		if i < len(fr.params) && fr.params[i] != nil {
			nm = fr.params[i].Name()
		}
		v := vc.fresh(nm, vc.reg.sortOf(t))
		vc.typeFacts(st, t, v)
		args = append(args, v)
	}
	vc.entryArgs = args
	for i, cp := range cps {
		if cp != nil && i < len(fr.params) && fr.params[i] != nil {
			if cp.Name() != fr.params[i].Name() {
				fr.rename[cp.Name()] = fr.params[i].Name()
			}
		}
	}
	// named results of the contract map to the function's named results by position
	cro, _ := w.resultObjs(c.Decl)
	fro, _ := w.resultObjs(fd.Decl)
	for i, o := range cro {
		if o != nil && i < len(fro) && fro[i] != nil && fro[i].Name() != o.Name() {
			fr.rename[o.Name()] = fro[i].Name()
		}
	}
	for _, cl := range vc.clauses(c) {
		if cl.kind == "Clobbers" {
			for _, a := range cl.call.Args {
				if id, ok := ast.Unparen(a).(*ast.Ident); ok {
					for i, cp := range cps {
						if cp != nil && w.info.Uses[id] == cp {
							fr.clob[fr.params[i]] = true
						}
					}
				}
			}
		}
	}
	// preconditions
	vc.entry = st.clone()
	y := vc.bindContract(c, st, st, args)
	y.old = y.st
	var oldSt *State
	if c.TwoState {
		oldSt = newState()
		oldSt.hp = "HO_"
		oldSt.alloc = "alloc_old"
		vc.decls = append(vc.decls, "(declare-const alloc_old Int)")
		vc.rawFact(st, "(and (> alloc_old 0) (<= alloc_old alloc0))")
		y = vc.bindContract(c, st, oldSt, args)
	}
	for _, cl := range vc.clauses(c) {
		switch cl.kind {
		case "let":
			func() {
				defer func() { recover() }()
				y.doLet(cl)
			}()
		case "Requires":
			vc.fact(st, y.bool(cl.call.Args[0]))
		case "Decreases":
			for _, a := range cl.call.Args {
				vc.measure0 = append(vc.measure0, vc.name(st, "meas", y.expr(a), "Int"))
			}
		}
	}
	vc.mods, vc.modsAll = vc.modItems(c, vc.bindContract(c, st, st, args))
	// parameters become variables
	if c.Lemma {
		for i, p := range fr.params {
			if p != nil {
				st.vars[p] = args[i]
			}
		}
		vc.entry = st.clone()
		fr.entry = vc.entry
		vc.cover(st, "entry")
		x.old = vc.entry
		if oldSt != nil {
			x.old = oldSt
			for i, p := range fr.params {
				if p != nil {
					oldSt.vars[p] = args[i]
				}
			}
		}
		x.ghostBlock(fd.Decl.Body.List)
		z := vc.bindContract(c, x.st, x.old, args)
		for _, cl := range vc.clauses(c) {
			switch cl.kind {
			case "let":
				z.doLet(cl)
			case "Ensures":
				for k, g := range splitAnd(z.bool(cl.call.Args[0])) {
					vc.obl(x.st, "post", fmt.Sprintf("%s: %s.%d", c.Key, cl.name, k), cl.call.Pos(), g)
				}
			}
		}
		return nil
	}
	for i, p := range fr.params {
		if p != nil {
			x.declare(p, args[i])
		}
	}
	vc.entry = st.clone()
	vc.entry.node = st.node
	if fd.Decl.Type.Results != nil || sig.Results().Len() > 0 {
		vc.setupResults(x, fd.Decl.Type, sig)
	}
	fr.entry = st.clone()
	vc.cover(st, "entry")
	x.doUses(-1, x)
	ok := x.block(fd.Decl.Body.List)
	if ok && x.st.pc != "false" {
		x.doReturn(fd.Decl.Body.Rbrace)
	}
	// postconditions
	nret := 0
	for ri, rs := range fr.returns {
		if rs.pc == "false" {
			continue
		}
		nret++
		vc.cover(rs, fmt.Sprintf("return %d", ri))
		r := &State{rs.pc, rs.vars, rs.heap, rs.alloc, &Node{parents: []*Node{rs.node}}, rs.hp}
		var res []string
		rx := &X{vc: vc, st: r, fr: fr, spec: true, old: vc.entry}
		for _, o := range fr.results {
			res = append(res, rx.readVar(nil, o.(*types.Var)))
		}
		z := vc.bindContract(c, r, vc.entry, args)
		vc.bindResults(c, z, res)
		// hints
		x.exitUses(z, r)
		for _, cl := range vc.clauses(c) {
			switch cl.kind {
			case "let":
				z.doLet(cl)
			case "ghost":
				z.st.node = r.node
				z.ghostCall(cl.call)
				r.node = z.st.node
			case "Ensures":
				for k, g := range splitAnd(z.bool(cl.call.Args[0])) {
					vc.obl(r, "post", fmt.Sprintf("%s: %s.%d at return %d", c.Key, cl.name, k, ri), fr.retPos[ri], g)
				}
			case "MustPanic":
				yo := vc.bindContract(c, vc.entry, vc.entry, args)
				for _, l := range vc.clauses(c) {
					if l.kind == "let" {
						func() { defer func() { recover() }(); yo.doLet(l) }()
					}
				}
				g := not(yo.bool(cl.call.Args[0]))
				vc.obl(r, "post", fmt.Sprintf("%s: must have panicked (%s) at return %d", c.Key, cl.name, ri), fr.retPos[ri], g)
			}
		}
		if c.noAlloc() && r.alloc != vc.entry.alloc {
			vc.obl(r, "frame", fmt.Sprintf("%s: allocates nothing at return %d", c.Key, ri), fr.retPos[ri], fmt.Sprintf("(= %s %s)", r.alloc, vc.entry.alloc))
		}
		// nothing at all is changed in some cases
		for _, cl := range vc.clauses(c) {
			if cl.kind != "ReadOnly" {
				continue
			}
			yo := vc.bindContract(c, vc.entry, vc.entry, args)
			for _, l := range vc.clauses(c) {
				if l.kind == "let" {
					func() { defer func() { recover() }(); yo.doLet(l) }()
				}
			}
			ro := yo.bool(cl.call.Args[0])
			for _, cm := range sortedKeys(r.heap) {
				if h, h0 := vc.hget(r, cm), vc.hget(vc.entry, cm); h != h0 {
					vc.obl(r, "post", fmt.Sprintf("%s: %s: %s is as it was at return %d", c.Key, cl.name, cm, ri), fr.retPos[ri], imp(ro, fmt.Sprintf("(= %s %s)", h, h0)))
				}
			}
			if r.alloc != vc.entry.alloc {
				vc.obl(r, "post", fmt.Sprintf("%s: %s: nothing is allocated at return %d", c.Key, cl.name, ri), fr.retPos[ri], imp(ro, fmt.Sprintf("(= %s %s)", r.alloc, vc.entry.alloc)))
			}
		}
		// frame
		if !vc.modsAll {
			for _, cm := range sortedKeys(r.heap) {
				h, h0 := vc.hget(r, cm), vc.hget(vc.entry, cm)
				if h == h0 {
					continue
				}
				nm := fmt.Sprintf("%s: nothing else is changed (%s) at return %d", c.Key, cm, ri)
				if !strings.HasPrefix(vc.comps[cm], "(Array Int ") || strings.HasPrefix(cm, "G_") {
					skip := false
					var refs []string
					for _, it := range vc.mods {
						if it.comp == cm {
							if it.ref == "" {
								skip = true
							}
							refs = append(refs, it.ref)
						}
					}
					if skip {
						continue
					}
					if strings.HasPrefix(cm, "GF_") {
						k := vc.fresh("fk", arrKey(vc.comps[cm]))
						var gs []string
						for _, f := range refs {
							gs = append(gs, fmt.Sprintf("(not (= %s %s))", k, f))
						}
						vc.obl(r, "frame", nm, fr.retPos[ri], imp(and(gs...), fmt.Sprintf("(= (select %s %s) (select %s %s))", h, k, h0, k)))
						continue
					}
					vc.obl(r, "frame", nm, fr.retPos[ri], vc.reg.eqT(vc.comps[cm], h, h0))
					continue
				}
				k := vc.fresh("fr", "Int")
				g := vc.frameGuard(cm, k)
				if g == "" {
					continue
				}
				// nothing is stored at nil
				g = and("(< 0 "+k+")", g)
				vc.obl(r, "frame", nm, fr.retPos[ri], imp(g, fmt.Sprintf("(= (select %s %s) (select %s %s))", h, k, h0, k)))
			}
		}
	}
	return nil
}

func (vc *VC) cover(st *State, what string) {
	if vc.dry > 0 {
		return
	}
	o := &Obl{Kind: "cover", Name: "reachable: " + what, node: st.node, pc: st.pc}
	st.node = &Node{parents: []*Node{st.node}}
	vc.covers = append(vc.covers, o)
}

func (x *X) doUses(where int, y *X) {
	vc := x.vc
	for _, a := range vc.c.Anns {
		if a.Kind != "use" || a.Loop != where {
			continue
		}
		e, err := vc.w.parseAnn(x.fr.pkg, x.fr.fd.Decl.Body.Lbrace+1, a.Text, x.fr.rename)
		if err != nil {
			vc.warn("use %q: %v", a.Text, err)
			continue
		}
		call, ok := e.(*ast.CallExpr)
		if !ok {
			continue
		}
		z := *y
		z.spec = true
		z.old = x.fr.entry
		z.ghostCall(call)
		y.st = z.st
	}
}

func (x *X) exitUses(z *X, r *State) {
	vc := x.vc
	for _, a := range vc.c.Anns {
		if a.Kind != "use" || a.Loop != -2 {
			continue
		}
		e, err := vc.w.parseAnn(x.fr.pkg, x.fr.fd.Decl.Body.Rbrace, a.Text, x.fr.rename)
		if err != nil {
			vc.warn("use %q: %v", a.Text, err)
			continue
		}
		func() {
			defer func() {
				if rr := recover(); rr != nil {
					if u, ok := rr.(unsupported); ok {
						vc.warn("use %q: %s", a.Text, u.msg)
						return
					}
					panic(rr)
				}
			}()
			y := &X{vc: vc, st: r, old: x.fr.entry, fr: x.fr, spec: true}
			y.ghostCall(e.(*ast.CallExpr))
			*r = *y.st
		}()
	}
	z.st.node = r.node
}

// ghostBlock executes a lemma body.
func (x *X) ghostBlock(list []ast.Stmt) bool {
	vc := x.vc
	for si, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt:
			call, ok := s.X.(*ast.CallExpr)
			if !ok {
				continue
			}
			fn := calleeOf(vc.w.info, call)
			if fn != nil && vc.w.isVstd(fn) {
				switch fn.Name() {
				case "Requires", "Ensures", "Decreases", "Modifies":
					continue
				case "Trig":
					func() { defer func() { recover() }(); x.ghostCall(call) }()
					continue
				}
			}
			x.ghostCall(call)
		case *ast.AssignStmt:
			x.doLet(clause{let: s})
		case *ast.IfStmt:
			c := x.bool(s.Cond)
			parent := x.st
			a := vc.branch(parent, c)
			b := vc.branch(parent, not(c))
			ya, yb := *x, *x
			ya.st, yb.st = a, b
			// a branch that returns skips what follows: run the rest inside the branches
			returns := false
			ast.Inspect(s, func(n ast.Node) bool {
				_, r := n.(*ast.ReturnStmt)
				returns = returns || r
				return !returns
			})
			var rest []ast.Stmt
			if returns {
				rest = list[si+1:]
			}
			ya.ghostBlock(append(append([]ast.Stmt{}, s.Body.List...), rest...))
			var other []ast.Stmt
			switch el := s.Else.(type) {
			case *ast.BlockStmt:
				other = el.List
			case *ast.IfStmt:
				other = []ast.Stmt{el}
			}
			yb.ghostBlock(append(append([]ast.Stmt{}, other...), rest...))
			ppc := parent.pc
			x.st = vc.merge([]*State{ya.st, yb.st}, ppc, x.objSort)
			if returns {
				return true
			}
		case *ast.ReturnStmt:
			return false
		default:
			vc.unsup(s, "statement %T in lemma", s)
		}
	}
	return true
}

// query builds the SMT text of an obligation.
func (vc *VC) query(o *Obl, skip map[*Def]bool) string {
	var facts []string
	collectFacts(o.node, map[*Node]bool{}, &facts)
	facts = append(append([]string{}, vc.globalFacts...), facts...)
	goal := ""
	if o.Kind != "cover" {
		goal = not(o.goal)
	}
	facts = slice(facts, o.pc+" "+goal)
	facts = append(facts, vc.lowerLevels(facts)...)
	texts := append([]string{}, facts...)
	texts = append(texts, o.pc, goal)
	var decls []string
	used := map[string]bool{}
	for _, t := range texts {
		for _, k := range tokens(t) {
			used[k] = true
		}
	}
	for _, d := range vc.decls {
		if n := declName(d); used[n] {
			decls = append(decls, d)
		}
	}
	texts = append(texts, decls...)
	if os.Getenv("GVC_BIG") != "" {
		for _, t := range texts {
			if len(t) > 50000 {
				fmt.Fprintln(os.Stderr, "BIG", len(t), t[:300], "...", t[len(t)-200:])
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 50)\n")
	b.WriteString(vc.reg.Prelude(texts, skip))
	for _, d := range decls {
		b.WriteString(d + "\n")
	}
	for _, f := range facts {
		b.WriteString("(assert " + f + ")\n")
	}
	if o.pc != "true" {
		b.WriteString("(assert " + o.pc + ")\n")
	}
	if goal != "" {
		b.WriteString("(assert " + goal + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var sfRe = regexp.MustCompile(`\bsf_[A-Za-z0-9_]+`)

// lowerLevels: quantified facts triggered by a recursive function also apply to its unfolded levels
// (the levels of a function are equal, so the copies say the same).
func (vc *VC) lowerLevels(facts []string) []string {
	rec := map[string]bool{}
	for _, sp := range vc.w.specs {
		if sp.Rec && sp.ready {
			rec[sp.sym] = true
		}
	}
	var out []string
	for _, f := range facts {
		if !strings.Contains(f, ":pattern") || !strings.Contains(f, "sf_") {
			continue
		}
		inPat := false
		for _, m := range patterns(f) {
			for _, k := range sfRe.FindAllString(m, -1) {
				if rec[k] {
					inPat = true
				}
			}
		}
		if !inPat {
			continue
		}
		for _, suf := range []string{"_1", "_0"} {
			out = append(out, sfRe.ReplaceAllStringFunc(f, func(k string) string {
				if rec[k] {
					return k + suf
				}
				return k
			}))
		}
	}
	return out
}

// patterns returns the texts of the patterns in a formula.
func patterns(f string) []string {
	var r []string
	for {
		i := strings.Index(f, ":pattern (")
		if i < 0 {
			return r
		}
		f = f[i+9:]
		d := 0
		for j := 0; j < len(f); j++ {
			if f[j] == '(' {
				d++
			} else if f[j] == ')' {
				d--
				if d == 0 {
					r = append(r, f[:j+1])
					f = f[j+1:]
					break
				}
			}
		}
	}
}

// slice drops definitional facts (= sym term) whose symbol nothing else mentions.
func slice(facts []string, goal string) []string {
	type fi struct {
		toks []string
		def  string
	}
	info := make([]fi, len(facts))
	count := map[string]int{}
	for i, f := range facts {
		info[i].toks = tokens(f)
		if strings.HasPrefix(f, "(= ") {
			r := f[3:]
			if k := strings.IndexByte(r, ' '); k > 0 && strings.Contains(r[:k], "!") && !strings.HasPrefix(r, "pc!") {
				info[i].def = r[:k]
			}
		}
		for _, t := range info[i].toks {
			if strings.Contains(t, "!") {
				count[t]++
			}
		}
	}
	for _, t := range tokens(goal) {
		count[t] += 1000000
	}
	dead := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for i := range facts {
			if dead[i] || info[i].def == "" || count[info[i].def] != 1 {
				continue
			}
			dead[i] = true
			changed = true
			for _, t := range info[i].toks {
				if strings.Contains(t, "!") {
					count[t]--
				}
			}
		}
	}
	var out []string
	for i, f := range facts {
		if !dead[i] {
			out = append(out, f)
		}
	}
	return out
}

func declName(d string) string {
	f := strings.Fields(d)
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

type VerifyOpts struct {
	timeout int // seconds per solver call
	verbose bool
	dumpDir string
}

// skipFor: a lemma may use only the lemmas declared before it.
func (w *World) skipFor(c *Contract) map[*Def]bool {
	skip := map[*Def]bool{}
	for _, sp := range w.specs {
		if !sp.Sealed {
			continue
		}
		shown := false
		for _, n := range c.Reveal {
			shown = shown || n == sp.Obj.Name()
		}
		if !shown {
			for _, d := range sp.defs {
				skip[d] = true
			}
		}
	}
	if !c.Lemma {
		return skip
	}
	seen := false
	for _, l := range w.lemmas {
		if l == c {
			seen = true
		}
		if seen && w.reg.lemmaDefs[l] != nil && !l.Axiom {
			skip[w.reg.lemmaDefs[l]] = true
		}
	}
	return skip
}

func (w *World) Verify(c *Contract, opt VerifyOpts) *FuncResult {
	fr := &FuncResult{Key: c.Key, c: c, uses: map[*Contract]bool{}}
	dropped := map[string]bool{}
	skip := w.skipFor(c)
	pool := false
	var vc *VC
	for round := 0; round < 14; round++ {
		fr.Rounds = round + 1
		vc = newVC(w, c)
		vc.dropped = dropped
		vc.pool = pool
		if err := vc.run(); err != nil {
			fr.Error = err.Error()
			fr.Failed++
			fr.Obls = append(fr.Obls, &OblOut{Name: c.Key + ": within the verifier's reach", Kind: "engine", Status: "error: " + err.Error()})
			return fr
		}
		skip = w.skipFor(c)
		dbg("%s: generated %d obligations", c.Key, len(vc.obls))
		// solve
		var todo []*Obl
		for _, o := range vc.obls {
			if o.status == "" {
				o.query = vc.query(o, skip)
				todo = append(todo, o)
			}
		}
		quickT := opt.timeout
		if pool && round < 13 {
			// while pruning, first only the invariants
			var inv []*Obl
			for _, o := range todo {
				if o.Inv != "" {
					inv = append(inv, o)
				}
			}
			solveAll(inv, 3)
			nd := 0
			for _, o := range inv {
				if o.status != "unsat" && !dropped[o.Inv] {
					dropped[o.Inv] = true
					nd++
				}
			}
			if nd > 0 {
				continue
			}
			var rest []*Obl
			for _, o := range todo {
				if o.status == "" {
					rest = append(rest, o)
				}
			}
			todo = rest
		}
		solveAll(todo, quickT)
		bad, badInv := 0, 0
		for _, o := range vc.obls {
			if o.status != "unsat" {
				bad++
				if o.Inv != "" {
					badInv++
				}
			}
		}
		if bad == 0 {
			break
		}
		if !pool {
			if len(vc.loopNodes()) == 0 && badInv == 0 && len(vc.inlined) == 0 {
				break
			}
			if os.Getenv("GVC_NOPOOL") != "" {
				break
			}
			// second chance: every invariant anywhere, then prune what is not inductive
			pool = true
			for k := range dropped {
				delete(dropped, k)
			}
			continue
		}
		if badInv == 0 {
			break
		}
		for _, o := range vc.obls {
			if o.Inv != "" && o.status != "unsat" {
				dropped[o.Inv] = true
			}
		}
	}
	// duplicate-free stable names
	names := map[string]int{}
	for _, o := range vc.obls {
		names[o.Name]++
		n := o.Name
		if names[o.Name] > 1 {
			n = fmt.Sprintf("%s #%d", o.Name, names[o.Name])
		}
		if !strings.HasPrefix(n, c.Key) && o.Inv == "" {
			n = c.Key + ": " + n
		}
		fr.Obls = append(fr.Obls, &OblOut{Name: n, Kind: o.Kind, Pos: o.Pos, Status: o.status, Solver: o.solver, MS: o.ms, Query: o.query, Goal: o.goal})
		fr.SolverMS += o.ms
		if o.status != "unsat" {
			fr.Failed++
		}
	}
	// vacuity: entry and returns must not be refutable
	for _, o := range vc.covers {
		o.query = vc.query(o, skip)
	}
	solveCovers(vc.covers)
	nreach := 0
	for _, o := range vc.covers {
		fr.SolverMS += o.ms
		fr.Covers++
		if o.status == "unsat" && o.Name == "reachable: entry" {
			fr.Failed++
			fr.Obls = append(fr.Obls, &OblOut{Name: c.Key + ": precondition is satisfiable", Kind: "cover", Status: "vacuous", Query: o.query})
		}
		if o.status != "unsat" && strings.HasPrefix(o.Name, "reachable: return") {
			nreach++
		}
	}
	if !c.Lemma && nreach == 0 && len(vc.covers) > 1 {
		fr.Failed++
		fr.Obls = append(fr.Obls, &OblOut{Name: c.Key + ": some return is reachable", Kind: "cover", Status: "vacuous"})
	}
	if len(vc.obls) == 0 {
		fr.Warn = append(fr.Warn, "no obligations")
	}
	fr.Assume = sortedKeys(vc.assume)
	fr.Inlined = sortedKeys(vc.inlined)
	fr.Warn = append(fr.Warn, sortedKeys(vc.warns)...)
	fr.Dropped = sortedKeys(dropped)
	for u := range vc.usedContracts {
		fr.uses[u] = true
	}
	for l, d := range w.reg.lemmaDefs {
		if skip[d] {
			continue
		}
		for _, o := range vc.obls {
			if strings.Contains(o.query, "; lemma "+l.Key+"\n") {
				fr.uses[l] = true
				break
			}
		}
	}
	for k := range w.reg.externDone {
		for _, o := range vc.obls {
			if strings.Contains(o.query, "ext_"+mangle(k.Key)+" ") {
				fr.uses[k] = true
				break
			}
		}
	}
	for u := range fr.uses {
		fr.Uses = append(fr.Uses, u.Key)
	}
	sort.Strings(fr.Uses)
	return fr
}

func (vc *VC) loopNodes() []ast.Node {
	var r []ast.Node
	for n := range vc.topFr.ordinal {
		r = append(r, n)
	}
	return r
}

// VerifySpecTermination checks that a recursive specification function is well founded.
func (w *World) VerifySpec(sp *SpecFn, opt VerifyOpts) *FuncResult {
	key := "spec " + sp.Pkg.Types.Name() + "." + sp.Obj.Name()
	fr := &FuncResult{Key: key, uses: map[*Contract]bool{}}
	fail := func(m string) *FuncResult {
		fr.Failed++
		fr.Error = m
		fr.Obls = append(fr.Obls, &OblOut{Name: key + ": well founded", Kind: "engine", Status: "error: " + m})
		return fr
	}
	if sp.DecText == "" {
		return fail("recursive specification function without a measure")
	}
	var res *FuncResult
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					res = fail(u.msg)
					return
				}
				panic(r)
			}
		}()
		vc := newVC(w, nil)
		st := newState()
		vc.decls = append(vc.decls, "(declare-const alloc0 Int)")
		sig := sp.Obj.Type().(*types.Signature)
		x := &X{vc: vc, st: st, old: st, spec: true, fr: &Frame{pkg: sp.Pkg.Types, ghost: true}, conds: []string{}}
		var args []string
		ps := w.paramObjs(sp.Decl)
		for i, p := range ps {
			t := sig.Params().At(i).Type()
			v := vc.fresh("p", w.reg.sortOf(t))
			vc.typeFacts(st, t, v)
			args = append(args, v)
			if p != nil {
				x.bind(p, v)
			}
		}
		var decs []ast.Expr
		for _, t := range strings.Split(sp.DecText, ";;") {
			e, err := w.parseAnn(sp.Pkg.Types, sp.Decl.Body.Lbrace+1, strings.TrimSpace(t), nil)
			if err != nil {
				vc.unsup(sp.Decl, "%v", err)
			}
			decs = append(decs, e)
		}
		meas := func(a []string) (r []string) {
			y := *x
			y.conds = nil
			h := vc.specRecHook
			vc.specRecHook = nil
			for i, p := range ps {
				if p != nil {
					y.bind(p, a[i])
				}
			}
			for _, d := range decs {
				r = append(r, y.expr(d))
			}
			vc.specRecHook = h
			return
		}
		m0 := meas(args)
		n := 0
		vc.specRecHook = func(y *X, s2 *SpecFn, a []string, conds []string) {
			if s2 != sp {
				return
			}
			n++
			g := lexDec(m0, meas(a))
			b := vc.branch(st, and(conds...))
			vc.obl(b, "dec", fmt.Sprintf("%s: recursive call %d decreases", key, n), sp.Decl.Pos(), g)
		}
		x.specBody(sp.Decl.Body.List, sig.Results().At(0).Type(), sp.Decl)
		vc.specRecHook = nil
		for _, o := range vc.obls {
			o.query = vc.query(o, nil)
		}
		solveAll(vc.obls, opt.timeout)
		for _, o := range vc.obls {
			fr.Obls = append(fr.Obls, &OblOut{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Status: o.status, Solver: o.solver, MS: o.ms, Query: o.query, Goal: o.goal})
			fr.SolverMS += o.ms
			if o.status != "unsat" {
				fr.Failed++
			}
		}
	}()
	if res != nil {
		return res
	}
	return fr
}

var _ = token.NoPos
var debug = os.Getenv("GVC_DEBUG") != ""

func dbg(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
