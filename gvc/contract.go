package main

// Contract collection: reads //vc: directives of the contract files.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

type Ann struct {
	Kind string // inv, dec, use
	Loop int    // ordinal; -1 entry, -2 exit (use only)
	End  bool   // use at the end of the loop body
	Text string
	Line int
	File string
	ID   string
}

type Contract struct {
	Key      string
	Fn       *types.Func // verified function (nil for extern and lemma: Fn is own object)
	Decl     *ast.FuncDecl
	Obj      *types.Func // object of the contract function itself
	Sig      *types.Signature
	Pkg      *Pkg
	Anns     []*Ann
	Extern   bool
	Pure     bool
	Lemma    bool
	Auto     bool
	TwoState bool
	Axiom    bool
	Trusted  bool // not verified (interface method or declared trusted); reported as an assumption
	Bounded  bool // body not within the verifier's reach; checked by the harness only
	Reveal   []string
	Inline   bool // verify, but callers still inline
	Missing  string
	Reason   string
}

type SpecFn struct {
	Obj      *types.Func
	Decl     *ast.FuncDecl
	DecText  string
	Rec      bool
	Uninterp bool
	Opaque   bool
	Sealed   bool // its definition is used only where it is revealed
	defs     []*Def
	comps    []string // heap components read (recursive functions)
	ready    bool
	busy     bool
	sym      string
	Pkg      *Pkg
}

func (w *World) directives(fd *ast.FuncDecl) [][]string {
	var res [][]string
	if fd.Doc == nil {
		return nil
	}
	for _, c := range fd.Doc.List {
		if strings.HasPrefix(c.Text, "//vc:") {
			t := strings.TrimPrefix(c.Text, "//vc:")
			kw, rest, _ := strings.Cut(t, " ")
			res = append(res, []string{kw, strings.TrimSpace(rest)})
		}
	}
	return res
}

func (w *World) collect() error {
	// interface methods are addressable by key too
	for _, path := range w.order {
		sc := w.pkgs[path].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if it, ok := tn.Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumExplicitMethods(); i++ {
					m := it.ExplicitMethod(i)
					k := w.pkgs[path].Types.Name() + "." + n + "." + m.Name()
					if w.byKey[k] == nil {
						w.byKey[k] = m
					}
				}
			}
		}
	}
	for _, path := range w.order {
		pk := w.pkgs[path]
		for _, af := range pk.Files {
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := w.info.Defs[fd.Name].(*types.Func)
				if obj == nil || !w.funcs[obj].Ghost {
					continue
				}
				dirs := w.directives(fd)
				if len(dirs) == 0 {
					continue
				}
				c := &Contract{Decl: fd, Obj: obj, Sig: obj.Type().(*types.Signature), Pkg: pk}
				var sp *SpecFn
				isC := false
				for _, dr := range dirs {
					switch dr[0] {
					case "contract":
						isC = true
						c.Key = pk.Types.Name() + "." + dr[1]
						c.Fn = w.byKey[c.Key]
						if c.Fn == nil {
							c.Missing = "no function " + c.Key + " in the source"
						}
					case "extern":
						isC = true
						c.Extern = true
						f := strings.Fields(dr[1])
						c.Key = f[0]
						for _, x := range f[1:] {
							if x == "pure" {
								c.Pure = true
							}
						}
					case "functype": // a function value, by the name of the variable or field that holds it
						isC = true
						c.Extern = true
						c.Trusted = true
						c.Key = "func " + pk.Types.Name() + "." + dr[1]
						w.funcTypes[pk.Types.Name()+"."+dr[1]] = c
					case "lemma":
						isC = true
						c.Lemma = true
						c.Fn = obj
						c.Key = pk.Types.Name() + "." + fd.Name.Name
						c.Auto = strings.Contains(dr[1], "auto")
						c.TwoState = strings.Contains(dr[1], "twostate")
					case "axiom":
						isC = true
						c.Lemma = true
						c.Auto = true
						c.Axiom = true
						c.Trusted = true
						c.Fn = obj
						c.Key = pk.Types.Name() + "." + fd.Name.Name
						c.Reason = dr[1]
					case "trusted":
						c.Trusted = true
						c.Reason = dr[1]
					case "bounded":
						c.Bounded = true
						c.Reason = dr[1]
					case "inline":
						c.Inline = true
					case "reveal":
						for _, n := range strings.Fields(dr[1]) {
							c.Reveal = append(c.Reveal, n)
						}
					case "spec":
						sp = &SpecFn{Obj: obj, Decl: fd, Pkg: pk}
						sp.Sealed = strings.Contains(dr[1], "sealed")
						sp.Opaque = strings.Contains(dr[1], "opaque") || sp.Sealed
						sp.Uninterp = strings.Contains(dr[1], "uf")
					case "dec":
						if sp != nil {
							sp.DecText = dr[1]
						}
					case "ghostfield":
						w.ghostFields[obj] = true
					default:
						return fmt.Errorf("%s: unknown directive vc:%s", w.pos(fd.Pos()), dr[0])
					}
				}
				if sp != nil {
					w.specs[obj] = sp
				}
				if !isC {
					continue
				}
				if c.Missing == "" && !c.Extern && !c.Lemma {
					c.Missing = w.sigMismatch(c)
				}
				// annotations inside the body
				lastAnn := (*Ann)(nil)
				for _, cg := range af.Comments {
					for _, cm := range cg.List {
						if cm.Pos() < fd.Body.Pos() || cm.End() > fd.Body.End() || !strings.HasPrefix(cm.Text, "//vc:") {
							continue
						}
						t := strings.TrimPrefix(cm.Text, "//vc:")
						if strings.HasPrefix(t, "+") {
							if lastAnn != nil {
								lastAnn.Text += " " + strings.TrimSpace(t[1:])
							}
							continue
						}
						head, text, ok := strings.Cut(t, ":")
						if !ok {
							return fmt.Errorf("%s: bad annotation %q", w.pos(cm.Pos()), cm.Text)
						}
						f := strings.Fields(head)
						a := &Ann{Kind: f[0], Text: strings.TrimSpace(text), Line: w.fset.Position(cm.Pos()).Line}
						if len(f) < 2 {
							return fmt.Errorf("%s: bad annotation %q", w.pos(cm.Pos()), cm.Text)
						}
						switch f[1] {
						case "entry":
							a.Loop = -1
						case "exit":
							a.Loop = -2
						default:
							n, err := strconv.Atoi(f[1])
							if err != nil {
								return fmt.Errorf("%s: bad annotation %q", w.pos(cm.Pos()), cm.Text)
							}
							a.Loop = n
						}
						if len(f) > 2 && f[2] == "end" {
							a.End = true
						}
						a.ID = fmt.Sprintf("%s.%s%d.%d", c.Key, a.Kind, a.Loop, len(c.Anns))
						c.Anns = append(c.Anns, a)
						lastAnn = a
					}
				}
				if c.Missing != "" {
					w.allContracts = append(w.allContracts, c)
					continue
				}
				if c.Lemma {
					w.lemmas = append(w.lemmas, c)
					w.contractsBy[obj] = c
				} else if c.Extern {
					w.externs[c.Key] = c
				} else if c.Fn != nil {
					if old := w.contractsBy[c.Fn]; old != nil {
						return fmt.Errorf("two contracts for %s", c.Key)
					}
					w.contractsBy[c.Fn] = c
					if w.funcs[c.Fn] == nil {
						c.Trusted = true // interface method: assumed for every implementation
						if c.Reason == "" {
							c.Reason = "interface method"
						}
					}
				}
				w.allContracts = append(w.allContracts, c)
			}
		}
	}
	// recursion of spec functions
	for _, sp := range w.specs {
		sp.sym = "sf_" + mangle(sp.Pkg.Types.Name()+"_"+sp.Obj.Name())
		ast.Inspect(sp.Decl.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && w.info.Uses[id] == sp.Obj {
				sp.Rec = true
			}
			return true
		})
	}
	return nil
}

func (w *World) sigMismatch(c *Contract) string {
	want := c.Fn.Type().(*types.Signature)
	var wp []types.Type
	if want.Recv() != nil {
		wp = append(wp, want.Recv().Type())
	}
	for i := 0; i < want.Params().Len(); i++ {
		wp = append(wp, want.Params().At(i).Type())
	}
	gp := c.Sig.Params()
	if gp.Len() != len(wp) {
		return fmt.Sprintf("contract of %s takes %d parameters, the function %d", c.Key, gp.Len(), len(wp))
	}
	for i, t := range wp {
		if !types.Identical(t, gp.At(i).Type()) {
			return fmt.Sprintf("contract of %s: parameter %d has type %s, the function's is %s", c.Key, i, gp.At(i).Type(), t)
		}
	}
	if c.Sig.Results().Len() != want.Results().Len() {
		return fmt.Sprintf("contract of %s: number of results differs", c.Key)
	}
	for i := 0; i < want.Results().Len(); i++ {
		if !types.Identical(want.Results().At(i).Type(), c.Sig.Results().At(i).Type()) {
			return fmt.Sprintf("contract of %s: result %d has type %s, the function's is %s", c.Key, i, c.Sig.Results().At(i).Type(), want.Results().At(i).Type())
		}
	}
	return ""
}

// paramObjs returns receiver+parameter objects of a real function declaration.
func (w *World) paramObjs(fd *ast.FuncDecl) []types.Object {
	var res []types.Object
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			if len(f.Names) == 0 {
				res = append(res, nil)
			}
			for _, n := range f.Names {
				if n.Name == "_" {
					res = append(res, nil)
				} else {
					res = append(res, w.info.Defs[n])
				}
			}
		}
	}
	add(fd.Recv)
	add(fd.Type.Params)
	return res
}

func (w *World) resultObjs(fd *ast.FuncDecl) (objs []types.Object, n int) {
	if fd.Type.Results == nil {
		return nil, 0
	}
	for _, f := range fd.Type.Results.List {
		if len(f.Names) == 0 {
			objs = append(objs, nil)
			n++
		}
		for _, nm := range f.Names {
			n++
			if nm.Name == "_" {
				objs = append(objs, nil)
			} else {
				objs = append(objs, w.info.Defs[nm])
			}
		}
	}
	return
}

// parseAnn type-checks annotation text at a position of the real code. names maps contract
// parameter names to the names used in the real declaration.
func (w *World) parseAnn(pkg *types.Package, pos token.Pos, text string, rename map[string]string) (e ast.Expr, err error) {
	e, err = parser.ParseExpr(text)
	if err != nil {
		return nil, fmt.Errorf("cannot parse %q: %v", text, err)
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			ast.Inspect(n.X, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if r, ok := rename[id.Name]; ok {
						id.Name = r
					}
				}
				return true
			})
			return false
		case *ast.Ident:
			if r, ok := rename[n.Name]; ok {
				n.Name = r
			}
		}
		return true
	})
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("annotation %q: %v", text, r)
		}
	}()
	if err = types.CheckExpr(w.fset, pkg, pos, e, w.info); err != nil {
		return nil, err
	}
	return e, nil
}
