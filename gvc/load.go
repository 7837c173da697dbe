package main

// Loading: type-checks every package of /repo from source together with the contract files
// that live under /verif/contracts/<pkg dir>, using one shared types.Info.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/innerr/ticat"
const vstdPath = modPath + "/pkg/vstd"

type Pkg struct {
	Path  string
	Files []*ast.File
	Types *types.Package
}

type FuncDecl struct {
	Obj   *types.Func
	Decl  *ast.FuncDecl
	Pkg   *Pkg
	Ghost bool // declared in a contract file
}

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path string }
}

type World struct {
	repo, contracts string
	fset            *token.FileSet
	info            *types.Info
	pkgs            map[string]*Pkg
	order           []string
	funcs           map[*types.Func]*FuncDecl
	byKey           map[string]*types.Func
	contractsBy     map[*types.Func]*Contract
	externs         map[string]*Contract
	specs           map[*types.Func]*SpecFn
	lemmas          []*Contract
	ghostFields     map[*types.Func]bool
	allContracts    []*Contract
	funcTypes       map[string]*Contract // contracts for interface methods / func-typed fields

	misfits []string // specifications that do not fit the source

	reg *Registry
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off",
		"GOFLAGS=-mod=mod -buildvcs=false", "CGO_ENABLED=0")
	return env
}

func contractDirOf(pkgPath string) string {
	return strings.TrimPrefix(strings.TrimPrefix(pkgPath, modPath), "/")
}

func Load(repo, contracts string) (*World, error) {
	w := &World{repo: repo, contracts: contracts, fset: token.NewFileSet(),
		pkgs: map[string]*Pkg{}, funcs: map[*types.Func]*FuncDecl{}, byKey: map[string]*types.Func{},
		contractsBy: map[*types.Func]*Contract{}, externs: map[string]*Contract{}, specs: map[*types.Func]*SpecFn{},
		ghostFields: map[*types.Func]bool{}, funcTypes: map[string]*Contract{}}
	w.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Imports,Module", "./pkg/...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	exports := map[string]string{}
	inRepo := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Module != nil && p.Module.Path == modPath {
			inRepo[p.ImportPath] = p
		} else {
			exports[p.ImportPath] = p.Export
		}
	}
	// vstd
	vdir := filepath.Join(contracts, "pkg/vstd")
	vfiles, _ := filepath.Glob(filepath.Join(vdir, "*.go"))
	vp := &listPkg{ImportPath: vstdPath, Dir: vdir}
	for _, f := range vfiles {
		vp.GoFiles = append(vp.GoFiles, filepath.Base(f))
	}
	gcImp := importer.ForCompiler(w.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	var check func(p *listPkg) error
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if path == vstdPath {
			if err := check(vp); err != nil {
				return nil, err
			}
			return w.pkgs[path].Types, nil
		}
		if lp, ok := inRepo[path]; ok {
			if err := check(lp); err != nil {
				return nil, err
			}
			return w.pkgs[path].Types, nil
		}
		return gcImp.Import(path)
	})
	busy := map[string]bool{}
	check = func(p *listPkg) error {
		if w.pkgs[p.ImportPath] != nil {
			return nil
		}
		if busy[p.ImportPath] {
			return fmt.Errorf("import cycle through %s", p.ImportPath)
		}
		busy[p.ImportPath] = true
		pk := &Pkg{Path: p.ImportPath}
		var ghostFiles = map[*ast.File]bool{}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(w.fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			pk.Files = append(pk.Files, af)
			if p == vp {
				ghostFiles[af] = true
			}
		}
		if p != vp {
			cf, _ := filepath.Glob(filepath.Join(contracts, contractDirOf(p.ImportPath), "*.go"))
			sort.Strings(cf)
			for _, f := range cf {
				af, err := parser.ParseFile(w.fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
				if err != nil {
					return err
				}
				pk.Files = append(pk.Files, af)
				ghostFiles[af] = true
			}
		}
		var tp *types.Package
		for {
			conf := types.Config{Importer: imp, GoVersion: "go1.21"}
			var errs []string
			var pos []token.Pos
			conf.Error = func(err error) {
				errs = append(errs, err.Error())
				if te, ok := err.(types.Error); ok {
					pos = append(pos, te.Pos)
				}
			}
			tp, _ = conf.Check(p.ImportPath, w.fset, pk.Files, w.info)
			if len(errs) == 0 {
				break
			}
			// specifications that do not fit the source are set aside (their contracts count as missing)
			if !w.dropGhost(pk, ghostFiles, pos, errs) {
				return fmt.Errorf("type errors in %s:\n%s", p.ImportPath, strings.Join(errs, "\n"))
			}
		}
		pk.Types = tp
		w.pkgs[p.ImportPath] = pk
		w.order = append(w.order, p.ImportPath)
		for _, af := range pk.Files {
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := w.info.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				w.funcs[obj] = &FuncDecl{obj, fd, pk, ghostFiles[af]}
				if fd.Name.Name != "_" {
					w.byKey[funcKey(obj)] = obj
				}
			}
		}
		return nil
	}
	var paths []string
	for p := range inRepo {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if err := check(inRepo[p]); err != nil {
			return nil, err
		}
	}
	if w.pkgs[vstdPath] == nil {
		if err := check(vp); err != nil {
			return nil, err
		}
	}
	// make vstd's names visible to loop annotations
	vs := w.pkgs[vstdPath].Types.Scope()
	for _, p := range w.order {
		if p == vstdPath {
			continue
		}
		sc := w.pkgs[p].Types.Scope()
		for _, n := range vs.Names() {
			if sc.Lookup(n) == nil {
				sc.Insert(vs.Lookup(n))
			}
		}
	}
	w.reg = NewRegistry(w)
	if err := w.collect(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *World) dropGhost(pk *Pkg, ghost map[*ast.File]bool, pos []token.Pos, errs []string) bool {
	dropped := false
	for _, af := range pk.Files {
		if !ghost[af] {
			continue
		}
		var keep []ast.Decl
		for _, d := range af.Decls {
			bad := ""
			if _, isF := d.(*ast.FuncDecl); isF {
				for i, p := range pos {
					if d.Pos() <= p && p <= d.End() {
						bad = errs[i]
					}
				}
			}
			if bad == "" {
				keep = append(keep, d)
				continue
			}
			dropped = true
			fd := d.(*ast.FuncDecl)
			if fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				for _, pre := range []string{"//vc:contract ", "//vc:lemma", "//vc:spec"} {
					if strings.HasPrefix(c.Text, pre) {
						k := fd.Name.Name
						if pre == "//vc:contract " {
							k = strings.TrimSpace(strings.TrimPrefix(c.Text, pre))
						}
						w.misfits = append(w.misfits, pk.Files[0].Name.Name+"."+k+": "+bad)
					}
				}
			}
		}
		af.Decls = keep
	}
	return dropped
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// funcKey gives a short stable name: "model.Env.GetEx", "parser.isTrue".
func funcKey(f *types.Func) string {
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Name()
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return pk + "." + recvName(r.Type()) + "." + f.Name()
	}
	return pk + "." + f.Name()
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (w *World) isVstd(o types.Object) bool {
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == vstdPath
}

func (w *World) inRepo(o types.Object) bool {
	return o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), modPath+"/") && !w.isVstd(o)
}

func (w *World) pos(p token.Pos) string {
	ps := w.fset.Position(p)
	f := ps.Filename
	for _, pre := range []string{w.repo + "/", w.contracts + "/"} {
		f = strings.TrimPrefix(f, pre)
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
