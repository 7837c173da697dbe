package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "verify" {
		cmdVerify(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		cmdCheck(os.Args[2:])
		return
	}
	fmt.Fprintln(os.Stderr, "usage: gvc verify|check ...")
	os.Exit(2)
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	con := fs.String("contracts", "/verif/contracts", "")
	fn := fs.String("fn", ".", "regexp of contract keys")
	t := fs.Int("t", 10, "timeout")
	v := fs.Bool("v", false, "verbose")
	dump := fs.String("dump", "", "directory for failed queries")
	fs.Parse(args)
	w, err := Load(*repo, *con)
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		os.Exit(2)
	}
	if err := w.reg.buildLemmaAxioms(); err != nil {
		fmt.Println("LEMMA ERROR:", err)
		os.Exit(2)
	}
	for _, m := range w.misfits {
		fmt.Println("MISFIT", m)
	}
	re := regexp.MustCompile(*fn)
	bad := 0
	opt := VerifyOpts{timeout: *t}
	show := func(r *FuncResult) {
		st := "ok"
		if r.Failed > 0 {
			st = "FAILED"
			bad++
		}
		fmt.Printf("%-50s %s  %d obligations, %d failed, rounds %d, %dms\n", r.Key, st, len(r.Obls), r.Failed, r.Rounds, r.SolverMS)
		if r.Error != "" {
			fmt.Println("   error:", r.Error)
		}
		for _, x := range r.Warn {
			fmt.Println("   warn:", x)
		}
		if *v {
			for _, a := range r.Assume {
				fmt.Println("   assume:", a)
			}
			fmt.Println("   inlined:", r.Inlined, "uses:", r.Uses, "dropped:", r.Dropped)
		}
		for i, o := range r.Obls {
			if o.Status != "unsat" || *v {
				fmt.Printf("   [%s] %s (%s) %s %s %dms\n", o.Status, o.Name, o.Pos, o.Kind, o.Solver, o.MS)
			}
			if *dump != "" && (o.Status != "unsat") {
				os.MkdirAll(*dump, 0o755)
				f := filepath.Join(*dump, fmt.Sprintf("%s_%d.smt2", mangle(r.Key), i))
				os.WriteFile(f, []byte("; "+o.Name+"\n"+o.Query), 0o644)
				fmt.Println("      ->", f)
				fmt.Println("      goal:", trunc(o.Goal, 600))
			}
		}
	}
	for _, sp := range sortedSpecs(w) {
		if sp.Rec && re.MatchString("spec."+sp.Obj.Name()) {
			show(w.VerifySpec(sp, opt))
		}
	}
	for _, c := range w.allContracts {
		if c.Extern || c.Trusted || c.Bounded || !re.MatchString(c.Key) {
			continue
		}
		show(w.Verify(c, opt))
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sortedSpecs(w *World) []*SpecFn {
	m := map[string]*SpecFn{}
	for _, s := range w.specs {
		m[s.Pkg.Path+"."+s.Obj.Name()] = s
	}
	var r []*SpecFn
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	return r
}

var _ = strings.TrimSpace
