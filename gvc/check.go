package main

// gvc check: decides one property. The proof part verifies the property's functions and everything
// their contracts rest on; the harness part runs the real code on enumerated and random inputs, both to
// find the failing input of a refuted obligation and to cover the functions outside the verifier's reach.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type PropConf struct {
	Roots   []string `json:"roots"`   // contracts (and lemmas) that state the property
	Bounded []string `json:"bounded"` // what only the bounded check covers
	Level   string   `json:"level"`
	Notes   []string `json:"assumptions"`
}

type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // known or fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type HViolation struct {
	Key   string `json:"key"`
	Case  string `json:"case"`
	Input string `json:"input"`
	What  string `json:"what"`
}

type HResult struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct"`
	Rules       []string       `json:"rules"`
	Samples     []string       `json:"samples"`
	Cases       map[string]int `json:"cases"`
	Violations  []HViolation   `json:"violations"`
	Done        bool           `json:"done"`
	Err         string         `json:"-"`
	Pkgs        []string       `json:"-"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	home := fs.String("home", "/verif", "")
	tier := fs.String("tier", "", "quick or thorough")
	skipProof := fs.Bool("noproof", false, "")
	skipHarness := fs.Bool("noharness", false, "")
	fs.Parse(args)
	id := fs.Arg(0)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	start := time.Now()
	var conf map[string]*PropConf
	readJSON(filepath.Join(*home, "checks/props.json"), &conf)
	pc := conf[id]
	if pc == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	var known []Finding
	readJSON(filepath.Join(*home, "known-findings.json"), &known)
	evDir := filepath.Join(*home, "evidence")
	os.MkdirAll(evDir, 0o755)
	rpDir := filepath.Join(evDir, "replay")
	os.MkdirAll(rpDir, 0o755)

	// --- harness, in parallel with the proof
	hch := make(chan *HResult, 1)
	go func() {
		if *skipHarness {
			hch <- nil
			return
		}
		hch <- runHarness(*repo, *home, id, *tier, seed)
	}()

	// --- proof
	var results []*FuncResult
	var failed []string
	var failText strings.Builder
	trusted := map[string]bool{}
	assume := map[string]bool{}
	var notes []string
	if !*skipProof && len(pc.Roots) > 0 {
		w, err := Load(*repo, filepath.Join(*home, "contracts"))
		if err == nil {
			err = w.reg.buildLemmaAxioms()
		}
		if err != nil {
			failed = append(failed, "source and contracts can be loaded")
			fmt.Fprintf(&failText, "load: %v\n", err)
		} else {
			notes = append(notes, w.misfits...)
			results, failed = w.verifyClosure(pc.Roots, *tier, &failText, trusted, assume)
		}
	}
	h := <-hch

	obls, disch, covers := 0, 0, 0
	var ms int64
	funcs := []string{}
	solvers := map[string]int{}
	for _, r := range results {
		funcs = append(funcs, r.Key)
		covers += r.Covers
		ms += r.SolverMS
		for _, o := range r.Obls {
			obls++
			if o.Status == "unsat" {
				disch++
				solvers[o.Solver]++
			}
		}
	}

	// --- verdict
	code := 0
	nviol := 0
	seen := map[string]bool{}
	report := func(name, text string, noInput bool) {
		nviol++
		code = 1
		f := filepath.Join(rpDir, id+"-"+mangle(name)+".txt")
		if len(f) > 200 {
			f = f[:196] + ".txt"
		}
		os.WriteFile(f, []byte(text), 0o644)
		suf := ""
		if noInput {
			suf = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, f, suf)
	}
	concrete := 0
	if h != nil {
		for _, v := range h.Violations {
			k := isKnown(known, id, v.Key)
			if k != nil {
				if !seen[v.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
				seen[v.Key] = true
				continue
			}
			if seen[v.Case] || concrete >= 5 {
				continue
			}
			seen[v.Case] = true
			concrete++
			txt := fmt.Sprintf("property %s is violated by the code in %s\ncase:   %s\ninput:  %s\nresult: %s\n\nreplay: VERIF_SEED=%d bash %s/checks/run.sh %s %s\n", id, *repo, v.Case, v.Input, v.What, seed, *home, id, *tier)
			if len(failed) > 0 {
				txt += "\nrefuted or open obligations:\n" + failText.String()
			}
			fmt.Printf("  %s: %s: %s\n", v.Case, v.Input, v.What)
			report(v.Case, txt, false)
		}
	}
	if len(failed) > 0 {
		for _, f := range failed {
			fmt.Println("  obligation not discharged:", f)
		}
		if concrete == 0 {
			txt := fmt.Sprintf("property %s: these obligations, generated from the code in %s, are not discharged:\n%s\n", id, *repo, failText.String())
			if h != nil {
				txt += fmt.Sprintf("\nno failing input among %d executions of the real code\n", h.Evaluations)
			}
			report("obligation-"+failed[0], txt, true)
		}
	}
	if h != nil && h.Err != "" && concrete == 0 {
		if len(results) == 0 {
			// nothing else decides this property
			report("harness", "the harness does not run against this source:\n"+h.Err, true)
		} else {
			notes = append(notes, "harness: "+trunc(h.Err, 400))
			fmt.Println("  note: harness did not run:", trunc(h.Err, 2000))
		}
	}

	// --- evidence
	cov := map[string]any{}
	if len(results) > 0 {
		cov["obligations"] = obls
		cov["discharged"] = disch
		cov["checker_cmd"] = fmt.Sprintf("bin/gvc check -tier %s %s  (VC generation from /repo's source; z3 5.3.2, z3 4.8.12, cvc5 1.1.2)", *tier, id)
		cov["trusted_base"] = sortedKeys(trusted)
		cov["functions_under_contract"] = funcs
		cov["reachability_checks"] = covers
		cov["solver_ms"] = ms
		cov["discharged_by"] = solvers
		cov["failed_obligations"] = failed
	}
	if h != nil {
		cov["evaluations"] = h.Evaluations
		cov["distinct_nontrivial"] = h.Distinct
		cov["rule"] = strings.Join(h.Rules, " | ")
		cov["samples"] = h.Samples
		cov["cases"] = h.Cases
		if len(pc.Bounded) > 0 {
			cov["bounded_only"] = pc.Bounded
		}
	}
	if len(results) == 0 && h == nil {
		cov["explanation"] = "nothing ran"
	}
	for _, n := range pc.Notes {
		assume[n] = true
	}
	if len(pc.Bounded) > 0 {
		assume["bounded check only (not proved): "+strings.Join(pc.Bounded, "; ")] = true
	}
	cov["notes"] = notes
	level := pc.Level
	if level == "" {
		level = "proof"
	}
	ev := map[string]any{"property": id, "tier": *tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": sortedKeys(assume), "wall_s": time.Since(start).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0o644)
	he := ""
	if h != nil {
		he = fmt.Sprintf(", %d executions", h.Evaluations)
	}
	fmt.Printf("%s %s: %d/%d obligations of %d functions and lemmas%s, %.1fs\n", id, *tier, disch, obls, len(results), he, time.Since(start).Seconds())
	os.Exit(code)
}

func isKnown(ks []Finding, id, key string) *Finding {
	for i := range ks {
		if ks[i].Property == id && ks[i].Key == key && key != "" && ks[i].Status == "known" {
			return &ks[i]
		}
	}
	return nil
}

func readJSON(f string, v any) {
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, v); err != nil {
		fmt.Println(f, err)
		os.Exit(2)
	}
}

// verifyClosure verifies the roots and every contract, lemma and recursive specification they rest on.
func (w *World) verifyClosure(roots []string, tier string, txt *strings.Builder, trusted, assume map[string]bool) (res []*FuncResult, failed []string) {
	opt := VerifyOpts{timeout: 10}
	if tier == "thorough" {
		opt.timeout = 60
	}
	byKey := map[string]*Contract{}
	for _, c := range w.allContracts {
		byKey[c.Key] = c
	}
	bad := func(name, detail string) {
		failed = append(failed, name)
		fmt.Fprintf(txt, "- %s\n%s\n", name, detail)
	}
	done := map[*Contract]bool{}
	var todo []*Contract
	push := func(c *Contract) {
		if !done[c] {
			done[c] = true
			todo = append(todo, c)
		}
	}
	for _, r := range roots {
		re, err := regexp.Compile("^(" + r + ")$")
		if err != nil {
			bad("root "+r, err.Error())
			continue
		}
		n := 0
		for _, c := range w.allContracts {
			if re.MatchString(c.Key) && !c.Extern {
				push(c)
				n++
			}
		}
		for _, m := range w.misfits {
			if k, _, _ := strings.Cut(m, ":"); n > 0 && re.MatchString(k) {
				bad("contract of "+k+" applies to the source", m)
			}
		}
		if n == 0 {
			why := ""
			for _, m := range w.misfits {
				if strings.HasPrefix(m, r+":") {
					why = m
				}
			}
			bad("contract of "+r+" applies to the source", why)
		}
	}
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if c.Extern || c.Trusted || c.Axiom {
			why := "assumed contract: " + c.Key
			if c.Reason != "" {
				why += " (" + c.Reason + ")"
			}
			trusted[why] = true
			continue
		}
		if c.Bounded {
			assume["bounded, not proved: "+c.Key+" "+c.Reason] = true
			continue
		}
		r := w.Verify(c, opt)
		res = append(res, r)
		for _, a := range r.Assume {
			assume[a] = true
		}
		for _, o := range r.Obls {
			if o.Status != "unsat" {
				d := fmt.Sprintf("  at %s, solver says: %s %s\n", o.Pos, o.Status, o.Solver)
				if o.Goal != "" {
					d += "  goal: " + trunc(o.Goal, 1500) + "\n"
				}
				bad(o.Name, d)
			}
		}
		for _, x := range r.Warn {
			fmt.Fprintf(txt, "  (%s: %s)\n", c.Key, x)
		}
		var us []*Contract
		for u := range r.uses {
			us = append(us, u)
		}
		sort.Slice(us, func(i, j int) bool { return us[i].Key < us[j].Key })
		for _, u := range us {
			push(u)
		}
	}
	for _, sp := range sortedSpecs(w) {
		if sp.Rec && sp.ready {
			r := w.VerifySpec(sp, opt)
			res = append(res, r)
			for _, o := range r.Obls {
				if o.Status != "unsat" {
					bad(o.Name, o.Status)
				}
			}
		}
	}
	trusted["gvc: Go semantics, VC generation (/verif/gvc), go/types"] = true
	trusted["SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2"] = true
	assume["machine integers are treated as mathematical integers"] = true
	return
}

// ---- harness

func runHarness(repo, home, id, tier string, seed int) *HResult {
	root := filepath.Join(home, "harness", id)
	var pkgs []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, "_test.go") {
			d, _ := filepath.Rel(root, filepath.Dir(p))
			if len(pkgs) == 0 || pkgs[len(pkgs)-1] != d {
				pkgs = append(pkgs, d)
			}
		}
		return nil
	})
	if len(pkgs) == 0 {
		return nil
	}
	tot := &HResult{Cases: map[string]int{}, Pkgs: pkgs}
	tmp, err := os.MkdirTemp("", "vh")
	if err != nil {
		tot.Err = err.Error()
		return tot
	}
	defer os.RemoveAll(tmp)
	for i, p := range pkgs {
		repl := map[string]string{}
		fs, _ := filepath.Glob(filepath.Join(root, p, "*_test.go"))
		for _, f := range fs {
			repl[filepath.Join(repo, p, "zz_verif_"+filepath.Base(f))] = f
		}
		for _, d := range []string{"vh"} {
			fs, _ := filepath.Glob(filepath.Join(home, "harness", d, "*.go"))
			for _, f := range fs {
				repl[filepath.Join(repo, "pkg", d, filepath.Base(f))] = f
			}
		}
		shared := filepath.Join(home, "harness", "shared")
		filepath.Walk(shared, func(f string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(f, ".go") {
				d, _ := filepath.Rel(shared, f)
				repl[filepath.Join(repo, d)] = f
			}
			return nil
		})
		ov := filepath.Join(tmp, fmt.Sprintf("o%d.json", i))
		b, _ := json.Marshal(map[string]any{"Replace": repl})
		os.WriteFile(ov, b, 0o644)
		out := filepath.Join(tmp, fmt.Sprintf("r%d.json", i))
		work := filepath.Join(tmp, fmt.Sprintf("w%d", i))
		os.MkdirAll(work, 0o777)
		to := "240s"
		secs := "12"
		if tier == "thorough" {
			to = "780s"
			secs = "240"
		}
		cmd := exec.Command("go", "test", "-vet=off", "-count=1", "-timeout", to, "-overlay", ov, "-run", "^TestVH", "./"+p)
		cmd.Dir = repo
		cmd.Env = append(goEnv(), "VH_OUT="+out, "VH_WORK="+work, "VH_SECS="+secs, "VH_TIER="+tier, fmt.Sprintf("VH_SEED=%d", seed))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		o, err := cmd.CombinedOutput()
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
		var r HResult
		jb, jerr := os.ReadFile(out)
		if jerr == nil {
			jerr = json.Unmarshal(jb, &r)
		}
		if jerr != nil {
			tot.Err += fmt.Sprintf("%s: %v: %s\n", p, err, trunc(string(o), 3000))
			continue
		}
		if !r.Done && len(r.Violations) == 0 {
			tot.Violations = append(tot.Violations, HViolation{"", "harness-died", p, "the process ended early: " + trunc(tailOf(string(o)), 1500)})
		}
		tot.Evaluations += r.Evaluations
		tot.Distinct += r.Distinct
		tot.Rules = append(tot.Rules, r.Rules...)
		tot.Samples = append(tot.Samples, r.Samples...)
		tot.Violations = append(tot.Violations, r.Violations...)
		for k, v := range r.Cases {
			tot.Cases[k] += v
		}
	}
	return tot
}

func tailOf(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}
