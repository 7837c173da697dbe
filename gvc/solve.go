package main

// Solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
)

type solverCmd struct {
	name string
	args func(t int) []string
	prep func(q string) string
}

func stripZ3(q string) string {
	var out []string
	for _, l := range strings.Split(q, "\n") {
		if strings.HasPrefix(l, "(set-option") {
			continue
		}
		out = append(out, l)
	}
	return "(set-logic ALL)\n" + strings.Join(out, "\n")
}

var flipRe = regexp.MustCompile(`:pattern \(\(at_\w+ s k\) \(sub_\w+ s i j\)\)|:pattern \(\(sub_\w+ \(sub_\w+ s i j\) k l\)\)`)

// noFlip leaves out the facts about elements of a part read off the whole and about parts of parts
// (they can feed themselves).
func noFlip(q string) string {
	var out []string
	for _, l := range strings.Split(q, "\n") {
		if !flipRe.MatchString(l) {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

var seqAxRe = regexp.MustCompile(`^\(assert \(forall .*\((at|sub|cat|upd|unit)_\w+ |^\(assert \(forall .*\(MatchAt `)

// noSeq leaves out the laws of sequences and texts (for goals about the heap alone).
func noSeq(q string) string {
	var out []string
	for _, l := range strings.Split(q, "\n") {
		if !seqAxRe.MatchString(l) {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

var solvers = []solverCmd{
	{"z3-5.3", func(t int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", t)} }, nil},
	{"z3-4.8", func(t int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", t)} }, nil},
	{"cvc5-1.1", func(t int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", t*1000)}
	}, stripZ3},
	{"z3-5.3/cs3", func(t int) []string {
		return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", t), "smt.case_split=3"}
	}, nil},
	{"z3-5.3/s7", func(t int) []string {
		return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", t), "smt.random_seed=7", "smt.qi.eager_threshold=7"}
	}, nil},
	{"z3-5.3/nf", func(t int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", t)} }, noFlip},
	{"z3-5.3/ns", func(t int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", t)} }, noSeq},
}

func runSolver(s solverCmd, q string, t int) (string, int64) {
	return runSolverCtx(context.Background(), s, q, t)
}

// race runs several back ends at once and stops the others at the first proof.
func race(which []int, q string, t int) (string, string, int64) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		s, n string
		ms   int64
	}
	ch := make(chan res, len(which))
	for _, i := range which {
		i := i
		go func() {
			var r res
			guarded(func() {
				if ctx.Err() != nil {
					r.s = "timeout"
					return
				}
				r.s, r.ms = runSolverCtx(ctx, solvers[i], q, t)
			})
			r.n = solvers[i].name
			ch <- r
		}()
	}
	var last res
	var tot int64
	for range which {
		r := <-ch
		tot += r.ms
		if r.s == "unsat" {
			return r.s, r.n, tot
		}
		if last.s == "" || last.s == "timeout" {
			last = r
		}
	}
	return last.s, last.n, tot
}

func runSolverCtx(parent context.Context, s solverCmd, q string, t int) (string, int64) {
	if s.prep != nil {
		q = s.prep(q)
	}
	start := time.Now()
	ctx, cancel := context.WithTimeout(parent, time.Duration(t+2)*time.Second)
	defer cancel()
	a := s.args(t)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	ms := time.Since(start).Milliseconds()
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l, ms
		}
		if strings.Contains(l, "error") {
			return "error: " + l, ms
		}
	}
	return "timeout", ms
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, workers())
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			f(i)
			<-sem
		}(i)
	}
	wg.Wait()
}

var gsem = make(chan bool, func() int {
	n := runtime.NumCPU()
	if n < 2 {
		n = 2
	}
	return n
}())

func workers() int { return 64 }

func guarded(f func()) {
	gsem <- true
	defer func() { <-gsem }()
	f()
}

var cacheMu sync.Mutex
var cache = map[string][2]string{}

func solveAll(obls []*Obl, t int) {
	parallel(len(obls), func(i int) {
		o := obls[i]
		if o.status == "unsat" {
			return
		}
		cacheMu.Lock()
		if c, ok := cache[o.query]; ok {
			cacheMu.Unlock()
			o.status, o.solver = c[0], c[1]
			return
		}
		cacheMu.Unlock()
		plan := []struct {
			s []int
			t int
		}{{[]int{0}, 2}, {[]int{3, 1, 5, 6}, min(t, 4)}, {[]int{0, 1, 2, 4, 5}, t}}
		if t <= 3 {
			plan = plan[:2]
		}
		for _, p := range plan {
			st, n, ms := race(p.s, o.query, p.t)
			o.ms += ms
			o.status, o.solver = st, n
			if st == "unsat" {
				break
			}
			if strings.HasPrefix(st, "error") {
				dbg("%s: solver error %s", o.Name, st)
			}
		}
		if o.status == "unsat" {
			cacheMu.Lock()
			cache[o.query] = [2]string{o.status, o.solver}
			cacheMu.Unlock()
		}
	})
}

func solveCovers(obls []*Obl) {
	parallel(len(obls), func(i int) {
		o := obls[i]
		guarded(func() { o.status, o.ms = runSolver(solvers[0], o.query, 2) })
	})
}
