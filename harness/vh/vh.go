//go:build go1.21

// Package vh runs the real code on enumerated and random inputs and records what happened. It exists only
// in the test overlay of the checks.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type violation struct {
	Key   string `json:"key"`
	Case  string `json:"case"`
	Input string `json:"input"`
	What  string `json:"what"`
}

var (
	mu       sync.Mutex
	evals    int
	distinct = map[uint64]bool{}
	rules    []string
	samples  []string
	cases    = map[string]int{}
	viols    []violation
	opened   int
	closed   int
	curCase  string
	curInput string
	curStart time.Time
	watching bool
)

type C struct {
	R      *rand.Rand
	Deep   bool // thorough tier
	start  time.Time
	budget time.Duration
	perC   map[string]int
	T      *testing.T
}

// New starts a harness test; rule says how its cases are made.
func New(t *testing.T, rule string) *C {
	seed, _ := strconv.Atoi(os.Getenv("VH_SEED"))
	secs, _ := strconv.Atoi(os.Getenv("VH_SECS"))
	if secs == 0 {
		secs = 5
	}
	mu.Lock()
	opened++
	rules = append(rules, rule)
	if !watching {
		watching = true
		go watch()
	}
	mu.Unlock()
	write()
	return &C{R: rand.New(rand.NewSource(int64(seed))), Deep: os.Getenv("VH_TIER") == "thorough", start: time.Now(),
		budget: time.Duration(secs) * time.Second, perC: map[string]int{}, T: t}
}

// Work is a scratch directory the check removes.
func Work() string {
	d := os.Getenv("VH_WORK")
	if d == "" {
		d = os.TempDir()
	}
	r, err := os.MkdirTemp(d, "w")
	if err != nil {
		panic(err)
	}
	return r
}

// More: time is left for random cases.
func (c *C) More() bool { return time.Since(c.start) < c.budget }

// For runs f until its share (percent of the budget) is used up.
func (c *C) For(percent int, f func()) {
	end := time.Now().Add(c.budget * time.Duration(percent) / 100)
	for n := 0; time.Now().Before(end); n++ {
		f()
	}
}

func (c *C) Done() {
	mu.Lock()
	closed++
	curCase = ""
	mu.Unlock()
	write()
}

// Try executes one case on the real code: f returns what is wrong, or "".
func (c *C) Try(name, input string, f func() string) bool { return c.TryKey(name, "", input, f) }

// TryKey: key identifies a case that may be a listed finding.
func (c *C) TryKey(name, key, input string, f func() string) bool {
	mu.Lock()
	evals++
	cases[name]++
	h := fnv.New64a()
	h.Write([]byte(name))
	h.Write([]byte{0})
	h.Write([]byte(input))
	distinct[h.Sum64()] = true
	n := cases[name]
	if (n == 3 || n == 40) && len(samples) < 12 {
		samples = append(samples, name+": "+cut(input, 300))
	}
	curCase, curInput, curStart = name, input, time.Now()
	mu.Unlock()
	what := guard(f)
	mu.Lock()
	curCase = ""
	mu.Unlock()
	if what == "" {
		return true
	}
	Report(name, key, input, what)
	return false
}

// TryLog executes one random history: f notes every step with say before it makes it.
func (c *C) TryLog(name string, f func(say func(format string, a ...any)) string) bool {
	var log []string
	mu.Lock()
	curCase, curInput, curStart = name, "", time.Now()
	mu.Unlock()
	what := guard(func() string {
		return f(func(format string, a ...any) {
			log = append(log, fmt.Sprintf(format, a...))
			mu.Lock()
			curInput = strings.Join(log, "; ")
			mu.Unlock()
		})
	})
	input := strings.Join(log, "; ")
	mu.Lock()
	evals++
	cases[name]++
	h := fnv.New64a()
	h.Write([]byte(name + "\x00" + input))
	distinct[h.Sum64()] = true
	if n := cases[name]; (n == 3 || n == 40) && len(samples) < 12 {
		samples = append(samples, name+": "+cut(input, 300))
	}
	curCase = ""
	mu.Unlock()
	if what == "" {
		return true
	}
	Report(name, "", input, what)
	return false
}

func guard(f func() string) (what string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			var keep []string
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, ".go:") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 5 {
				keep = keep[1:5]
			}
			what = fmt.Sprintf("panic: %v [%s]", r, strings.Join(keep, " < "))
		}
	}()
	return f()
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool, v any) {
	defer func() {
		if r := recover(); r != nil {
			p, v = true, r
		}
	}()
	f()
	return
}

func Report(name, key, input, what string) {
	mu.Lock()
	n := 0
	for _, v := range viols {
		if v.Case == name && v.Key == key {
			n++
			if len(input) < len(v.Input) && key == "" && n == 1 {
				// keep the shorter one first
				for i := range viols {
					if viols[i].Case == name && viols[i].Key == key {
						viols[i].Input, viols[i].What = cut(input, 4000), cut(what, 4000)
						break
					}
				}
			}
		}
	}
	if n == 0 {
		viols = append(viols, violation{key, name, cut(input, 4000), cut(what, 4000)})
	}
	mu.Unlock()
	if n == 0 {
		write()
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func write() {
	out := os.Getenv("VH_OUT")
	mu.Lock()
	defer mu.Unlock()
	if out == "" {
		for _, v := range viols {
			fmt.Printf("%s [%s]: %s: %s\n", v.Case, v.Key, v.Input, v.What)
		}
		return
	}
	r := map[string]any{"evaluations": evals, "distinct": len(distinct), "rules": rules, "samples": samples, "cases": cases,
		"violations": viols, "done": opened == closed}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(out+".tmp", b, 0o644)
	os.Rename(out+".tmp", out)
}

func watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		mu.Lock()
		c, in, st := curCase, curInput, curStart
		mu.Unlock()
		if c == "" {
			continue
		}
		el := time.Since(st)
		bad := ""
		if el > 20*time.Second {
			bad = "does not terminate"
		} else if el > time.Second {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				bad = "does not terminate: memory grows without bound"
			}
		}
		if bad != "" {
			Report(c, "", in, bad)
			os.Exit(3)
		}
	}
}

// Strings enumerates all texts over the alphabet with at most n letters, shortest first.
func Strings(alphabet []string, n int, f func(string)) {
	level := []string{""}
	f("")
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range level {
			for _, a := range alphabet {
				s := p + a
				f(s)
				if i+1 < n {
					next = append(next, s)
				}
			}
		}
		level = next
	}
}

// Lists enumerates all lists over the elements with at most n entries, shortest first.
func Lists[T any](els []T, n int, f func([]T)) {
	var rec func(cur []T, left int)
	for k := 0; k <= n; k++ {
		rec = func(cur []T, left int) {
			if left == 0 {
				f(append([]T{}, cur...))
				return
			}
			for _, e := range els {
				rec(append(cur, e), left-1)
			}
		}
		rec(nil, k)
	}
}

func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Str makes a random text of up to n pieces.
func Str(r *rand.Rand, alphabet []string, n int) string {
	var b strings.Builder
	for k := r.Intn(n + 1); k > 0; k-- {
		b.WriteString(alphabet[r.Intn(len(alphabet))])
	}
	return b.String()
}

func Keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
