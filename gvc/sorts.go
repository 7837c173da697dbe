package main

// Sorts: mapping of Go types to SMT sorts, and the axioms of the generic theories.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

type Def struct {
	Phase    int      // 0 sorts, 1 datatypes, 2 functions, 3 axioms
	Provides []string // symbols; the definition is wanted when one of them is used
	WantAll  []string // (axioms) wanted when all of these symbols are used
	Text     string
	Always   bool
	deps     []string
}

type StructInfo struct {
	Sort   string
	Fields []*types.Var
	FSorts []string
	Ty     types.Type
}

type Registry struct {
	w          *World
	defs       []*Def
	bySym      map[string][]*Def
	sorts      map[string]string // type string -> sort
	structs    map[string]*StructInfo
	seqElem    map[string]string // seq sort -> elem sort
	lits       map[string]string
	tagIDs     map[string]int
	boxes      map[string]bool
	cards      map[string]bool
	anon       int
	seqSfx     map[string]string
	builtSpec  bool
	arrays     map[string]string
	compSorts  map[string]string
	externDone map[*Contract]bool
	lemmaDefs  map[*Contract]*Def
}

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_':
			b.WriteRune(c)
		default:
			fmt.Fprintf(&b, "_%x_", c)
		}
	}
	return b.String()
}

func NewRegistry(w *World) *Registry {
	r := &Registry{w: w, bySym: map[string][]*Def{}, sorts: map[string]string{}, structs: map[string]*StructInfo{},
		seqElem: map[string]string{}, lits: map[string]string{}, tagIDs: map[string]int{}, boxes: map[string]bool{},
		cards: map[string]bool{}, seqSfx: map[string]string{}, arrays: map[string]string{},
		compSorts: map[string]string{}, externDone: map[*Contract]bool{}, lemmaDefs: map[*Contract]*Def{}}
	r.add(&Def{Phase: 0, Provides: []string{"Iface"}, Text: "(declare-sort Iface 0)"})
	r.add(&Def{Phase: 0, Provides: []string{"Func"}, Text: "(declare-sort Func 0)"})
	r.add(&Def{Phase: 2, Provides: []string{"nil_iface", "tag_of"}, Text: "(declare-const nil_iface Iface)\n(declare-fun tag_of (Iface) Int)\n(assert (= (tag_of nil_iface) 0))\n(assert (forall ((x Iface)) (! (=> (= (tag_of x) 0) (= x nil_iface)) :pattern ((tag_of x)))))"})
	r.add(&Def{Phase: 2, Provides: []string{"rtag"}, Text: "(declare-fun rtag (Int) Int)"})
	r.add(&Def{Phase: 2, Provides: []string{"nil_func"}, Text: "(declare-const nil_func Func)"})
	r.add(&Def{Phase: 2, Provides: []string{"godiv", "gomod"}, Text: `(define-fun godiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))
(define-fun gomod ((a Int) (b Int)) Int (- a (* b (godiv a b))))`})
	{
		// bits: x & c for a power of two c, x | y through its bits
		var t strings.Builder
		t.WriteString("(declare-fun bor (Int Int) Int)\n(declare-fun band (Int Int) Int)\n")
		t.WriteString("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= a (bor a b)) (<= b (bor a b)) (<= (bor a b) (+ a b)))) :pattern ((bor a b)))))\n")
		for k := 1; k <= 128; k *= 2 {
			fmt.Fprintf(&t, "(assert (forall ((a Int)) (! (= (band a %d) (* %d (mod (div a %d) 2))) :pattern ((band a %d)))))\n", k, k, k, k)
			fmt.Fprintf(&t, "(assert (forall ((a Int) (b Int)) (! (= (band (bor a b) %d) (ite (= (band a %d) 0) (band b %d) %d)) :pattern ((band (bor a b) %d)))))\n", k, k, k, k, k)
		}
		r.add(&Def{Phase: 2, Provides: []string{"bor", "band"}, Text: strings.TrimRight(t.String(), "\n")})
	}
	r.seq("Str", "S", "Int")
	r.add(&Def{Phase: 2, Provides: []string{"str_lt"}, Text: `(declare-fun str_lt (Str Str) Bool)
(assert (forall ((a Str)) (! (not (str_lt a a)) :pattern ((str_lt a a)))))
(assert (forall ((a Str) (b Str)) (! (=> (str_lt a b) (not (str_lt b a))) :pattern ((str_lt a b)))))
(assert (forall ((a Str) (b Str)) (! (or (str_lt a b) (str_lt b a) (eq_S a b)) :pattern ((str_lt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (str_lt a b) (str_lt b c)) (str_lt a c)) :pattern ((str_lt a b) (str_lt b c)))))`})
	r.add(&Def{Phase: 3, Provides: nil, WantAll: []string{"at_S"}, Text: "(assert (forall ((s Str) (i Int)) (! (and (<= 0 (at_S s i)) (<= (at_S s i) 255)) :pattern ((at_S s i)))))"})
	r.add(&Def{Phase: 2, Provides: []string{"MatchAt"}, Text: `(declare-fun MatchAt (Str Str Int) Bool)
(assert (forall ((s Str) (p Str) (j Int)) (! (= (MatchAt s p j) (and (<= 0 j) (<= (+ j (len_S p)) (len_S s)) (eq_S (sub_S s j (+ j (len_S p))) p))) :pattern ((MatchAt s p j)))))`})
	return r
}

func (r *Registry) add(d *Def) {
	r.defs = append(r.defs, d)
	for _, p := range d.Provides {
		r.bySym[p] = append(r.bySym[p], d)
	}
	d.deps = tokens(d.Text)
}

func tokStart(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func tokByte(c byte) bool {
	return tokStart(c) || c >= '0' && c <= '9' || c == '!' || c == '.' || c == '@'
}

// tokens returns the symbols in a text (kept for texts that come often).
func tokens(s string) []string {
	tokMu.Lock()
	r, ok := tokCache[s]
	tokMu.Unlock()
	if ok {
		return r
	}
	m := map[string]bool{}
	var res []string
	for i := 0; i < len(s); {
		if !tokStart(s[i]) {
			i++
			continue
		}
		j := i + 1
		for j < len(s) && tokByte(s[j]) {
			j++
		}
		if t := s[i:j]; !m[t] {
			m[t] = true
			res = append(res, t)
		}
		i = j
	}
	tokMu.Lock()
	if len(tokCache) > 200000 {
		tokCache = map[string][]string{}
	}
	tokCache[s] = res
	tokMu.Unlock()
	return res
}

var tokMu sync.Mutex
var tokCache = map[string][]string{}

// Prelude returns the definitions needed for the given text.
func (r *Registry) Prelude(texts []string, skip map[*Def]bool) string {
	want := map[*Def]bool{}
	have := map[string]bool{}
	var work []string
	push := func(ts []string) {
		for _, t := range ts {
			if !have[t] {
				have[t] = true
				work = append(work, t)
			}
		}
	}
	for _, t := range texts {
		push(tokens(t))
	}
	for {
		for len(work) > 0 {
			t := work[len(work)-1]
			work = work[:len(work)-1]
			for _, d := range r.bySym[t] {
				if !want[d] {
					want[d] = true
					push(d.deps)
				}
			}
		}
		for _, d := range r.defs {
			if want[d] || skip[d] || len(d.WantAll) == 0 && !d.Always {
				continue
			}
			ok := true
			for _, s := range d.WantAll {
				if !have[s] {
					ok = false
					break
				}
			}
			if ok {
				want[d] = true
				push(d.deps)
			}
		}
		if len(work) == 0 {
			break
		}
	}
	var b strings.Builder
	for ph := 0; ph <= 3; ph++ {
		for _, d := range r.defs {
			if d.Phase == ph && want[d] {
				b.WriteString(d.Text)
				b.WriteByte('\n')
			}
		}
	}
	return b.String()
}

func (r *Registry) seq(sort, x, elem string) {
	r.seqElem[sort] = elem
	r.seqSfx[sort] = x
	r.add(&Def{Phase: 0, Provides: []string{sort}, Text: fmt.Sprintf("(declare-sort %s 0)", sort)})
	rep := func(s string) string {
		return strings.NewReplacer("$S", sort, "$E", elem, "$x", x).Replace(s)
	}
	r.add(&Def{Phase: 2, Provides: []string{"len_" + x, "at_" + x}, Text: rep(`(declare-fun len_$x ($S) Int)
(declare-fun at_$x ($S Int) $E)
(assert (forall ((s $S)) (! (>= (len_$x s) 0) :pattern ((len_$x s)))))`)})
	r.add(&Def{Phase: 2, Provides: []string{"emp_" + x}, Text: rep(`(declare-const emp_$x $S)
(assert (= (len_$x emp_$x) 0))
(assert (forall ((s $S)) (! (=> (= (len_$x s) 0) (= s emp_$x)) :pattern ((len_$x s)))))`)})
	r.add(&Def{Phase: 2, Provides: []string{"unit_" + x}, Text: rep(`(declare-fun unit_$x ($E) $S)
(assert (forall ((e $E)) (! (and (= (len_$x (unit_$x e)) 1) (= (at_$x (unit_$x e) 0) e)) :pattern ((unit_$x e)))))`)})
	r.add(&Def{Phase: 2, Provides: []string{"cat_" + x}, Text: rep(`(declare-fun cat_$x ($S $S) $S)
(assert (forall ((a $S) (b $S)) (! (= (len_$x (cat_$x a b)) (+ (len_$x a) (len_$x b))) :pattern ((cat_$x a b)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (= (at_$x (cat_$x a b) i) (ite (< i (len_$x a)) (at_$x a i) (at_$x b (- i (len_$x a))))) :pattern ((at_$x (cat_$x a b) i)))))
(assert (forall ((a $S) (b $S) (c $S)) (! (= (cat_$x (cat_$x a b) c) (cat_$x a (cat_$x b c))) :pattern ((cat_$x (cat_$x a b) c)))))
(assert (forall ((a $S)) (! (= (cat_$x a emp_$x) a) :pattern ((cat_$x a emp_$x)))))
(assert (forall ((a $S)) (! (= (cat_$x emp_$x a) a) :pattern ((cat_$x emp_$x a)))))`)})
	r.add(&Def{Phase: 2, Provides: []string{"sub_" + x}, Text: rep(`(declare-fun sub_$x ($S Int Int) $S)
(assert (forall ((s $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$x s))) (= (len_$x (sub_$x s i j)) (- j i))) :pattern ((sub_$x s i j)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$x s)) (<= 0 k) (< k (- j i))) (= (at_$x (sub_$x s i j) k) (at_$x s (+ i k)))) :pattern ((at_$x (sub_$x s i j) k)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i k) (< k j) (<= j (len_$x s))) (= (at_$x (sub_$x s i j) (- k i)) (at_$x s k))) :pattern ((at_$x s k) (sub_$x s i j)))))
(assert (forall ((s $S) (i Int)) (! (= (sub_$x s i i) emp_$x) :pattern ((sub_$x s i i)))))
(assert (forall ((s $S) (j Int)) (! (=> (= j (len_$x s)) (= (sub_$x s 0 j) s)) :pattern ((sub_$x s 0 j)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$x s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (sub_$x (sub_$x s i j) k l) (sub_$x s (+ i k) (+ i l)))) :pattern ((sub_$x (sub_$x s i j) k l)))))
(assert (forall ((s $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (< j (len_$x s))) (= (sub_$x s i (+ j 1)) (cat_$x (sub_$x s i j) (unit_$x (at_$x s j))))) :pattern ((sub_$x s i j) (at_$x s j)))))`)})
	r.add(&Def{Phase: 3, WantAll: []string{"sub_" + x, "cat_" + x}, Text: rep(`(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_$x s))) (= (cat_$x (sub_$x s i j) (sub_$x s j k)) (sub_$x s i k))) :pattern ((cat_$x (sub_$x s i j) (sub_$x s j k))))))
(assert (forall ((s $S) (i Int) (j Int) (k Int) (c $S)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_$x s))) (= (cat_$x (sub_$x s i j) (cat_$x (sub_$x s j k) c)) (cat_$x (sub_$x s i k) c))) :pattern ((cat_$x (sub_$x s i j) (cat_$x (sub_$x s j k) c))))))
(assert (forall ((a $S) (b $S) (j Int)) (! (=> (= j (len_$x a)) (= (sub_$x (cat_$x a b) 0 j) a)) :pattern ((sub_$x (cat_$x a b) 0 j)))))
(assert (forall ((a $S) (b $S) (i Int) (j Int)) (! (=> (and (<= (len_$x a) i) (<= i j) (<= j (+ (len_$x a) (len_$x b)))) (= (sub_$x (cat_$x a b) i j) (sub_$x b (- i (len_$x a)) (- j (len_$x a))))) :pattern ((sub_$x (cat_$x a b) i j)))))
(assert (forall ((a $S) (b $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$x a))) (= (sub_$x (cat_$x a b) i j) (sub_$x a i j))) :pattern ((sub_$x (cat_$x a b) i j)))))`)})
	r.add(&Def{Phase: 2, Provides: []string{"upd_" + x}, Text: rep(`(declare-fun upd_$x ($S Int $E) $S)
(assert (forall ((s $S) (i Int) (e $E)) (! (= (len_$x (upd_$x s i e)) (len_$x s)) :pattern ((upd_$x s i e)))))
(assert (forall ((s $S) (i Int) (e $E)) (! (=> (and (<= 0 i) (< i (len_$x s))) (= (at_$x (upd_$x s i e) i) e)) :pattern ((upd_$x s i e)))))
(assert (forall ((s $S) (i Int) (e $E) (k Int)) (! (= (at_$x (upd_$x s i e) k) (ite (and (= k i) (<= 0 i) (< i (len_$x s))) e (at_$x s k))) :pattern ((at_$x (upd_$x s i e) k)))))`)})
	r.add(&Def{Phase: 2, Provides: []string{"eq_" + x}, Text: rep(`(declare-fun eq_$x ($S $S) Bool)
(assert (forall ((a $S) (b $S)) (! (=> (eq_$x a b) (= a b)) :pattern ((eq_$x a b)))))
(assert (forall ((a $S) (b $S)) (! (or (eq_$x a b) (not (= (len_$x a) (len_$x b))) (exists ((i Int)) (and (<= 0 i) (< i (len_$x a)) (not ` + r.eqT(elem, "(at_$x a i)", "(at_$x b i)") + `)))) :pattern ((eq_$x a b)))))`)})
}

// eqT: equality of two terms of a sort, extensional where needed.
func (r *Registry) eqT(sort, a, b string) string {
	if x, ok := r.seqSfx[sort]; ok {
		return fmt.Sprintf("(eq_%s %s %s)", x, a, b)
	}
	if si := r.structBySort(sort); si != nil {
		ext := false
		for _, fs := range si.FSorts {
			if r.isExt(fs) {
				ext = true
			}
		}
		if !ext {
			return fmt.Sprintf("(= %s %s)", a, b)
		}
		var parts []string
		for i, fs := range si.FSorts {
			s := r.sel(si, i)
			parts = append(parts, r.eqT(fs, "("+s+" "+a+")", "("+s+" "+b+")"))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(and " + strings.Join(parts, " ") + ")"
	}
	return fmt.Sprintf("(= %s %s)", a, b)
}

func (r *Registry) isExt(sort string) bool {
	if _, ok := r.seqSfx[sort]; ok {
		return true
	}
	if si := r.structBySort(sort); si != nil {
		for _, fs := range si.FSorts {
			if r.isExt(fs) {
				return true
			}
		}
	}
	return false
}

func (r *Registry) structBySort(s string) *StructInfo {
	return r.structs[s]
}

func (r *Registry) sel(si *StructInfo, i int) string {
	return fmt.Sprintf("%s_%s", strings.Replace(si.Sort, "St_", "f_", 1), mangle(fieldName(si.Fields[i], i)))
}

func fieldName(f *types.Var, i int) string {
	if f.Name() == "_" {
		return fmt.Sprintf("blank%d", i)
	}
	return f.Name()
}

func (r *Registry) seqOf(elem string) string {
	if elem == "Int" {
		if _, ok := r.seqElem["Seq_Int"]; !ok {
			r.seq("Seq_Int", "Int", "Int")
		}
		return "Seq_Int"
	}
	x := mangle(elem)
	s := "Seq_" + x
	if _, ok := r.seqElem[s]; !ok {
		r.seqElem[s] = elem
		r.seq(s, x, elem)
	}
	return s
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (r *Registry) sortOf(t types.Type) string {
	if t == nil {
		return "Int"
	}
	key := typeName(t)
	if s, ok := r.sorts[key]; ok {
		return s
	}
	s := r.sortOf1(t)
	r.sorts[key] = s
	return s
}

func (r *Registry) sortOf1(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsString != 0:
			return "Str"
		case i&types.IsFloat != 0:
			return "Real"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan:
		return "Int"
	case *types.Slice:
		return r.seqSort(u.Elem())
	case *types.Array:
		return r.seqSort(u.Elem())
	case *types.Interface:
		return "Iface"
	case *types.Signature:
		return "Func"
	case *types.Struct:
		name := typeName(t)
		if _, ok := t.(*types.Named); !ok {
			r.anon++
			name = fmt.Sprintf("anon%d", r.anon)
		}
		so := "St_" + mangle(name)
		r.sorts[typeName(t)] = so
		si := &StructInfo{Sort: so, Ty: t}
		r.structs[so] = si
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			si.Fields = append(si.Fields, f)
			si.FSorts = append(si.FSorts, r.sortOf(f.Type()))
		}
		var b strings.Builder
		var prov = []string{so, "mk_" + so}
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", so, so)
		for i := range si.Fields {
			fmt.Fprintf(&b, " (%s %s)", r.sel(si, i), si.FSorts[i])
			prov = append(prov, r.sel(si, i))
		}
		b.WriteString("))))")
		r.add(&Def{Phase: 1, Provides: prov, Text: b.String()})
		return so
	}
	return "Int"
}

func (r *Registry) seqSort(elem types.Type) string {
	es := r.sortOf(elem)
	return r.seqOf(es)
}

func (r *Registry) structOf(t types.Type) *StructInfo {
	return r.structs[r.sortOf(t)]
}

func (r *Registry) lit(s string) string {
	if s == "" {
		return "emp_S"
	}
	if c, ok := r.lits[s]; ok {
		return c
	}
	c := fmt.Sprintf("lit_%d", len(r.lits))
	r.lits[s] = c
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-const %s Str) ; %q\n(assert (= (len_S %s) %d))\n", c, strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' {
			return ' '
		}
		return r
	}, s), c, len(s))
	for i := 0; i < len(s) && i < 80; i++ {
		fmt.Fprintf(&b, "(assert (= (at_S %s %d) %d))\n", c, i, s[i])
	}
	d := &Def{Phase: 2, Provides: []string{c}, Text: b.String()}
	r.add(d)
	d.deps = []string{"len_S", "at_S", "Str", "emp_S"}
	return c
}

func (r *Registry) zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "false"
		case i&types.IsString != 0:
			return "emp_S"
		case i&types.IsFloat != 0:
			return "0.0"
		}
		return "0"
	case *types.Slice:
		s := r.sortOf(t)
		return "emp_" + r.seqSfx[s]
	case *types.Array:
		return "" // unsupported; caller havocs
	case *types.Interface:
		return "nil_iface"
	case *types.Signature:
		return "nil_func"
	case *types.Struct:
		si := r.structOf(t)
		if len(si.Fields) == 0 {
			return "mk_" + si.Sort
		}
		parts := []string{"(mk_" + si.Sort}
		for i := range si.Fields {
			z := r.zero(si.Fields[i].Type())
			if z == "" {
				return ""
			}
			parts = append(parts, z)
		}
		return strings.Join(parts, " ") + ")"
	}
	return "0"
}

// interface boxing
func (r *Registry) box(t types.Type) (box, unbox string, tag int) {
	key := typeName(t)
	m := mangle(key)
	id, ok := r.tagIDs[key]
	if !ok {
		id = len(r.tagIDs) + 1
		r.tagIDs[key] = id
		s := r.sortOf(t)
		r.add(&Def{Phase: 2, Provides: []string{"box_" + m, "unbox_" + m}, Text: fmt.Sprintf(`(declare-fun box_%s (%s) Iface)
(declare-fun unbox_%s (Iface) %s)
(assert (forall ((x %s)) (! (and (= (unbox_%s (box_%s x)) x) (= (tag_of (box_%s x)) %d)) :pattern ((box_%s x)))))
(assert (forall ((i Iface)) (! (=> (= (tag_of i) %d) (= (box_%s (unbox_%s i)) i)) :pattern ((unbox_%s i)))))`, m, s, m, s, s, m, m, m, id, m, id, m, m, m)})
	}
	return "box_" + m, "unbox_" + m, id
}

// card returns the cardinality symbol for sets over a key sort.
func (r *Registry) card(ks string) string {
	c := "card_" + mangle(ks)
	if !r.cards[ks] {
		r.cards[ks] = true
		a := fmt.Sprintf("(Array %s Bool)", ks)
		r.add(&Def{Phase: 2, Provides: []string{c}, Text: strings.NewReplacer("$c", c, "$a", a, "$k", ks).Replace(`(declare-fun $c ($a) Int)
(assert (forall ((d $a)) (! (>= ($c d) 0) :pattern (($c d)))))
(assert (= ($c ((as const $a) false)) 0))
(assert (forall ((d $a) (k $k)) (! (=> (= ($c d) 0) (not (select d k))) :pattern (($c d) (select d k)))))
(assert (forall ((d $a) (k $k)) (! (= ($c (store d k true)) (ite (select d k) ($c d) (+ ($c d) 1))) :pattern (($c (store d k true))))))
(assert (forall ((d $a) (k $k)) (! (= ($c (store d k false)) (ite (select d k) (- ($c d) 1) ($c d))) :pattern (($c (store d k false))))))`)})
	}
	return c
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
