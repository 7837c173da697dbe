//go:build go1.21

// Package vstd holds the primitives of the contract language. The verifier gives them their
// logical meaning; the bodies here are what they mean when the harness executes a specification.
package vstd

import (
	"io"
	"reflect"
	"strconv"
	"strings"
)

// ---- clauses

func Requires(cond bool, name ...string) {}
func Ensures(cond bool, name ...string)  {}
func Modifies(xs ...any)                 {}
func ModifiesAll()                       {}
func ModifiesField(xs ...any)            {}
func ModifiesMaps(xs ...any)             {}
func NoAlloc(r ...any)                   {}

// Always: holds after every step of the body, so also wherever the program is stopped.
func Always(cond bool, name ...string) {}
func Clobbers(xs ...any)               {}
func Panics(cond bool, name ...string) {}
func MustPanic(cond bool, name ...string) {
}

// ReadOnly: in this case the function changes and allocates nothing.
func ReadOnly(cond bool, name ...string) {
}

// OnPanic: holds in every state in which the function panics.
func OnPanic(cond bool, name ...string) {
}
func MayPanic()             {}
func Decreases(xs ...int)   {}
func Trig(xs ...any)        {}
func Assert(cond bool)      {}
func When(c bool, f func()) {}

// ---- expressions

func Old[T any](x T) T    { return x }
func AtLoop[T any](x T) T { return x }
func Implies(a, b bool) bool {
	return !a || b
}
func Iff(a, b bool) bool { return a == b }
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}
func Eq[T any](a, b T) bool { return eqv(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()) }

func eqv(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqv(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eqv(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		return a.Interface() == b.Interface()
	}
	return a.Equal(b)
}

func Has[M ~map[K]V, K comparable, V any](m M, k K) bool { _, ok := m[k]; return ok }
func Fresh(x any) bool                                   { return true }
func Iter(k ...int) int                                  { panic("Iter is proof-only") }
func Seen(k any) bool                                    { panic("Seen is proof-only") }

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func ForallStr(f any) bool { panic("unbounded quantifier is proof-only") }
func ForallInt(f any) bool { panic("unbounded quantifier is proof-only") }
func ExistsStr(f any) bool { panic("unbounded quantifier is proof-only") }
func ExistsInt(f any) bool { panic("unbounded quantifier is proof-only") }
func All(f any) bool       { panic("unbounded quantifier is proof-only") }
func Some(f any) bool      { panic("unbounded quantifier is proof-only") }

// MatchAt: p occurs in s at position j.
func MatchAt(s, p string, j int) bool {
	return 0 <= j && j+len(p) <= len(s) && s[j:j+len(p)] == p
}
func Itoa(i int) string { return strconv.Itoa(i) }

func MapEq[M ~map[K]V, K comparable, V any](a, b M) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !Eq(v, w) {
			return false
		}
	}
	return true
}
func MapSame[M ~map[K]V, K comparable, V any](m M) bool { return true }
func TypeIs[T any](x any, t T) bool                     { _, ok := x.(T); return ok }
func Unbox[T any](x any, t T) T                         { return x.(T) }

// ---- specification functions of the standard library

//vc:spec
func IsPrefix(s, p string) bool { return MatchAt(s, p, 0) }

//vc:spec
func IsSuffix(s, p string) bool { return MatchAt(s, p, len(s)-len(p)) }

// IsSpaceB: the byte is ASCII white space (strings.TrimSpace also trims U+0085 and U+00A0).
//
//vc:spec
func IsSpaceB(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'
}

// JoinS joins the elements [from, to) with sep.
//
//vc:spec
//vc:dec to
func JoinTo(xs []string, sep string, to int) string {
	if to <= 0 {
		return ""
	}
	if to == 1 {
		return xs[0]
	}
	return JoinTo(xs, sep, to-1) + (sep + xs[to-1])
}

// JoinCat: the first elements joined do not depend on what follows them.
//
//vc:lemma auto
func JoinCat(a, b []string, sep string, to int) {
	Requires(to <= len(a))
	Ensures(JoinTo(append(a, b...), sep, to) == JoinTo(a, sep, to))
	Trig(JoinTo(append(a, b...), sep, to))
	Decreases(to)
	if to > 1 {
		JoinCat(a, b, sep, to-1)
	}
}

// Contains: p occurs in s at or after position from.
//
//vc:spec
func HasSub(s, p string) bool {
	return Exists(0, len(s)-len(p)+1, func(i int) bool { Trig(MatchAt(s, p, i)); return MatchAt(s, p, i) })
}

// PartOff: a is the piece of b from o on.
//
//vc:spec opaque
func PartOff(a, b []string, o int) bool {
	return 0 <= o && o+len(a) <= len(b) && Eq(a, b[o:o+len(a)])
}

// Part: a is a piece of b.
//
//vc:spec opaque
func Part(a, b []string) bool {
	return len(a) <= len(b) && (len(a) == 0 || Exists(0, len(b)-len(a)+1, func(o int) bool { Trig(PartOff(a, b, o)); return PartOff(a, b, o) }))
}

//vc:lemma auto
func PartOffTrans(a, b, c []string, o, p int) {
	Requires(PartOff(a, b, o) && PartOff(b, c, p))
	Ensures(PartOff(a, c, o+p))
	Trig(PartOff(a, b, o), PartOff(b, c, p))
}

// PartTrans: a piece of a piece is a piece.
//
//vc:lemma auto
func PartTrans(a, b, c []string) {
	Requires(Part(a, b) && Part(b, c))
	Ensures(Part(a, c) && len(a) <= len(b) && len(b) <= len(c))
	Trig(Part(a, b), Part(b, c))
}

// PartSub: every slice is a piece.
//
//vc:lemma auto
func PartSub(b []string, i, j int) {
	Requires(0 <= i && i <= j && j <= len(b))
	Ensures(Part(b[i:j], b))
	Trig(Part(b[i:j], b))
	Assert(PartOff(b[i:j], b, i))
}

// PartSelf: all of it is a piece.
//
//vc:lemma auto
func PartSelf(b []string) {
	Ensures(Part(b, b))
	Trig(Part(b, b))
	Assert(PartOff(b, b, 0))
}

// HasElem: x is one of the elements.
//
//vc:spec
func HasElem(xs []string, x string) bool {
	return Exists(0, len(xs), func(i int) bool { Trig(xs[i]); return xs[i] == x })
}

// HasTo: x is one of the first n elements.
//
//vc:spec
//vc:dec n
func HasTo(xs []string, n int, x string) bool {
	if n <= 0 {
		return false
	}
	return HasTo(xs, n-1, x) || xs[n-1] == x
}

//vc:lemma
func hasToIs(xs []string, n int, x string) {
	Requires(0 <= n && n <= len(xs))
	Ensures(HasTo(xs, n, x) == Exists(0, n, func(i int) bool { Trig(xs[i]); return xs[i] == x }))
	Decreases(n)
	if n > 0 {
		hasToIs(xs, n-1, x)
	}
}

//vc:lemma auto
func HasToIs(xs []string, n int, x string) {
	Trig(HasTo(xs, n, x))
	Ensures(Implies(0 <= n && n <= len(xs), HasTo(xs, n, x) == Exists(0, n, func(i int) bool { Trig(xs[i]); return xs[i] == x })))
	if 0 <= n && n <= len(xs) {
		hasToIs(xs, n, x)
	}
}

//vc:lemma auto
func HasToCat(a, b []string, n int, x string) {
	Requires(n <= len(a))
	Ensures(HasTo(append(a, b...), n, x) == HasTo(a, n, x))
	Trig(HasTo(append(a, b...), n, x))
	Decreases(n)
	if n > 0 {
		HasToCat(a, b, n-1, x)
	}
}

//vc:lemma auto
func HasToPush(a, b []string, n int, x string) {
	Trig(HasTo(append(a, b...), n, x))
	Ensures(Implies(len(b) == 1 && n == len(a)+1, HasTo(append(a, b...), n, x) == (HasTo(a, len(a), x) || b[0] == x)))
	if len(b) == 1 && n == len(a)+1 {
		HasToCat(a, b, len(a), x)
	}
}

// Distinct: no text is there twice among the first n.
//
//vc:spec
func Distinct(ks []string, n int) bool {
	return Forall(0, n, func(i int) bool {
		Trig(ks[i])
		return Forall(0, i, func(j int) bool { Trig(ks[j]); return ks[i] != ks[j] })
	})
}

var _ = strings.Index
var _ io.Writer

// Addr numbers the objects in order of allocation; nil is 0. Live: allocated, not nil.
func Addr(p any) int  { panic("Addr is proof-only") }
func Live(p any) bool { panic("Live is proof-only") }
