//go:build go1.21

package vstd

import (
	"strings"
	"io"
	"time"
)

// Assumed contracts of the standard library (listed as assumptions in the evidence).

//vc:extern strings.Index pure
func _(s, sep string) (r int) {
	Ensures(r >= -1)
	Ensures(Implies(r >= 0, MatchAt(s, sep, r)))
	Ensures(All(func(j int) bool {
		Trig(MatchAt(s, sep, j))
		return Implies(MatchAt(s, sep, j), r >= 0 && r <= j)
	}))
	return
}

//vc:extern strings.LastIndex pure
func _(s, sep string) (r int) {
	Ensures(r >= -1)
	Ensures(Implies(r >= 0, MatchAt(s, sep, r)))
	Ensures(All(func(j int) bool {
		Trig(MatchAt(s, sep, j))
		return Implies(MatchAt(s, sep, j), r >= 0 && r >= j)
	}))
	return
}

//vc:extern strings.HasPrefix pure
func _(s, p string) (r bool) {
	Ensures(r == MatchAt(s, p, 0))
	return
}

//vc:extern strings.HasSuffix pure
func _(s, p string) (r bool) {
	Ensures(r == MatchAt(s, p, len(s)-len(p)))
	return
}

//vc:extern strings.Contains pure
func _(s, p string) (r bool) {
	Ensures(All(func(j int) bool { Trig(MatchAt(s, p, j)); return Implies(MatchAt(s, p, j), r) }))
	Ensures(Implies(r, Exists(0, len(s)-len(p)+1, func(j int) bool { return MatchAt(s, p, j) })))
	return
}

//vc:extern strings.Fields pure
func _(s string) (r []string) {
	return
}

//vc:extern strings.Join pure
func _(xs []string, sep string) (r string) {
	Ensures(r == JoinTo(xs, sep, len(xs)))
	return
}

// Split: the pieces joined by the separator give the text back, and no piece contains the
// separator (sep is not empty).
//
//vc:extern strings.Split pure
func _(s, sep string) (r []string) {
	Requires(len(sep) > 0)
	Ensures(len(r) >= 1)
	Ensures(JoinTo(r, sep, len(r)) == s)
	Ensures(All(func(i, j int) bool {
		Trig(MatchAt(r[i], sep, j))
		return Implies(0 <= i && i < len(r), !MatchAt(r[i], sep, j))
	}))
	return
}

//vc:extern strings.TrimSpace pure
func _(s string) (r string) {
	lo := trimLo(s)
	hi := trimHi(s)
	Ensures(0 <= lo && lo <= hi && hi <= len(s))
	Ensures(r == s[lo:hi])
	Ensures(Forall(0, lo, func(i int) bool { return trimmable(s, i) }))
	Ensures(Forall(hi, len(s), func(i int) bool { return trimmable(s, i) }))
	Ensures(Implies(lo < hi, !IsSpaceB(s[lo]) && !IsSpaceB(s[hi-1])))
	return
}

//vc:spec uf
func trimLo(s string) int { return 0 }

//vc:spec uf
func trimHi(s string) int { return 0 }

// trimmable: byte i of s is part of a white space rune.
//
//vc:spec
func trimmable(s string, i int) bool { return IsSpaceB(s[i]) || s[i] >= 128 }

// ToLower of an ASCII text changes exactly the upper case letters.
//
//vc:extern strings.ToLower pure
func _(s string) (r string) {
	Ensures(Implies(IsASCII(s), len(r) == len(s) && Forall(0, len(s), func(i int) bool { Trig(r[i]); return r[i] == LowerB(s[i]) })))
	Ensures(r == LowerS(s))
	return
}

//vc:extern strings.ToUpper pure
func _(s string) (r string) {
	Ensures(Implies(IsASCII(s), len(r) == len(s)))
	return
}

//vc:spec uf
func LowerS(s string) string { return strings_ToLower(s) }

//vc:spec
func IsASCII(s string) bool {
	return Forall(0, len(s), func(i int) bool { Trig(s[i]); return s[i] < 128 })
}

//vc:spec
func LowerB(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

//vc:extern strings.Repeat pure
func _(s string, n int) (r string) {
	Requires(n >= 0)
	Ensures(Implies(len(s) == 1, len(r) == n && Forall(0, n, func(i int) bool { Trig(r[i]); return r[i] == s[0] })))
	Ensures(Implies(n == 0, r == ""))
	Ensures(Forall(0, len(r), func(i int) bool { Trig(r[i]); return r[i] == s[i%len(s)] }))
	return
}

// Trim of a text whose ends are not in the cut set changes nothing.
//
//vc:extern strings.Trim pure
func _(s, cut string) (r string) {
	Ensures(len(r) <= len(s))
	Ensures(Implies(len(s) > 0 && IsASCII(cut) && !InCut(s[0], cut) && !InCut(s[len(s)-1], cut), r == s))
	Ensures(Implies(len(s) == 0, r == s))
	return
}

//vc:spec
func InCut(c byte, cut string) bool {
	return Exists(0, len(cut), func(i int) bool { Trig(cut[i]); return cut[i] == c })
}

//vc:extern strings.TrimLeft pure
func _(s, cut string) (r string) {
	lo := trimLeftLo(s, cut)
	Ensures(0 <= lo && lo <= len(s))
	Ensures(r == s[lo:])
	Ensures(Implies(len(s) > 0 && IsASCII(cut) && !InCut(s[0], cut), r == s))
	return
}

//vc:spec uf
func trimLeftLo(s, cut string) int { return 0 }

//vc:extern strings.TrimRight pure
func _(s, cut string) (r string) {
	hi := trimRightHi(s, cut)
	Ensures(0 <= hi && hi <= len(s))
	Ensures(r == s[:hi])
	// one-byte cut sets below 128
	Ensures(Implies(len(cut) == 1 && cut[0] < 128, (hi == 0 || s[hi-1] != cut[0]) && Forall(hi, len(s), func(i int) bool { Trig(s[i]); return s[i] == cut[0] })))
	return
}

//vc:spec uf
func trimRightHi(s, cut string) int { return 0 }

//vc:extern strconv.Itoa pure
func _(i int) (r string) {
	Ensures(r == Itoa(i))
	return
}

//vc:extern strconv.ParseUint pure
func _(s string, base int, bits int) (r uint64, err error) {
	Ensures(All(func(i int) bool { Trig(Itoa(i)); return Implies(s == Itoa(i) && base == 10 && bits == 64 && 0 <= i, err == nil && r == uint64(i)) }))
	return
}

//vc:extern strconv.ParseFloat pure
func _(s string, bits int) (r float64, err error) {
	return
}

//vc:extern time.ParseInLocation pure
func _(layout, value string, loc *time.Location) (r time.Time, err error) {
	return
}

//vc:extern (time.Time).IsZero pure
func _(t time.Time) (r bool) {
	return
}

//vc:extern path/filepath.Join pure
func _(elem ...string) (r string) {
	return
}

//vc:extern time.ParseDuration pure
func _(s string) (r time.Duration, err error) {
	return
}

//vc:extern strconv.Atoi pure
func _(s string) (r int, err error) {
	Ensures(All(func(i int) bool { Trig(Itoa(i)); return Implies(s == Itoa(i), err == nil && r == i) }))
	return
}

//vc:extern io/ioutil.ReadAll
func _(r io.Reader) (data []byte, err error) {
	NoAlloc()
	return
}

// NoByte: the byte does not occur in the text.
//
//vc:spec
func NoByte(s string, c byte) bool {
	return Forall(0, len(s), func(i int) bool { Trig(s[i]); return s[i] != c })
}

// SplitUnique: there is only one way to take a text apart at a byte.
//
//vc:lemma
func SplitUnique(xs []string, n int, ys []string, m int, sep string) {
	Requires(len(sep) == 1 && 1 <= n && n <= len(xs) && 1 <= m && m <= len(ys))
	Requires(JoinTo(xs, sep, n) == JoinTo(ys, sep, m))
	Requires(Forall(0, n, func(i int) bool { Trig(xs[i]); return NoByte(xs[i], sep[0]) }))
	Requires(Forall(0, m, func(i int) bool { Trig(ys[i]); return NoByte(ys[i], sep[0]) }))
	Ensures(n == m && Forall(0, n, func(i int) bool { Trig(xs[i]); Trig(ys[i]); return xs[i] == ys[i] }))
	Decreases(n)
	if n == 1 && m > 1 {
		Assert(xs[0][len(JoinTo(ys, sep, m-1))] == sep[0])
	}
	if n > 1 && m == 1 {
		Assert(ys[0][len(JoinTo(xs, sep, n-1))] == sep[0])
	}
	if n > 1 && m > 1 {
		t := JoinTo(xs, sep, n)
		a := JoinTo(xs, sep, n-1)
		b := JoinTo(ys, sep, m-1)
		if len(a) < len(b) {
			Assert(t[len(b)] == sep[0])
			Assert(xs[n-1][len(b)-len(a)-1] == t[len(b)])
		}
		if len(b) < len(a) {
			Assert(t[len(a)] == sep[0])
			Assert(ys[m-1][len(a)-len(b)-1] == t[len(a)])
		}
		Assert(t[:len(a)] == a)
		Assert(t[:len(b)] == b)
		Assert(t[len(a)+1:] == xs[n-1])
		Assert(t[len(b)+1:] == ys[m-1])
		SplitUnique(xs, n-1, ys, m-1, sep)
	}
}

// SplitBack: a joined list is split into the same list.
//
//vc:lemma
func SplitBack(xs []string, sep string) {
	Requires(len(sep) == 1 && len(xs) >= 1)
	Requires(Forall(0, len(xs), func(i int) bool { Trig(xs[i]); return NoByte(xs[i], sep[0]) }))
	Ensures(Eq(strings.Split(JoinTo(xs, sep, len(xs)), sep), xs))
	ys := strings.Split(JoinTo(xs, sep, len(xs)), sep)
	Assert(Forall(0, len(ys), func(i int) bool {
		Trig(ys[i])
		return Forall(0, len(ys[i]), func(j int) bool { Trig(ys[i][j]); return !MatchAt(ys[i], sep, j) })
	}))
	SplitUnique(ys, len(ys), xs, len(xs), sep)
}

// JoinNoByte: a joined list has no byte which neither its elements nor the separator have.
//
//vc:lemma
func JoinNoByte(xs []string, sep string, n int, c byte) {
	Requires(0 <= n && n <= len(xs) && NoByte(sep, c))
	Requires(Forall(0, n, func(i int) bool { Trig(xs[i]); return NoByte(xs[i], c) }))
	Ensures(NoByte(JoinTo(xs, sep, n), c))
	Decreases(n)
	if n > 1 {
		JoinNoByte(xs, sep, n-1, c)
	}
}

//vc:extern (time.Time).Format pure
func _(t time.Time, layout string) (r string) {
	return
}

//vc:extern (time.Time).Add pure
func _(t time.Time, d time.Duration) (r time.Time) {
	return
}

//vc:extern (time.Time).Before pure
func _(t, u time.Time) (r bool) {
	return
}

//vc:extern os.Getpid pure
func _() (r int) {
	Ensures(r > 0 && !Gone(r))
	return
}

// Passed: the moment was over when the clock was read.
//
//vc:spec uf
func Passed(t time.Time) bool { return false }

//vc:extern time.Now
func _() (now time.Time) {
	NoAlloc()
	Ensures(All(func(t time.Time) bool { Trig(t.Before(now)); return Implies(t.Before(now), Passed(t)) }))
	return
}

//vc:extern strings.IndexAny pure
func _(s, chars string) (r int) {
	Requires(IsASCII(chars))
	Ensures(r >= -1 && r < len(s))
	Ensures(Implies(r >= 0, InCut(s[r], chars)))
	Ensures(Forall(0, len(s), func(i int) bool { Trig(s[i]); return Implies(InCut(s[i], chars), r >= 0 && r <= i) }))
	return
}

//vc:extern strings.IndexByte pure
func _(s string, c byte) (r int) {
	Ensures(r >= -1 && r < len(s))
	Ensures(Implies(r >= 0, s[r] == c))
	Ensures(Iff(r >= 0, InCut(c, s)))
	return
}

// ReplaceText: s with every old replaced, from the left.
//
//vc:spec
//vc:dec len(s)
func ReplaceText(s, old, new string) string {
	i := strings.Index(s, old)
	if i < 0 || len(old) == 0 || i+len(old) > len(s) {
		return s
	}
	return s[:i] + new + ReplaceText(s[i+len(old):], old, new)
}

//vc:extern strings.ReplaceAll pure
func _(s, old, new string) (r string) {
	Requires(len(old) > 0)
	Ensures(r == ReplaceText(s, old, new))
	return
}
