//go:build go1.21

package utils

import (
	"strconv"
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// DurText: a bare number is an amount of seconds.
//
//vc:spec
func DurText(s string) string {
	_, err := strconv.ParseFloat(s, 64)
	if err == nil {
		return s + "s"
	}
	return s
}

//vc:contract NormalizeDurStr
func _(durStr string) (r string) {
	NoAlloc()
	Ensures(r == DurText(durStr), "the default unit is seconds, a text with a unit stays")
	return
}

//vc:contract IsPidExists
func _(pid int) (exists bool, err error) {
	Ensures(Implies(err == nil && !exists, Gone(pid)), "a process is reported missing only if it was found to be gone")
	return
}

//vc:contract IsPidRunning
func _(pid int) (running bool) {
	Ensures(Implies(!running, Gone(pid)), "a process counts as not running only if it was found to be gone")
	return
}

// ---- how the text of a stored flow is cut into words (C26)
//
// ShMode: where the reader of package shellwords is after n bytes: 0 in plain text, 1 in double quotes,
// 2 in single quotes, 3 and 4 after a backslash in 0 and 1, 9 at an end of the word or a character with
// another meaning. ShText: what it has read as text. The texts are valid UTF-8, for which reading bytes is
// the same as reading runes: all the characters with a meaning are ASCII.

//vc:spec
func ShStep(c byte, m int) int {
	if m == 3 {
		return 0
	}
	if m == 4 {
		return 1
	}
	if m == 1 {
		if c == '"' {
			return 0
		}
		if c == '\\' {
			return 4
		}
		return 1
	}
	if m == 2 {
		if c == '\'' {
			return 0
		}
		return 2
	}
	if m == 0 {
		if c == '"' {
			return 1
		}
		if c == '\'' {
			return 2
		}
		if c == '\\' {
			return 3
		}
		if ShSpecial(c) {
			return 9
		}
		return 0
	}
	return 9
}

//vc:spec
func ShBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

//vc:spec
func ShSpecial(c byte) bool {
	return ShBlank(c) || c == '"' || c == '\'' || c == '`' || c == '\\' || c == ';' || c == '&' || c == '|' || c == '<' || c == '>' || c == '(' || c == ')'
}

//vc:spec
func shTakes(c byte, m int) bool {
	if m == 3 || m == 4 {
		return true
	}
	if m == 1 {
		return c != '"' && c != '\\'
	}
	if m == 2 {
		return c != '\''
	}
	return m == 0 && !ShSpecial(c)
}

//vc:spec
//vc:dec n
func ShMode(s string, n int, m int) int {
	if n <= 0 || n > len(s) {
		return m
	}
	return ShStep(s[n-1], ShMode(s, n-1, m))
}

//vc:spec
//vc:dec n
func ShText(s string, n int, m int) string {
	if n <= 0 || n > len(s) {
		return ""
	}
	if shTakes(s[n-1], ShMode(s, n-1, m)) {
		return ShText(s, n-1, m) + s[n-1:n]
	}
	return ShText(s, n-1, m)
}

// ShWord: q is read as the text str and nothing of what follows q is touched.
//
//vc:spec
func ShWord(q, str string) bool {
	return ShMode(q, len(q), 0) == 0 && ShText(q, len(q), 0) == str
}

// ShJoin: reading one text after the other.
//
//vc:lemma
func ShJoin(a, b string, n int, m int) {
	Requires(0 <= n && n <= len(a)+len(b))
	Ensures(Implies(n <= len(a), ShMode(a+b, n, m) == ShMode(a, n, m) && ShText(a+b, n, m) == ShText(a, n, m)))
	Ensures(Implies(n >= len(a), ShMode(a+b, n, m) == ShMode(b, n-len(a), ShMode(a, len(a), m)) && ShText(a+b, n, m) == ShText(a, len(a), m)+ShText(b, n-len(a), ShMode(a, len(a), m))))
	Decreases(n)
	if n > 0 {
		ShJoin(a, b, n-1, m)
		if n <= len(a) {
			Assert((a + b)[n-1] == a[n-1])
		} else {
			Assert((a + b)[n-1] == b[n-1-len(a)])
		}
	}
}

// ShWords: plain text before and after keeps being read as it is.
//
//vc:lemma
func ShWords(a, ta, b, tb string) {
	Requires(ShWord(a, ta) && ShWord(b, tb))
	Ensures(ShWord(a+b, ta+tb))
	ShJoin(a, b, len(a)+len(b), 0)
}

//vc:lemma
func ShPlain(s string, n int) {
	Requires(0 <= n && n <= len(s) && Forall(0, n, func(i int) bool { Trig(s[i]); return !ShSpecial(s[i]) }))
	Ensures(ShMode(s, n, 0) == 0 && ShText(s, n, 0) == s[:n])
	Decreases(n)
	if n > 0 {
		ShPlain(s, n-1)
		Assert(s[:n] == s[:n-1]+s[n-1:n])
	}
}

//vc:lemma
func shQuoted(s string, n int, m int) {
	Requires(0 <= n && n <= len(s) && (m == 1 || m == 2))
	Requires(Forall(0, n, func(i int) bool { Trig(s[i]); return Implies(m == 1, s[i] != '"' && s[i] != '\\') && Implies(m == 2, s[i] != '\'') }))
	Ensures(ShMode(s, n, m) == m && ShText(s, n, m) == s[:n])
	Decreases(n)
	if n > 0 {
		shQuoted(s, n-1, m)
		Assert(s[:n] == s[:n-1]+s[n-1:n])
	}
}

//vc:lemma
func shInQuotes(s string, q string, m int) {
	Requires(m == 1 && q == "\"" || m == 2 && q == "'")
	Requires(Forall(0, len(s), func(i int) bool { Trig(s[i]); return Implies(m == 1, s[i] != '"' && s[i] != '\\') && Implies(m == 2, s[i] != '\'') }))
	Ensures(ShWord(q+s+q, s))
	shQuoted(s, len(s), m)
	Assert(ShMode(q, 0, 0) == 0 && ShMode(q, 1, 0) == m && ShText(q, 0, 0) == "" && ShText(q, 1, 0) == "")
	Assert(ShMode(q, 0, m) == m && ShMode(q, 1, m) == 0 && ShText(q, 0, m) == "" && ShText(q, 1, m) == "")
	ShJoin(q, s, len(s)+1, 0)
	ShJoin(q+s, q, len(s)+2, 0)
}

//vc:lemma
func shQuotes(s string) {
	Ensures(Implies(strings.IndexAny(s, "\"\\") < 0, ShWord("\""+s+"\"", s)))
	Ensures(Implies(strings.Index(s, "'") < 0, ShWord("'"+s+"'", s)))
	Assert("\"\\"[0] == '"' && "\"\\"[1] == '\\')
	Assert(InCut('"', "\"\\") && InCut('\\', "\"\\"))
	if strings.IndexAny(s, "\"\\") < 0 {
		shInQuotes(s, "\"", 1)
	}
	if strings.Index(s, "'") < 0 {
		Assert(Forall(0, len(s), func(i int) bool { Trig(s[i]); return !MatchAt(s, "'", i) }))
		shInQuotes(s, "'", 2)
	}
}

// shEmpty: a pair of quotes adds nothing.
//
//vc:lemma
func shEmpty(a, ta string) {
	Ensures(Implies(ShWord(a, ta), ShWord(a+"\"\"", ta)))
	if ShWord(a, ta) {
		Assert(ShMode("\"\"", 0, 0) == 0 && ShText("\"\"", 0, 0) == "")
		Assert(ShMode("\"\"", 1, 0) == 1 && ShText("\"\"", 1, 0) == "")
		Assert(ShMode("\"\"", 2, 0) == 0 && ShText("\"\"", 2, 0) == "")
		ShWords(a, ta, "\"\"", "")
	}
}

// shMore: one more character.
//
//vc:lemma
func shMore(q, t string, c byte, one string) {
	Ensures(Implies(ShWord(q, t) && len(one) == 1 && one[0] == c, Implies(ShSpecial(c), ShWord(q+"\\"+one, t+one)) && Implies(!ShSpecial(c), ShWord(q+one, t+one))))
	if ShWord(q, t) && len(one) == 1 && one[0] == c {
		shOne(one)
		if ShSpecial(c) {
			ShWords(q, t, "\\"+one, one)
			Assert(q+("\\"+one) == q+"\\"+one)
		} else {
			ShWords(q, t, one, one)
		}
	}
}

//vc:lemma
func shOne(c string) {
	Requires(len(c) == 1)
	Ensures(Implies(ShSpecial(c[0]), ShWord("\\"+c, c)) && Implies(!ShSpecial(c[0]), ShWord(c, c)))
	if ShSpecial(c[0]) {
		Assert(ShMode("\\"+c, 0, 0) == 0)
		Assert(ShMode("\\"+c, 1, 0) == 3 && ShText("\\"+c, 1, 0) == "")
		Assert(ShMode("\\"+c, 2, 0) == 0 && ShText("\\"+c, 2, 0) == c)
	} else {
		Assert(ShMode(c, 0, 0) == 0 && ShMode(c, 1, 0) == 0 && ShText(c, 1, 0) == c[0:1])
	}
}

//vc:spec
func shMarks() string { return " \t\r\n\"'`\\;&|<>()" }

//vc:lemma
func shMarked(c byte) {
	Ensures(InCut(c, shMarks()) == ShSpecial(c))
	m := " \t\r\n\"'`\\;&|<>()"
	Assert(len(m) == 15)
	Assert(m[0] == ' ' && m[1] == '\t' && m[2] == '\r' && m[3] == '\n' && m[4] == '"')
	Assert(m[5] == '\'' && m[6] == '`' && m[7] == '\\' && m[8] == ';' && m[9] == '&')
	Assert(m[10] == '|' && m[11] == '<' && m[12] == '>' && m[13] == '(' && m[14] == ')')
}

//vc:contract QuoteStrIfHasSpace
func _(str string) (r string) {
	NoAlloc()
	Ensures(ShWord(r, str), "a word is read back from a stored flow as the same word")
	Ensures(Implies(Forall(0, len(str), func(i int) bool { Trig(str[i]); return !ShSpecial(str[i]) }), r == str), "a word without blanks, quotes or other marks is written as it is")
	//vc:use entry: shQuotes(str)
	//vc:inv 0: 0 <= i && i <= len(str)
	//vc:inv 0: ShWord(quoted, str[:i])
	//vc:inv 0: Implies(Forall(0, len(str), func(j int) bool { Trig(str[j]); return !ShSpecial(str[j]) }), quoted == str[:i])
	//vc:use 0: shMarked(str[i])
	//vc:use 0: shMore(quoted, str[:i], str[i], str[i:i+1])
	//vc:use 0: shEmpty(quoted, str[:i])
	//vc:dec 0: len(str) - i
	return
}
