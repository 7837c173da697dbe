//go:build go1.21

package parser

import (
	"strings"

	"github.com/innerr/ticat/pkg/utils"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- splitting a command line (C01)

// sepKept: the separator at j of the word stays inside its word.
//
//vc:spec
func sepPrefixed(p SequenceParser, arg string, j int) bool {
	return Exists(0, len(p.unbreakPrefixs), func(i int) bool {
		Trig(p.unbreakPrefixs[i])
		return MatchAt(arg, p.unbreakPrefixs[i], j-len(p.unbreakPrefixs[i]))
	})
}

//vc:spec
func sepSuffixed(p SequenceParser, arg string, j int) bool {
	return Exists(0, len(p.unbreakSuffixs), func(i int) bool {
		Trig(p.unbreakSuffixs[i])
		return MatchAt(arg, p.unbreakSuffixs[i], j+len(p.sep))
	})
}

//vc:spec
func sepEscaped(arg string, j int) bool { return j >= 1 && arg[j-1] == '\\' }

// seqWords: the words of arg from position s on, out before them; arg[h:s] holds no cutting separator.
//
//vc:spec
//vc:dec len(arg)-s
func seqWords(p SequenceParser, arg string, h, s int, out []string) []string {
	if s < 0 || s > len(arg) || len(p.sep) == 0 || h >= len(arg) {
		return out
	}
	i := strings.Index(arg[s:], p.sep)
	if i < 0 {
		return append(out, arg[h:])
	}
	j := s + i
	if sepEscaped(arg, j) {
		return seqWords(p, arg[:j-1]+arg[j:], h, j-1+len(p.sep), out)
	}
	if sepPrefixed(p, arg, j) || sepSuffixed(p, arg, j) {
		return seqWords(p, arg, h, j+len(p.sep), out)
	}
	if h != j {
		return seqWords(p, arg, j+len(p.sep), j+len(p.sep), append(append(out, arg[h:j]), p.sep))
	}
	return seqWords(p, arg, j+len(p.sep), j+len(p.sep), append(out, p.sep))
}

// seqSeps: which of them are separators.
//
//vc:spec
//vc:dec len(arg)-s
func seqSeps(p SequenceParser, arg string, h, s int, out []bool) []bool {
	if s < 0 || s > len(arg) || len(p.sep) == 0 || h >= len(arg) {
		return out
	}
	i := strings.Index(arg[s:], p.sep)
	if i < 0 {
		return append(out, false)
	}
	j := s + i
	if sepEscaped(arg, j) {
		return seqSeps(p, arg[:j-1]+arg[j:], h, j-1+len(p.sep), out)
	}
	if sepPrefixed(p, arg, j) || sepSuffixed(p, arg, j) {
		return seqSeps(p, arg, h, j+len(p.sep), out)
	}
	if h != j {
		return seqSeps(p, arg, j+len(p.sep), j+len(p.sep), append(append(out, false), true))
	}
	return seqSeps(p, arg, j+len(p.sep), j+len(p.sep), append(out, true))
}

//vc:spec
//vc:dec n
func seqAll(p SequenceParser, argv []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	if len(argv[n-1]) == 0 {
		return append(seqAll(p, argv, n-1), argv[n-1])
	}
	return seqWords(p, argv[n-1], 0, 0, seqAll(p, argv, n-1))
}

//vc:spec
//vc:dec n
func seqAllSeps(p SequenceParser, argv []string, n int) []bool {
	if n <= 0 {
		return []bool{}
	}
	if len(argv[n-1]) == 0 {
		return append(seqAllSeps(p, argv, n-1), false)
	}
	return seqSeps(p, argv[n-1], 0, 0, seqAllSeps(p, argv, n-1))
}

// seqText: what the words say together: the text with the escapes of separators removed.
//
//vc:spec
//vc:dec len(arg)-s
func seqText(p SequenceParser, arg string, h, s int) string {
	if s < 0 || s > len(arg) || len(p.sep) == 0 || h >= len(arg) {
		return ""
	}
	i := strings.Index(arg[s:], p.sep)
	if i < 0 {
		return arg[h:]
	}
	j := s + i
	if sepEscaped(arg, j) {
		return seqText(p, arg[:j-1]+arg[j:], h, j-1+len(p.sep))
	}
	if sepPrefixed(p, arg, j) || sepSuffixed(p, arg, j) {
		return seqText(p, arg, h, j+len(p.sep))
	}
	return arg[h:j] + p.sep + seqText(p, arg, j+len(p.sep), j+len(p.sep))
}

//vc:lemma
func joinOne(out []string, w string) {
	Ensures(JoinTo(append(out, w), "", len(out)+1) == JoinTo(out, "", len(out))+w)
	if len(out) >= 1 {
		Assert(JoinTo(append(out, w), "", len(out)) == JoinTo(out, "", len(out)))
	}
}

// seqKept: nothing is lost, added or moved: the words one after another are the text.
//
//vc:lemma
func seqKept(p SequenceParser, arg string, h, s int, out []string) {
	Requires(0 <= h && h <= s && s <= len(arg) && len(p.sep) > 0)
	Ensures(JoinTo(seqWords(p, arg, h, s, out), "", len(seqWords(p, arg, h, s, out))) == JoinTo(out, "", len(out))+seqText(p, arg, h, s), "no character is lost, added or reordered")
	Decreases(len(arg) - s)
	if h >= len(arg) {
		return
	}
	i := strings.Index(arg[s:], p.sep)
	if i < 0 {
		joinOne(out, arg[h:])
		return
	}
	j := s + i
	if sepEscaped(arg, j) {
		seqKept(p, arg[:j-1]+arg[j:], h, j-1+len(p.sep), out)
		return
	}
	if sepPrefixed(p, arg, j) || sepSuffixed(p, arg, j) {
		seqKept(p, arg, h, j+len(p.sep), out)
		return
	}
	if h != j {
		joinOne(out, arg[h:j])
		joinOne(append(out, arg[h:j]), p.sep)
		seqKept(p, arg, j+len(p.sep), j+len(p.sep), append(append(out, arg[h:j]), p.sep))
		return
	}
	joinOne(out, p.sep)
	seqKept(p, arg, j+len(p.sep), j+len(p.sep), append(out, p.sep))
}

//vc:contract NewSequenceParser
func _(sep string, unbreakPrefixs []string, unbreakSuffixs []string) (r *SequenceParser) {
	Ensures(Fresh(r) && r.sep == sep && Eq(r.unbreakPrefixs, unbreakPrefixs) && Eq(r.unbreakSuffixs, unbreakSuffixs), "the parser works with the given separator and exemptions")
	return
}

//vc:contract SequenceParser.normalize
func _(self *SequenceParser, argv []string) (res []string, isSep []bool) {
	NoAlloc()
	Requires(self != nil && len(self.sep) > 0)
	Ensures(Eq(res, seqAll(*self, argv, len(argv))), "words cut exactly at the separators")
	Ensures(Eq(isSep, seqAllSeps(*self, argv, len(argv))), "separators told from words")
	Ensures(len(res) == len(isSep))
	//vc:inv 0: Eq(res, seqAll(*self, argv, Iter())) && Eq(isSep, seqAllSeps(*self, argv, Iter()))
	//vc:inv 0: len(res) == len(isSep)
	//vc:inv 1: 0 <= handledIdx && handledIdx <= searchIdx && searchIdx <= len(arg) && len(res) == len(isSep)
	//vc:inv 1: Eq(seqWords(*self, arg, handledIdx, searchIdx, res), seqWords(*self, AtLoop(arg), 0, 0, AtLoop(res)))
	//vc:inv 1: Eq(seqSeps(*self, arg, handledIdx, searchIdx, isSep), seqSeps(*self, AtLoop(arg), 0, 0, AtLoop(isSep)))
	//vc:dec 1: len(arg) - searchIdx
	//vc:inv 2: unbreakable == Exists(0, Iter(), func(i int) bool { Trig(self.unbreakPrefixs[i]); return MatchAt(arg, self.unbreakPrefixs[i], searchIdx-len(self.unbreakPrefixs[i])) })
	//vc:inv 3: unbreakable == Exists(0, Iter(), func(i int) bool { Trig(self.unbreakSuffixs[i]); return MatchAt(arg, self.unbreakSuffixs[i], searchIdx+len(self.sep)) })
	return
}

//vc:contract SequenceParser.Normalize
func _(self *SequenceParser, argv []string) (res []string) {
	NoAlloc()
	Requires(self != nil && len(self.sep) > 0)
	Ensures(Eq(res, seqAll(*self, argv, len(argv))), "words cut exactly at the separators")
	return
}

// seqDone / seqCurr: the finished segments and the open one after n words.
//
//vc:spec
//vc:dec n
func seqDone(ws []string, seps []bool, n int) [][]string {
	if n <= 0 {
		return [][]string{}
	}
	if seps[n-1] {
		return append(seqDone(ws, seps, n-1), seqCurr(ws, seps, n-1))
	}
	return seqDone(ws, seps, n-1)
}

//vc:spec
//vc:dec n
func seqCurr(ws []string, seps []bool, n int) []string {
	if n <= 0 || seps[n-1] {
		return []string{}
	}
	return append(seqCurr(ws, seps, n-1), strings.TrimSpace(ws[n-1]))
}

//vc:contract SequenceParser.Parse
func _(self *SequenceParser, argv []string) (parsed [][]string, firstIsGlobal bool) {
	NoAlloc()
	Requires(self != nil && len(self.sep) > 0)
	ws := seqAll(*self, argv, len(argv))
	seps := seqAllSeps(*self, argv, len(argv))
	Ensures(Eq(parsed, append(seqDone(ws, seps, len(ws)), seqCurr(ws, seps, len(ws)))), "one segment per separator, words in order")
	Ensures(firstIsGlobal == !(len(seps) > 0 && seps[0]), "global exactly when the line does not begin with a separator")
	//vc:inv 0: Eq(parsed, seqDone(argv, isSep, Iter())) && Eq(curr, seqCurr(argv, isSep, Iter()))
	return
}

// ---- a value with separators in a stored flow (C26)

//vc:lemma
func seqCut(a, b, c, d string) {
	arg := a + (b + "\\" + c + d)
	j := len(a) + len(b) + 1
	Ensures(arg[:j-1] == a+b && arg[j:] == c+d && arg[:j-1]+arg[j:] == a+b+c+d)
	Assert(arg == (a+b)+("\\"+c+d))
	Assert(arg == (a+b+"\\")+(c+d))
}

//vc:lemma
func seqStep(p SequenceParser, arg string, s, j int, out []string, seps []bool) {
	Requires(len(p.sep) > 0 && 0 <= s && s <= j && j < len(arg) && strings.Index(arg[s:], p.sep) == j-s && sepEscaped(arg, j))
	Ensures(Eq(seqWords(p, arg, 0, s, out), seqWords(p, arg[:j-1]+arg[j:], 0, j-1+len(p.sep), out)))
	Ensures(Eq(seqSeps(p, arg, 0, s, seps), seqSeps(p, arg[:j-1]+arg[j:], 0, j-1+len(p.sep), seps)))
}

// seqEscaped: a word whose separators are escaped stays one word, without the escapes.
//
//vc:lemma
func seqEscaped(p SequenceParser, pre, v string, s int, out []string, seps []bool) {
	Requires(len(p.sep) == 1 && p.sep != "\\")
	Requires(0 <= s && s <= len(pre) && len(pre)+len(v) > 0 && NoByte(pre[s:], p.sep[0]))
	Ensures(Eq(seqWords(p, pre+ReplaceText(v, p.sep, "\\"+p.sep), 0, s, out), append(out, pre+v)), "a value with escaped separators is one word, and read back as it was")
	Ensures(Eq(seqSeps(p, pre+ReplaceText(v, p.sep, "\\"+p.sep), 0, s, seps), append(seps, false)), "an escaped separator separates nothing")
	Decreases(len(v))
	i := strings.Index(v, p.sep)
	if i < 0 {
		arg := pre + v
		Assert(All(func(j int) bool {
			Trig(MatchAt(arg[s:], p.sep, j))
			return Implies(MatchAt(arg[s:], p.sep, j) && j >= len(pre)-s, MatchAt(v, p.sep, j-(len(pre)-s)))
		}))
		Assert(strings.Index(arg[s:], p.sep) < 0)
		return
	}
	tail := ReplaceText(v[i+1:], p.sep, "\\"+p.sep)
	arg := pre + (v[:i] + "\\" + p.sep + tail)
	j := len(pre) + i + 1
	Assert(arg[j:j+1] == p.sep && arg[j-1] == '\\')
	Assert(All(func(k int) bool {
		Trig(MatchAt(arg[s:], p.sep, k))
		return Implies(MatchAt(arg[s:], p.sep, k) && k >= len(pre)-s && k < j-s-1, MatchAt(v, p.sep, k-(len(pre)-s)))
	}))
	Assert(arg[s:] == pre[s:]+v[:i]+"\\"+p.sep+tail)
	Assert(All(func(k int) bool {
		Trig(MatchAt(arg[s:], p.sep, k))
		return Implies(MatchAt(arg[s:], p.sep, k), k >= len(pre)-s && k != j-s-1)
	}))
	Assert(MatchAt(arg[s:], p.sep, j-s))
	Assert(strings.Index(arg[s:], p.sep) == j-s)
	seqCut(pre, v[:i], p.sep, tail)
	Assert(arg[:j-1] == pre+v[:i])
	Assert(arg[j:] == p.sep+tail)
	Assert(arg[:j-1]+arg[j:] == pre+v[:i]+p.sep+tail)
	Assert(arg == pre+ReplaceText(v, p.sep, "\\"+p.sep))
	Assert(sepEscaped(arg, j) && s+strings.Index(arg[s:], p.sep) == j)
	seqStep(p, arg, s, j, out, seps)
	Assert(j-1+len(p.sep) == j)
	Assert(Eq(seqWords(p, arg, 0, s, out), seqWords(p, pre+v[:i]+p.sep+tail, 0, j, out)))
	Assert(Eq(seqSeps(p, arg, 0, s, seps), seqSeps(p, pre+v[:i]+p.sep+tail, 0, j, seps)))
	Assert(v == v[:i]+p.sep+v[i+1:])
	seqEscaped(p, pre+v[:i]+p.sep, v[i+1:], j, out, seps)
	Assert(pre+v[:i]+p.sep+v[i+1:] == pre+v)
}

// storedValue: key and value as a flow file holds them, cut into words and split into commands again.
//
//vc:lemma
func storedValue(p SequenceParser, lead, v, q string, out []string, seps []bool) {
	Requires(len(p.sep) == 1 && p.sep != "\\" && len(lead) > 0)
	Requires(Forall(0, len(lead), func(i int) bool { Trig(lead[i]); return !utils.ShSpecial(lead[i]) && lead[i] != p.sep[0] }))
	Requires(utils.ShWord(q, ReplaceText(v, p.sep, "\\"+p.sep)))
	Ensures(utils.ShWord(lead+q, lead+ReplaceText(v, p.sep, "\\"+p.sep)))
	Ensures(Eq(seqWords(p, lead+ReplaceText(v, p.sep, "\\"+p.sep), 0, 0, out), append(out, lead+v)), "a value with blanks, quotes or separators in a stored flow is read back whole, in one word")
	Ensures(Eq(seqSeps(p, lead+ReplaceText(v, p.sep, "\\"+p.sep), 0, 0, seps), append(seps, false)), "a value with blanks, quotes or separators in a stored flow does not end the command")
	utils.ShPlain(lead, len(lead))
	utils.ShWords(lead, lead, q, ReplaceText(v, p.sep, "\\"+p.sep))
	seqEscaped(p, lead, v, 0, out, seps)
}
