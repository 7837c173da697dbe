//go:build go1.21

package parser

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- env settings in brackets, raw arguments (C22)

//vc:contract NewEnvParser
func _(brackets Brackets, spaces string, kvSep string, envPathSep string, sysArgPrefix string) (r *EnvParser) {
	Ensures(Fresh(r) && r.brackets == brackets && r.spaces == spaces && r.kvSep == kvSep && r.envPathSep == envPathSep && r.sysArgPrefix == sysArgPrefix, "the parser works with the given signs")
	return
}

//vc:spec
func envParserOK(p *EnvParser) bool {
	return p != nil && len(p.brackets.Left) > 0 && len(p.brackets.Right) > 0 && len(p.kvSep) > 0 && len(p.envPathSep) == 1 && len(p.sysArgPrefix) > 0
}

// bare: a list of words, or no words if there is only an empty one.
//
//vc:spec
func bare(words []string) []string {
	return Ite(len(words) == 0 || len(words) == 1 && len(words[0]) == 0, []string{}, words)
}

//vc:contract tryTrimStrings
func _(input []string) (r []string) {
	NoAlloc()
	Ensures(Eq(r, bare(input)), "only a single empty word is dropped")
	return
}

//vc:contract tryTrimParsedEnv
func _(env model.ParsedEnv) (r model.ParsedEnv) {
	NoAlloc()
	Ensures(Addr(r) == Ite(len(env) == 0, 0, Addr(env)))
	return
}

// toks: what the words hold: texts and separators. A word is split at its first separator, the
// blanks around the parts don't count.
//
//vc:spec
//vc:dec n
func toks(words []string, n int, sep string, spaces string) []string {
	if n <= 0 || n > len(words) {
		return []string{}
	}
	return append(toks(words, n-1, sep, spaces), wordToks(words[n-1], sep, spaces)...)
}

//vc:spec
func wordToks(w string, sep string, spaces string) []string {
	k := strings.Index(w, sep)
	if k < 0 {
		return []string{strings.Trim(w, spaces)}
	}
	return append(append(nonEmpty(strings.Trim(w[:k], spaces)), sep), nonEmpty(strings.Trim(w[k+len(sep):], spaces))...)
}

//vc:spec
func nonEmpty(s string) []string { return Ite(len(s) == 0, []string{}, []string{s}) }

// tokIn: the word a token is in; tokAt: the place in the word.
//
//vc:spec
//vc:dec n
func tokIn(words []string, n int, sep string, spaces string) []int {
	if n <= 0 || n > len(words) {
		return []int{}
	}
	return append(tokIn(words, n-1, sep, spaces), Ite(len(wordToks(words[n-1], sep, spaces)) == 3, []int{n - 1, n - 1, n - 1}, Ite(len(wordToks(words[n-1], sep, spaces)) == 2, []int{n - 1, n - 1}, []int{n - 1}))...)
}

//vc:spec
//vc:dec n
func tokAt(words []string, n int, sep string, spaces string) []int {
	if n <= 0 || n > len(words) {
		return []int{}
	}
	return append(tokAt(words, n-1, sep, spaces), wordTokAt(words[n-1], sep, spaces)...)
}

//vc:spec
func wordTokAt(w string, sep string, spaces string) []int {
	k := strings.Index(w, sep)
	if k < 0 {
		return []int{0}
	}
	return append(append(Ite(strings.Trim(w[:k], spaces) == "", []int{}, []int{0}), k), Ite(strings.Trim(w[k+len(sep):], spaces) == "", []int{}, []int{k + len(sep)})...)
}

//vc:spec
//vc:dec n
func sepIn(words []string, n int, sep string) bool {
	return n > 0 && n <= len(words) && (strings.Index(words[n-1], sep) >= 0 || sepIn(words, n-1, sep))
}

//vc:contract normalizeEnvRawStr
func _(input []string, sep string, spaces string) (output normalizedMapping, foundSep bool) {
	Requires(len(sep) > 0)
	NoAlloc()
	Ensures(Eq(output.data, toks(input, len(input), sep, spaces)), "the words are split at their first separators, blanks around the parts are dropped")
	Ensures(Eq(output.originIdx, tokIn(input, len(input), sep, spaces)) && Eq(output.originStrIdx, tokAt(input, len(input), sep, spaces)), "the place of each part is known")
	Ensures(foundSep == sepIn(input, len(input), sep))
	Ensures(len(output.originIdx) == len(output.data) && len(output.originStrIdx) == len(output.data))
	Ensures(Forall(0, len(output.data), func(i int) bool {
		Trig(output.originIdx[i])
		return 0 <= output.originIdx[i] && output.originIdx[i] < len(input)
	}))
	Ensures(Forall(0, len(output.data), func(i int) bool {
		Trig(output.originStrIdx[i])
		return 0 <= output.originStrIdx[i] && output.originStrIdx[i] <= len(input[output.originIdx[i]])
	}))
	//vc:inv 0: Eq(output.data, toks(input, Iter(), sep, spaces))
	//vc:inv 0: Eq(output.originIdx, tokIn(input, Iter(), sep, spaces))
	//vc:inv 0: Eq(output.originStrIdx, tokAt(input, Iter(), sep, spaces))
	//vc:inv 0: foundSep == sepIn(input, Iter(), sep)
	//vc:inv 0: len(output.originIdx) == len(output.data) && len(output.originStrIdx) == len(output.data)
	//vc:inv 0: Forall(0, len(output.data), func(i int) bool { Trig(output.originIdx[i]); return 0 <= output.originIdx[i] && output.originIdx[i] < Iter() })
	//vc:inv 0: Forall(0, len(output.data), func(i int) bool { Trig(output.originStrIdx[i]); return 0 <= output.originStrIdx[i] && output.originStrIdx[i] <= len(input[output.originIdx[i]]) })
	return
}

// ---- keys and values

// kvKey: the key a word names: of a command with arguments a system argument or the argument
// meant by the word; elsewhere the env key meant by the word, with abbreviations replaced.
//
//vc:spec
func kvKey(p *EnvParser, cmd *model.CmdTree, abbrs *model.EnvAbbrs, word string) string {
	if model.CmdHas(cmd) {
		return Ite(IsPrefix(word, p.sysArgPrefix), word, model.CmdArgReal(cmd, word))
	}
	return Ite(abbrs != nil && model.EnvKeyKnown(abbrs, word, p.envPathSep), strings.Join(model.EnvKeyMatch(abbrs, word, p.envPathSep), p.envPathSep), word)
}

//vc:spec
func kvSys(p *EnvParser, cmd *model.CmdTree, word string) bool {
	return model.CmdHas(cmd) && IsPrefix(word, p.sysArgPrefix)
}

//vc:spec
func kvVal(p *EnvParser, cmd *model.CmdTree, word string, value string) string {
	return Ite(kvSys(p, cmd, word), model.SysArgVal(word[len(p.sysArgPrefix):], value), value)
}

// kvEnd: where the settings 'key separator value' from token i on end.
//
//vc:spec opaque
//vc:dec len(ts) - i
func kvEnd(p *EnvParser, cmd *model.CmdTree, ts []string, i int) int {
	if i < 0 || i+2 >= len(ts) || ts[i+1] != p.kvSep || kvKey(p, cmd, nil, ts[i]) == "" && model.CmdHas(cmd) {
		return i
	}
	return kvEnd(p, cmd, ts, i+3)
}

// kvLast: the last setting before token i that sets the key, or -1.
//
//vc:spec opaque
//vc:dec i
func kvLast(p *EnvParser, cmd *model.CmdTree, abbrs *model.EnvAbbrs, ts []string, i int, key string) int {
	if i < 3 || i > len(ts) {
		return -1
	}
	if kvKey(p, cmd, abbrs, ts[i-3]) == key {
		return i - 3
	}
	return kvLast(p, cmd, abbrs, ts, i-3, key)
}

// pairEnd, pairLast: the same for settings 'argument value' without separators.
//
//vc:spec opaque
//vc:dec len(ts) - i
func pairEnd(cmd *model.CmdTree, ts []string, i int) int {
	if i < 0 || i+1 >= len(ts) || model.CmdArgReal(cmd, ts[i]) == "" {
		return i
	}
	return pairEnd(cmd, ts, i+2)
}

//vc:spec opaque
//vc:dec i
func pairLast(cmd *model.CmdTree, ts []string, i int, key string) int {
	if i < 2 || i > len(ts) {
		return -1
	}
	if model.CmdArgReal(cmd, ts[i-2]) == key {
		return i - 2
	}
	return pairLast(cmd, ts, i-2, key)
}

// posLast: the last of the first n argument names that is the key, or -1.
//
//vc:spec opaque
//vc:dec n
func posLast(names []string, n int, key string) int {
	if n <= 0 || n > len(names) {
		return -1
	}
	if names[n-1] == key {
		return n - 1
	}
	return posLast(names, n-1, key)
}

//vc:lemma
//vc:reveal kvEnd kvLast
func kvStep(p *EnvParser, cmd *model.CmdTree, abbrs *model.EnvAbbrs, ts []string, i int) {
	Requires(0 <= i)
	Ensures(kvEnd(p, cmd, ts, i) == Ite(i+2 >= len(ts) || ts[i+1] != p.kvSep || kvKey(p, cmd, nil, ts[i]) == "" && model.CmdHas(cmd), i, kvEnd(p, cmd, ts, i+3)))
	Ensures(ForallStr(func(key string) bool {
		Trig(kvLast(p, cmd, abbrs, ts, i+3, key))
		return Implies(i+3 <= len(ts), kvLast(p, cmd, abbrs, ts, i+3, key) == Ite(kvKey(p, cmd, abbrs, ts[i]) == key, i, kvLast(p, cmd, abbrs, ts, i, key)))
	}))
	Ensures(ForallStr(func(key string) bool {
		Trig(kvLast(p, cmd, abbrs, ts, 0, key))
		return kvLast(p, cmd, abbrs, ts, 0, key) == -1
	}))
}

//vc:lemma
//vc:reveal kvLast
func kvLastIn(p *EnvParser, cmd *model.CmdTree, abbrs *model.EnvAbbrs, ts []string, i int, key string) {
	Decreases(i)
	Ensures(kvLast(p, cmd, abbrs, ts, i, key) >= -1 && Implies(kvLast(p, cmd, abbrs, ts, i, key) >= 0, kvLast(p, cmd, abbrs, ts, i, key)+3 <= i && i <= len(ts)))
	if i >= 3 && i <= len(ts) && kvKey(p, cmd, abbrs, ts[i-3]) != key {
		kvLastIn(p, cmd, abbrs, ts, i-3, key)
	}
}

//vc:lemma
//vc:reveal pairEnd pairLast
func pairStep(cmd *model.CmdTree, ts []string, i int) {
	Requires(0 <= i)
	Ensures(pairEnd(cmd, ts, i) == Ite(i+1 >= len(ts) || model.CmdArgReal(cmd, ts[i]) == "", i, pairEnd(cmd, ts, i+2)))
	Ensures(ForallStr(func(key string) bool {
		Trig(pairLast(cmd, ts, i+2, key))
		return Implies(i+2 <= len(ts), pairLast(cmd, ts, i+2, key) == Ite(model.CmdArgReal(cmd, ts[i]) == key, i, pairLast(cmd, ts, i, key)))
	}))
	Ensures(ForallStr(func(key string) bool {
		Trig(pairLast(cmd, ts, 0, key))
		return pairLast(cmd, ts, 0, key) == -1
	}))
}

//vc:lemma
//vc:reveal posLast
func posStep(names []string, i int) {
	Requires(0 <= i)
	Ensures(ForallStr(func(key string) bool {
		Trig(posLast(names, i+1, key))
		return Implies(i+1 <= len(names), posLast(names, i+1, key) == Ite(names[i] == key, i, posLast(names, i, key)))
	}))
	Ensures(ForallStr(func(key string) bool {
		Trig(posLast(names, 0, key))
		return posLast(names, 0, key) == -1
	}))
}

// byName: the words are pairs of argument and value.
//
//vc:spec
func byName(cmd *model.CmdTree, ts []string) bool {
	return len(ts) > len(model.CmdArgNames(cmd)) && model.CmdArgReal(cmd, ts[0]) != ""
}

//vc:spec
func minI(a, b int) int { return Ite(a < b, a, b) }

// usedToks: how many tokens set something.
//
//vc:spec
func usedToks(p *EnvParser, cmd *model.CmdTree, ts []string, sep bool) int {
	return Ite(sep, kvEnd(p, cmd, ts, 0), Ite(!model.CmdHas(cmd), 0, Ite(byName(cmd, ts), pairEnd(cmd, ts, 0), minI(len(ts), len(model.CmdArgNames(cmd))))))
}

// cutAt: the words from token i on.
//
//vc:spec
func cutAt(words []string, in []int, at []int, i int) []string {
	return Ite(i < 0 || i >= len(in) || i >= len(at) || in[i] < 0 || in[i] >= len(words) || at[i] < 0 || at[i] > len(words[in[i]]), []string{}, append([]string{words[in[i]][at[i]:]}, words[in[i]+1:]...))
}

//vc:spec
func kvSet(p *EnvParser, cmd *model.CmdTree, abbrs *model.EnvAbbrs, ts []string, n int, env model.ParsedEnv) bool {
	return ForallStr(func(key string) bool {
		Trig(Has(env, key))
		return Has(env, key) == (kvLast(p, cmd, abbrs, ts, n, key) >= 0)
	}) && ForallStr(func(key string) bool {
		Trig(env[key])
		j := kvLast(p, cmd, abbrs, ts, n, key)
		return Implies(j >= 0, env[key].Val == kvVal(p, cmd, ts[j], ts[j+2]) && env[key].IsArg == model.CmdHas(cmd) && env[key].IsSysArg == kvSys(p, cmd, ts[j]))
	})
}

//vc:spec
func pairSet(cmd *model.CmdTree, ts []string, n int, env model.ParsedEnv) bool {
	return ForallStr(func(key string) bool {
		Trig(Has(env, key))
		return Has(env, key) == (pairLast(cmd, ts, n, key) >= 0)
	}) && ForallStr(func(key string) bool {
		Trig(env[key])
		j := pairLast(cmd, ts, n, key)
		return Implies(j >= 0, env[key].Val == ts[j+1] && env[key].IsArg && !env[key].IsSysArg)
	})
}

//vc:spec opaque
func posSet(names []string, ts []string, n int, env model.ParsedEnv) bool {
	return ForallStr(func(key string) bool {
		Trig(Has(env, key))
		return Has(env, key) == (posLast(names, n, key) >= 0)
	}) && ForallStr(func(key string) bool {
		Trig(env[key])
		j := posLast(names, n, key)
		return Implies(j >= 0, env[key].Val == ts[j] && env[key].IsArg && !env[key].IsSysArg)
	})
}

// rawSet: the settings the words hold are what the env holds.
//
//vc:spec opaque
func rawSet(p *EnvParser, cmd *model.CmdTree, abbrs *model.EnvAbbrs, words []string, env model.ParsedEnv) bool {
	ts := toks(words, len(words), p.kvSep, p.spaces)
	sep := sepIn(words, len(words), p.kvSep)
	n := usedToks(p, cmd, ts, sep)
	if sep {
		return kvSet(p, cmd, abbrs, ts, n, env)
	}
	if !model.CmdHas(cmd) {
		return len(env) == 0
	}
	if byName(cmd, ts) {
		return pairSet(cmd, ts, n, env)
	}
	return posSet(model.CmdArgNames(cmd), ts, n, env)
}

// rawRest: the words that hold no settings.
//
//vc:spec
func rawRest(p *EnvParser, cmd *model.CmdTree, words []string) []string {
	ts := toks(words, len(words), p.kvSep, p.spaces)
	sep := sepIn(words, len(words), p.kvSep)
	if !sep && !model.CmdHas(cmd) {
		return bare(ts)
	}
	return bare(cutAt(words, tokIn(words, len(words), p.kvSep, p.spaces), tokAt(words, len(words), p.kvSep, p.spaces), usedToks(p, cmd, ts, sep)))
}

//vc:contract EnvParser.TryParseRaw
//vc:reveal rawSet rawRest
func _(self *EnvParser, cmd *model.CmdTree, envAbbrs *model.EnvAbbrs, input []string) (env model.ParsedEnv, rest []string) {
	Requires(envParserOK(self) && model.AbbrsOK() && model.TreeOK())
	MayPanic()
	Ensures(model.AbbrsOK() && model.TreeOK())
	Ensures(rawSet(self, cmd, envAbbrs, input, env), "exactly the written keys are set, to the values written last")
	Ensures(Eq(rest, rawRest(self, cmd, input)), "what is no setting is passed on unchanged")
	//vc:inv 0: 0 <= i && i <= len(rest) && kvEnd(self, cmd, rest, 0) == kvEnd(self, cmd, rest, i)
	//vc:inv 0: kvSet(self, cmd, envAbbrs, rest, i, env)
	//vc:inv 0: model.AbbrsOK() && model.TreeOK() && Fresh(env) && env != nil
	//vc:inv 0: Eq(rest, normalized.data) && Eq(rest, toks(input, len(input), self.kvSep, self.spaces))
	//vc:inv 1: Eq(rest, normalized.data) && Eq(rest, toks(input, len(input), self.kvSep, self.spaces))
	//vc:inv 2: Eq(rest, normalized.data) && Eq(rest, toks(input, len(input), self.kvSep, self.spaces))
	//vc:inv 3: Eq(rest, normalized.data) && Eq(rest, toks(input, len(input), self.kvSep, self.spaces))
	//vc:use entry: kvStep(self, cmd, envAbbrs, toks(input, len(input), self.kvSep, self.spaces), 0)
	//vc:use 0: kvStep(self, cmd, envAbbrs, rest, i)
	//vc:inv 1: 0 <= i && i <= len(rest) && pairEnd(cmd, rest, 0) == pairEnd(cmd, rest, i)
	//vc:inv 1: pairSet(cmd, rest, i, env)
	//vc:inv 1: model.AbbrsOK() && model.TreeOK() && Fresh(env) && env != nil
	//vc:use entry: pairStep(cmd, toks(input, len(input), self.kvSep, self.spaces), 0)
	//vc:use 1: pairStep(cmd, rest, i)
	//vc:inv 2: 0 <= i && i <= len(rest) && i <= len(names)
	//vc:inv 2: posSet(names, rest, i, env)
	//vc:inv 2: model.AbbrsOK() && model.TreeOK() && Fresh(env) && env != nil
	//vc:use entry: posStep(model.CmdArgNames(cmd), 0)
	//vc:use 2: posStep(names, i)
	//vc:inv 3: 0 <= i && i <= len(rest) && kvEnd(self, cmd, rest, 0) == kvEnd(self, cmd, rest, i)
	//vc:inv 3: kvSet(self, cmd, envAbbrs, rest, i, env)
	//vc:inv 3: model.AbbrsOK() && model.TreeOK() && Fresh(env) && env != nil
	//vc:use 3: kvStep(self, cmd, envAbbrs, rest, i)
	return
}

// ---- finding a block

// unblanked: one word without the blanks around it, or no word.
//
//vc:spec opaque
func unblanked(s string, spaces string) []string { return nonEmpty(strings.Trim(s, spaces)) }

// opened: the words after an opening bracket at the start of the first word.
//
//vc:spec
func opened(words []string, left string, spaces string) []string {
	return Ite(len(words[0]) == len(left), bare(words[1:]), append([]string{strings.Trim(words[0][len(left):], spaces)}, bare(words[1:])...))
}

// apart: the bracket in the middle of the first word as a word of its own.
//
//vc:spec
func apart(words []string, left string, spaces string) []string {
	i := strings.Index(words[0], left)
	return append([]string{strings.Trim(words[0][:i], spaces), left, strings.TrimLeft(words[0][i+len(left):], spaces)}, bare(words[1:])...)
}

//vc:contract EnvParser.findLeft
//vc:reveal opened
func _(self *EnvParser, input []string) (rest []string, found bool, again bool) {
	Requires(envParserOK(self))
	NoAlloc()
	left := self.brackets.Left
	Ensures(found == (len(input) > 0 && HasSub(input[0], left)), "a block starts exactly where the opening bracket is")
	Ensures(again == (found && !IsPrefix(input[0], left)))
	Ensures(Implies(!found, Eq(rest, bare(input))), "words without a block are passed on unchanged")
	Ensures(Implies(found && !again, Eq(rest, opened(input, left, self.spaces))), "only the bracket is taken off")
	Ensures(Implies(again, Eq(rest, apart(input, left, self.spaces))), "text before the bracket becomes a word of its own")
	return
}

// closeAt: the first word from i on with the closing bracket, or the number of words.
//
//vc:spec
//vc:dec len(words) - i
func closeAt(words []string, right string, i int) int {
	if i < 0 || i >= len(words) || strings.Index(words[i], right) >= 0 {
		return i
	}
	return closeAt(words, right, i+1)
}

// filled: the first n words without the empty ones.
//
//vc:spec opaque
//vc:dec n
func filled(words []string, n int) []string {
	if n <= 0 || n > len(words) {
		return []string{}
	}
	return append(filled(words, n-1), nonEmpty(words[n-1])...)
}

// inside: the words of a block closed in word n; behind: the words after it.
//
//vc:spec opaque
func inside(words []string, n int, right string, spaces string) []string {
	k := strings.Index(words[n], right)
	return append(filled(words, n), Ite(k == 0, []string{}, []string{strings.Trim(words[n][:k], spaces)})...)
}

//vc:spec opaque
func behind(words []string, n int, right string, spaces string) []string {
	k := strings.Index(words[n], right)
	return append(Ite(len(right) == len(words[n])-k, []string{}, unblanked(words[n][k+len(right):], spaces)), bare(words[n+1:])...)
}

//vc:contract EnvParser.findRight
//vc:reveal inside behind
func _(self *EnvParser, input []string) (env []string, rest []string, found bool) {
	Requires(envParserOK(self))
	NoAlloc()
	right := self.brackets.Right
	n := closeAt(input, right, 0)
	Ensures(found == (n < len(input)), "a block ends exactly at the first closing bracket")
	Ensures(Implies(!found, len(env) == 0 && len(rest) == 0))
	Ensures(Implies(found, Eq(env, inside(input, n, right, self.spaces))), "the words up to the bracket are in the block")
	Ensures(Implies(found, Eq(rest, behind(input, n, right, self.spaces))), "the words behind the bracket are passed on unchanged")
	//vc:inv 0: closeAt(input, self.brackets.Right, 0) == closeAt(input, self.brackets.Right, Iter())
	//vc:inv 0: Eq(env, filled(input, Iter()))
	return
}

// blockIn: the block at the start of the words is closed and holds nothing but settings.
//
//vc:spec
func blockIn(p *EnvParser, cmd *model.CmdTree, words []string) bool {
	o := opened(words, p.brackets.Left, p.spaces)
	n := closeAt(o, p.brackets.Right, 0)
	return n < len(o) && len(rawRest(p, cmd, inside(o, n, p.brackets.Right, p.spaces))) == 0
}

//vc:contract EnvParser.TryParse
//vc:reveal blockIn
func _(self *EnvParser, cmd *model.CmdTree, envAbbrs *model.EnvAbbrs, input []string) (env model.ParsedEnv, rest []string, found bool, err error) {
	Requires(envParserOK(self) && model.AbbrsOK() && model.TreeOK())
	MayPanic()
	left := self.brackets.Left
	right := self.brackets.Right
	o := opened(input, left, self.spaces)
	n := closeAt(o, right, 0)
	Ensures(model.AbbrsOK() && model.TreeOK())
	Ensures(found == (len(input) > 0 && HasSub(input[0], left)), "a block starts exactly where the opening bracket is")
	Ensures(Implies(!found, Eq(rest, bare(input)) && env == nil && err == nil), "words without a block are passed on unchanged")
	Ensures(Implies(found && !IsPrefix(input[0], left), Eq(rest, apart(input, left, self.spaces)) && env == nil && err == nil), "text before the bracket becomes a word of its own")
	Ensures(Implies(found && IsPrefix(input[0], left), (err == nil) == blockIn(self, cmd, input)), "a block that is not closed or holds something else is reported")
	Ensures(Implies(err != nil, env == nil), "a block with an error sets nothing")
	Ensures(Implies(found && IsPrefix(input[0], left) && err == nil, rawSet(self, cmd, envAbbrs, inside(o, n, right, self.spaces), env)), "exactly the keys written in the block are set, to the values written in it")
	Ensures(Implies(found && IsPrefix(input[0], left) && err == nil, Eq(rest, bare(behind(o, n, right, self.spaces)))), "the words behind the block are passed on unchanged")
	return
}
