//go:build go1.21

package model

import (
	"io"
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- the env file (C04, C05)

// savedKey: the pair is written: visible, not filtered, and (if defaults are skipped) not what a
// missing key would give anyway.
//
//vc:spec
func savedKey(e *Env, k string, ps []string, skip bool) bool {
	return envHas(e, k) && !flatFiltered(k, ps) && !(skip && envGet(envLayer(e, EnvLayerDefault), k).Raw == envGet(e, k).Raw)
}

// savedKeys: the list of all saved keys, each once.
//
//vc:spec
func savedKeys(e *Env, ps []string, skip bool, ks []string) bool {
	return Distinct(ks, len(ks)) &&
		Forall(0, len(ks), func(i int) bool { Trig(ks[i]); return savedKey(e, ks[i], ps, skip) }) &&
		ForallStr(func(k string) bool { Trig(envHas(e, k)); return Implies(savedKey(e, k, ps, skip), HasTo(ks, len(ks), k)) })
}

// envFileText: the text with the lines of the first n keys after it.
//
//vc:spec
//vc:dec n
func envFileText(base string, e *Env, sep string, ks []string, n int) string {
	if n <= 0 {
		return base
	}
	return envFileText(base, e, sep, ks, n-1) + (ks[n-1] + sep + envGet(e, ks[n-1]).Raw + "\n")
}

// flatKept: flattening with filters gives the visible keys that are not filtered.
//
//vc:lemma
func flatKept(e *Env, ps []string) {
	Requires(envWF() && envOK(e))
	Ensures(ForallStr(func(k string) bool { Trig(flatHas(e, k, true, ps, false)); return flatHas(e, k, true, ps, false) == (envHas(e, k) && !flatFiltered(k, ps)) }))
	Ensures(ForallStr(func(k string) bool { Trig(flatVal(e, k, true, ps, false)); return Implies(!flatFiltered(k, ps), flatVal(e, k, true, ps, false) == envGet(e, k).Raw) }))
	Decreases(Addr(e))
	if e != nil {
		flatKept(e.parent, ps)
	}
}

//vc:contract EnvOutput
func _(env *Env, writer io.Writer, sep string, filtered []string, skipDefault bool) (err error) {
	Requires(envWF() && Live(env) && envLayer(env, EnvLayerDefault) != nil)
	Modifies(DiskText(NameOf(writer)))
	Ensures(envWF())
	Ensures(Implies(err == nil, Some(func(ks []string) bool {
		Trig(envFileText(Old(DiskText(NameOf(writer))), env, sep, ks, len(ks)))
		return savedKeys(env, filtered, skipDefault, ks) && DiskText(NameOf(writer)) == envFileText(Old(DiskText(NameOf(writer))), env, sep, ks, len(ks))
	})), "every pair to save, once, and nothing else")
	//vc:use entry: flatKept(env.parent, filtered)
	//vc:inv 0: Forall(0, len(keys), func(i int) bool { Trig(keys[i]); return Seen(keys[i]) })
	//vc:inv 0: Distinct(keys, len(keys))
	//vc:inv 0: Forall(0, len(keys), func(i int) bool { Trig(keys[i]); return savedKey(env, keys[i], filtered, skipDefault) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envHas(env, k)); return Implies(Seen(k) && savedKey(env, k, filtered, skipDefault), HasTo(keys, len(keys), k)) })
	//vc:inv 1: DiskText(NameOf(writer)) == envFileText(Old(DiskText(NameOf(writer))), env, sep, keys, Iter())
	return
}

// isEnvFile: the text is that of the env, the pairs in some order.
//
//vc:spec opaque
func isEnvFile(text string, e *Env, sep string, ps []string, skip bool) bool {
	return Some(func(ks []string) bool {
		Trig(envFileText("", e, sep, ks, len(ks)))
		return savedKeys(e, ps, skip, ks) && text == envFileText("", e, sep, ks, len(ks))
	})
}

//vc:contract saveEnvToFile
func _(env *Env, path string, sep string, filtered []string, skipDefault bool) {
	Requires(envWF() && Live(env) && envLayer(env, EnvLayerDefault) != nil)
	MayPanic()
	Modifies(DiskText(path), DiskText(path+".tmp"))
	Ensures(envWF())
	Ensures(isEnvFile(DiskText(path), env, sep, filtered, skipDefault), "the file holds every pair to save")
	Always(DiskText(path) == Old(DiskText(path)) || isEnvFile(DiskText(path), env, sep, filtered, skipDefault), "old or new file at every moment")
	return
}

// notSaved: the prefixes of the keys which belong to one run.
//
//vc:spec
func notSaved() []string {
	return []string{"session", "strs.", "display.height", "display.width.max", "display.executor.displayed", "sys.stack", "sys.stack-depth",
		"sys.session.", "sys.interact", "sys.breakpoint", "sys.execute-wait-sec", "sys.event.", "sys.paths."}
}

//vc:contract SaveEnvToFile
func _(env *Env, path string, sep string, skipDefault bool) {
	Requires(envWF() && Live(env) && envLayer(env, EnvLayerDefault) != nil)
	MayPanic()
	Modifies(DiskText(path), DiskText(path+".tmp"))
	Ensures(envWF())
	Ensures(isEnvFile(DiskText(path), env, sep, notSaved(), skipDefault), "the file holds every pair but those of the run")
	Always(DiskText(path) == Old(DiskText(path)) || isEnvFile(DiskText(path), env, sep, notSaved(), skipDefault), "old or new file at every moment")
	return
}

//vc:spec
func lineKey(line, sep string) string { return line[:strings.Index(line, sep)] }

//vc:spec
func lineVal(line, sep string) string { return line[strings.Index(line, sep)+len(sep):] }

// linesHas, linesGet: whether a key is there after the first n lines, and its value; had and got are
// what it was before.
//
//vc:spec
//vc:dec n
func linesHas(had bool, lines []string, sep, mark, k string, n int) bool {
	if n <= 0 {
		return had
	}
	if lineKey(lines[n-1], sep) == k {
		return lineVal(lines[n-1], sep) != mark
	}
	return linesHas(had, lines, sep, mark, k, n-1)
}

//vc:spec
//vc:dec n
func linesGet(got string, lines []string, sep, mark, k string, n int) string {
	if n <= 0 {
		return got
	}
	if lineKey(lines[n-1], sep) == k {
		if lineVal(lines[n-1], sep) == mark {
			return ""
		}
		return lineVal(lines[n-1], sep)
	}
	return linesGet(got, lines, sep, mark, k, n-1)
}

//vc:contract EnvInput
func _(env *Env, reader io.Reader, sep string, delMark string) (err error) {
	Requires(envWF() && Live(env))
	ModifiesMaps(env.pairs)
	Ensures(envWF())
	lines := LinesOf(DiskText(NameOf(reader)))
	Ensures(Implies(err == nil, Forall(0, len(lines), func(i int) bool { Trig(lines[i]); return strings.Index(lines[i], sep) >= 0 })), "a line without separator is reported")
	Ensures(Implies(err == nil, ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == linesHas(Old(envHas(env, k)), lines, sep, delMark, k, len(lines)) })), "the keys of the lines are there, the marked ones are not")
	Ensures(Implies(err == nil, ForallStr(func(k string) bool { Trig(envGet(env, k)); return envGet(env, k).Raw == linesGet(Old(envGet(env, k).Raw), lines, sep, delMark, k, len(lines)) })), "the keys of the lines have their values, the others keep theirs")
	//vc:dec 0: len(ScanLines(scanner)) - ScanPos(scanner)
	//vc:inv 0: envWF()
	//vc:inv 0: 0 <= ScanPos(scanner) && ScanPos(scanner) <= len(ScanLines(scanner)) && Eq(ScanLines(scanner), LinesOf(DiskText(NameOf(reader))))
	//vc:inv 0: Forall(0, ScanPos(scanner), func(i int) bool { Trig(LinesOf(DiskText(NameOf(reader)))[i]); return strings.Index(LinesOf(DiskText(NameOf(reader)))[i], sep) >= 0 })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envHas(env, k)); Trig(Old(envHas(env, k))); return envHas(env, k) == linesHas(Old(envHas(env, k)), LinesOf(DiskText(NameOf(reader))), sep, delMark, k, ScanPos(scanner)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); Trig(Old(envGet(env, k))); return envGet(env, k).Raw == linesGet(Old(envGet(env, k).Raw), LinesOf(DiskText(NameOf(reader))), sep, delMark, k, ScanPos(scanner)) })
	return
}

//vc:contract LoadEnvFromFile
func _(env *Env, path string, sep string, delMark string) {
	Requires(envWF() && Live(env))
	MayPanic()
	ModifiesMaps(env.pairs)
	Ensures(envWF())
	lines := LinesOf(DiskText(path))
	Ensures(Forall(0, len(lines), func(i int) bool { Trig(lines[i]); return strings.Index(lines[i], sep) >= 0 }), "a line without separator is reported")
	Ensures(ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == linesHas(Old(envHas(env, k)), lines, sep, delMark, k, len(lines)) }), "the keys of the lines are there, the marked ones are not")
	Ensures(ForallStr(func(k string) bool { Trig(envGet(env, k)); return envGet(env, k).Raw == linesGet(Old(envGet(env, k).Raw), lines, sep, delMark, k, len(lines)) }), "the keys of the lines have their values, the others keep theirs")
	return
}

// ---- what is saved is read back

//vc:spec
func envLine(e *Env, sep, k string) string { return k + sep + envGet(e, k).Raw }

// envLines: the first n lines.
//
//vc:spec
//vc:dec n
func envLines(e *Env, sep string, ks []string, n int) []string {
	if n <= 0 {
		return nil
	}
	return append(envLines(e, sep, ks, n-1), envLine(e, sep, ks[n-1]))
}

//vc:lemma
func envLinesAre(e *Env, sep string, ks []string, n int) {
	Requires(0 <= n && n <= len(ks))
	Ensures(len(envLines(e, sep, ks, n)) == n)
	Ensures(Forall(0, n, func(i int) bool { Trig(envLines(e, sep, ks, n)[i]); return envLines(e, sep, ks, n)[i] == envLine(e, sep, ks[i]) }))
	Ensures(TextOf(envLines(e, sep, ks, n), n) == envFileText("", e, sep, ks, n))
	Decreases(n)
	if n > 0 {
		envLinesAre(e, sep, ks, n-1)
		Assert(TextOf(envLines(e, sep, ks, n), n-1) == TextOf(envLines(e, sep, ks, n-1), n-1))
	}
}

// pairOK: a pair that can be read back: one line, a key without the separator, not the mark.
//
//vc:spec opaque
func pairOK(e *Env, sep, mark, k string) bool {
	return NoByte(k, sep[0]) && IsLine(envLine(e, sep, k)) && envGet(e, k).Raw != mark
}

//vc:lemma
func lineBack(e *Env, sep, mark, k string) {
	Requires(len(sep) == 1 && pairOK(e, sep, mark, k))
	line := envLine(e, sep, k)
	Ensures(strings.Index(line, sep) == len(k) && lineKey(line, sep) == k && lineVal(line, sep) == envGet(e, k).Raw)
	Assert(MatchAt(line, sep, len(k)))
	i := strings.Index(line, sep)
	if 0 <= i && i < len(k) {
		Assert(line[i] == sep[0])
		Assert(k[i] == line[i])
	}
}

//vc:lemma
func linesBack(e *Env, sep, mark string, ks []string, had bool, got string, k string, n int) {
	Requires(len(sep) == 1 && 0 <= n && n <= len(ks))
	Requires(Forall(0, len(ks), func(i int) bool { Trig(ks[i]); return pairOK(e, sep, mark, ks[i]) }))
	lines := envLines(e, sep, ks, len(ks))
	Ensures(linesHas(had, lines, sep, mark, k, n) == (had || HasTo(ks, n, k)))
	Ensures(linesGet(got, lines, sep, mark, k, n) == Ite(HasTo(ks, n, k), envGet(e, k).Raw, got))
	Decreases(n)
	envLinesAre(e, sep, ks, len(ks))
	if n > 0 {
		lineBack(e, sep, mark, ks[n-1])
		linesBack(e, sep, mark, ks, had, got, k, n-1)
	}
}

// envFileBack: the file of an env (isEnvFile, ks are its keys) gives back every pair that was saved,
// and nothing else: read by EnvInput, the keys saved are there with the values saved, every other key
// is as it was before (had, got).
//
//vc:lemma
func envFileBack(e *Env, sep, mark string, ps []string, skip bool, ks []string, had bool, got string, k string) {
	Requires(len(sep) == 1 && savedKeys(e, ps, skip, ks))
	Requires(Forall(0, len(ks), func(i int) bool { Trig(ks[i]); return pairOK(e, sep, mark, ks[i]) }))
	lines := LinesOf(envFileText("", e, sep, ks, len(ks)))
	Ensures(linesHas(had, lines, sep, mark, k, len(lines)) == (had || savedKey(e, k, ps, skip)), "the keys saved are read back")
	Ensures(linesGet(got, lines, sep, mark, k, len(lines)) == Ite(savedKey(e, k, ps, skip), envGet(e, k).Raw, got), "the values saved are read back")
	n := len(ks)
	envLinesAre(e, sep, ks, n)
	Assert(Forall(0, n, func(i int) bool { Trig(envLines(e, sep, ks, n)[i]); return pairOK(e, sep, mark, ks[i]) }))
	Assert(Forall(0, n, func(i int) bool { Trig(envLines(e, sep, ks, n)[i]); return IsLine(envLines(e, sep, ks, n)[i]) }))
	Assert(Eq(LinesOf(TextOf(envLines(e, sep, ks, n), n)), envLines(e, sep, ks, n)))
	linesBack(e, sep, mark, ks, had, got, k, n)
	Assert(Implies(savedKey(e, k, ps, skip), HasTo(ks, n, k)))
	Assert(Implies(HasTo(ks, n, k), savedKey(e, k, ps, skip)))
}

var _ = strings.Index
var _ io.Writer
