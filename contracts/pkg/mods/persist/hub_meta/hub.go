//go:build go1.21

package hub_meta

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- the hub file (C15, C05)

//vc:spec
func addrStr(a RepoAddr) string {
	if len(a.Addr) == 0 || len(a.Branch) == 0 {
		return a.Addr
	}
	return a.Addr + "#" + a.Branch
}

//vc:contract RepoAddr.Str
func _(a RepoAddr) (r string) {
	NoAlloc()
	Ensures(r == addrStr(a))
	return
}

//vc:spec
func relPath(hub, path string) string {
	if IsPrefix(path, hub) {
		return "<hub>:" + path[len(hub):]
	}
	return path
}

//vc:spec
func absPath(hub, path string) string {
	if IsPrefix(path, "<hub>:") {
		return hub + path[6:]
	}
	return path
}

//vc:contract tryConvAbsPathToRelPath
func _(hub, path string) (r string) {
	NoAlloc()
	Ensures(r == relPath(hub, path), "the form in the file")
	return
}

//vc:contract tryConvRelPathToAbsPath
func _(hub, path string) (r string) {
	NoAlloc()
	Ensures(r == absPath(hub, path), "the absolute path")
	return
}

// pathThereAndBack: no absolute path begins with the mark.
//
//vc:lemma auto
func pathThereAndBack(hub, path string) {
	Trig(absPath(hub, relPath(hub, path)))
	Ensures(Implies(!IsPrefix(path, "<hub>:"), absPath(hub, relPath(hub, path)) == path), "a path converted and converted back is the same")
}

// parsedAddr: an address text is cut at the last mark.
//
//vc:spec
func parsedAddr(s string) RepoAddr {
	if strings.LastIndex(s, "#") > 0 {
		return RepoAddr{s[:strings.LastIndex(s, "#")], s[strings.LastIndex(s, "#")+1:]}
	}
	return RepoAddr{s, ""}
}

//vc:contract ParseRepoAddr
func _(addr string) (r RepoAddr) {
	NoAlloc()
	Ensures(r == parsedAddr(addr), "address and branch of a text")
	return
}

//vc:spec
func noMark(s string) bool {
	return Forall(0, len(s), func(i int) bool { Trig(s[i]); return s[i] != '#' })
}

//vc:spec sealed
func addrOK(a RepoAddr) bool {
	return noMark(a.Addr) && noMark(a.Branch) && (len(a.Addr) > 0 || len(a.Branch) == 0)
}

// addrBack: an address written is read back.
//
//vc:lemma auto
//vc:reveal addrOK
func addrBack(a RepoAddr) {
	Trig(parsedAddr(addrStr(a)))
	Ensures(Implies(addrOK(a), parsedAddr(addrStr(a)) == a), "an address written is read back")
	if len(a.Addr) > 0 && len(a.Branch) > 0 {
		Assert(MatchAt(addrStr(a), "#", len(a.Addr)))
	}
}

//vc:spec sealed
func hubLine(hub string, info RepoInfo, sep string) string {
	return addrStr(info.Addr) + sep + info.AddReason + sep + relPath(hub, info.Path) + sep + info.HelpStr + sep + info.OnOff
}

// hubText: the hub file of the first n entries.
//
//vc:spec
//vc:dec n
func hubText(hub string, infos []RepoInfo, sep string, n int) string {
	if n <= 0 {
		return ""
	}
	return hubText(hub, infos, sep, n-1) + (hubLine(hub, infos[n-1], sep) + "\n")
}

//vc:contract WriteReposInfoFile
//vc:reveal hubLine
func _(hub string, path string, infos []RepoInfo, sep string) {
	Requires(model.EnvIsWF())
	MayPanic()
	Modifies(DiskText(path), DiskText(path+".tmp"))
	Ensures(model.EnvIsWF())
	Ensures(DiskText(path) == hubText(hub, infos, sep, len(infos)), "the file holds every entry")
	Always(DiskText(path) == Old(DiskText(path)) || DiskText(path) == hubText(hub, infos, sep, len(infos)), "old or new file at every moment")
	//vc:inv 0: DiskText(tmp) == hubText(hub, infos, sep, Iter())
	return
}

// hubFields: the fields of a line, in the order they are written.
//
//vc:spec
func hubFields(hub string, info RepoInfo) []string {
	return []string{addrStr(info.Addr), info.AddReason, relPath(hub, info.Path), info.HelpStr, info.OnOff}
}

//vc:spec sealed
func parsedInfo(hub, line, sep string) RepoInfo {
	return RepoInfo{
		parsedAddr(strings.Split(strings.Trim(line, "\n\r"), sep)[0]),
		strings.Split(strings.Trim(line, "\n\r"), sep)[1],
		absPath(hub, strings.Split(strings.Trim(line, "\n\r"), sep)[2]),
		strings.Split(strings.Trim(line, "\n\r"), sep)[3],
		strings.Split(strings.Trim(line, "\n\r"), sep)[4],
	}
}

//vc:spec sealed
func lineOK(line, sep string) bool { return len(strings.Split(strings.Trim(line, "\n\r"), sep)) == 5 }

// isHubList: the entries are those of the file, line by line, each with its five fields.
//
//vc:spec
func isHubList(hub, text, sep string, infos []RepoInfo) bool {
	return len(infos) == len(LinesOf(text)) && Forall(0, len(infos), func(i int) bool {
		Trig(infos[i])
		return lineOK(LinesOf(text)[i], sep) && infos[i] == parsedInfo(hub, LinesOf(text)[i], sep)
	})
}

//vc:contract ReadReposInfoFile
//vc:reveal lineOK parsedInfo
func _(hub string, path string, allowNotExist bool, sep string) (infos []RepoInfo, list map[string]bool) {
	Requires(len(sep) > 0 && model.EnvIsWF())
	MayPanic()
	Ensures(model.EnvIsWF())
	text := DiskText(path)
	Ensures(Eq(infos, HubEntries(hub, text, sep)), "every line of the file, and nothing else")
	Ensures(Forall(0, len(LinesOf(text)), func(i int) bool { Trig(LinesOf(text)[i]); return lineOK(LinesOf(text)[i], sep) }), "a malformed line is reported")
	//vc:dec 0: len(ScanLines(scanner)) - ScanPos(scanner)
	//vc:inv 0: len(infos) == ScanPos(scanner) && 0 <= ScanPos(scanner) && ScanPos(scanner) <= len(ScanLines(scanner)) && Eq(ScanLines(scanner), LinesOf(DiskText(path)))
	//vc:inv 0: Eq(infos, hubEntries(hubRootPath, LinesOf(DiskText(path)), sep, ScanPos(scanner)))
	//vc:inv 0: Forall(0, ScanPos(scanner), func(i int) bool { Trig(LinesOf(DiskText(path))[i]); return lineOK(LinesOf(DiskText(path))[i], sep) })
	return
}

// plain: a field without separators and line breaks.
//
//vc:spec sealed
func plain(s, sep string) bool {
	return NoByte(s, sep[0]) && NoByte(s, '\n') && NoByte(s, '\r')
}

// entryOK: an entry as the hub makes them: plain fields, an absolute path.
//
//vc:spec sealed
func entryOK(info RepoInfo, sep string) bool {
	return addrOK(info.Addr) && plain(info.Addr.Addr, sep) && plain(info.Addr.Branch, sep) && plain(info.AddReason, sep) &&
		plain(info.Path, sep) && plain(info.HelpStr, sep) && plain(info.OnOff, sep) && !IsPrefix(info.Path, "<hub>:")
}

//vc:spec
func sepOK(sep string) bool { return sep == "\t" }

//vc:lemma
//vc:reveal hubLine
func lineIsJoin(hub string, info RepoInfo, sep string) {
	Ensures(hubLine(hub, info, sep) == JoinTo(hubFields(hub, info), sep, 5))
	fs := hubFields(hub, info)
	Assert(JoinTo(fs, sep, 1) == fs[0])
	Assert(JoinTo(fs, sep, 2) == JoinTo(fs, sep, 1)+(sep+fs[1]))
	Assert(JoinTo(fs, sep, 3) == JoinTo(fs, sep, 2)+(sep+fs[2]))
	Assert(JoinTo(fs, sep, 4) == JoinTo(fs, sep, 3)+(sep+fs[3]))
	Assert(JoinTo(fs, sep, 5) == JoinTo(fs, sep, 4)+(sep+fs[4]))
}

// addrPlain, pathPlain: the written forms of an address and of a path are plain.
//
//vc:lemma
//vc:reveal plain
func addrPlain(a RepoAddr, sep string) {
	Requires(sepOK(sep) && plain(a.Addr, sep) && plain(a.Branch, sep))
	Ensures(plain(addrStr(a), sep))
}

//vc:lemma
//vc:reveal plain
func restPlain(s string, n int, sep string) {
	Requires(sepOK(sep) && plain(s, sep) && 0 <= n && n <= len(s))
	Ensures(plain(s[n:], sep))
	t := s[n:]
	Assert(Forall(0, len(t), func(i int) bool { Trig(t[i]); return t[i] == s[n+i] }))
}

//vc:lemma
//vc:reveal plain
func markPlain(s string, sep string) {
	Requires(sepOK(sep) && plain(s, sep))
	Ensures(plain("<hub>:"+s, sep))
	t := "<hub>:" + s
	Assert(Forall(6, len(t), func(i int) bool { Trig(t[i]); return t[i] == s[i-6] }))
}

//vc:lemma
func pathPlain(hub, path, sep string) {
	Requires(sepOK(sep) && plain(path, sep))
	Ensures(plain(relPath(hub, path), sep))
	if IsPrefix(path, hub) {
		restPlain(path, len(hub), sep)
		markPlain(path[len(hub):], sep)
	}
}

//vc:lemma
//vc:reveal plain
func joinPlain(fs []string, sep string) {
	line := JoinTo(fs, sep, len(fs))
	Requires(sepOK(sep) && len(fs) > 1)
	Requires(Forall(0, len(fs), func(i int) bool { Trig(fs[i]); return plain(fs[i], sep) }))
	Ensures(IsLine(line))
	Ensures(strings.Trim(line, "\n\r") == line)
	Ensures(Eq(strings.Split(line, sep), fs))
	JoinNoByte(fs, sep, len(fs), '\n')
	JoinNoByte(fs, sep, len(fs), '\r')
	SplitBack(fs, sep)
}

// lineBack: the line of an entry is one line and is read back as the entry.
//
//vc:lemma
//vc:reveal lineOK parsedInfo entryOK
func lineBack(hub string, info RepoInfo, sep string) {
	Requires(sepOK(sep) && entryOK(info, sep))
	line := hubLine(hub, info, sep)
	Ensures(IsLine(line))
	Ensures(lineOK(line, sep) && parsedInfo(hub, line, sep) == info, "an entry written is read back")
	addrPlain(info.Addr, sep)
	pathPlain(hub, info.Path, sep)
	addrBack(info.Addr)
	fs := hubFields(hub, info)
	Assert(len(fs) == 5)
	Assert(plain(fs[0], sep))
	Assert(plain(fs[1], sep))
	Assert(plain(fs[2], sep))
	Assert(plain(fs[3], sep))
	Assert(plain(fs[4], sep))
	Assert(Forall(0, len(fs), func(i int) bool {
		Trig(fs[i])
		return i == 0 || i == 1 || i == 2 || i == 3 || i == 4
	}))
	joinPlain(fs, sep)
	lineIsJoin(hub, info, sep)
	Assert(line == JoinTo(fs, sep, len(fs)))
	Assert(Eq(strings.Split(strings.Trim(line, "\n\r"), sep), fs))
}

//vc:lemma
func linesBack(hub string, infos []RepoInfo, sep string, n int) {
	Requires(0 <= n && n <= len(infos) && sepOK(sep) && Forall(0, n, func(i int) bool { Trig(infos[i]); return entryOK(infos[i], sep) }))
	Ensures(Forall(0, n, func(i int) bool {
		Trig(infos[i])
		line := hubLine(hub, infos[i], sep)
		return IsLine(line) && lineOK(line, sep) && parsedInfo(hub, line, sep) == infos[i]
	}))
	Decreases(n)
	if n > 0 {
		linesBack(hub, infos, sep, n-1)
		lineBack(hub, infos[n-1], sep)
	}
}

//vc:spec
//vc:dec n
func hubLines(hub string, infos []RepoInfo, sep string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	return append(hubLines(hub, infos, sep, n-1), hubLine(hub, infos[n-1], sep))
}

//vc:lemma
func hubLinesAre(hub string, infos []RepoInfo, sep string, n int) {
	Requires(0 <= n && n <= len(infos))
	Ensures(len(hubLines(hub, infos, sep, n)) == n)
	Ensures(Forall(0, n, func(i int) bool {
		Trig(infos[i])
		Trig(hubLines(hub, infos, sep, n)[i])
		return hubLines(hub, infos, sep, n)[i] == hubLine(hub, infos[i], sep)
	}))
	Ensures(hubText(hub, infos, sep, n) == TextOf(hubLines(hub, infos, sep, n), n))
	Decreases(n)
	if n > 0 {
		hubLinesAre(hub, infos, sep, n-1)
		TextCat(hubLines(hub, infos, sep, n-1), []string{hubLine(hub, infos[n-1], sep)}, n-1)
		Assert(Eq(hubLines(hub, infos, sep, n), append(hubLines(hub, infos, sep, n-1), []string{hubLine(hub, infos[n-1], sep)}...)))
	}
}

// hubBack: a hub list written and read is the same list.
//
//vc:lemma
func hubBack(hub string, infos []RepoInfo, sep string) {
	Requires(sepOK(sep) && Forall(0, len(infos), func(i int) bool { Trig(infos[i]); return entryOK(infos[i], sep) }))
	Ensures(isHubList(hub, hubText(hub, infos, sep, len(infos)), sep, infos), "a list written is read back")
	hubLinesAre(hub, infos, sep, len(infos))
	linesBack(hub, infos, sep, len(infos))
	ls := hubLines(hub, infos, sep, len(infos))
	Assert(Forall(0, len(ls), func(i int) bool { Trig(ls[i]); return ls[i] == hubLine(hub, infos[i], sep) && IsLine(ls[i]) }))
	Assert(Eq(LinesOf(TextOf(ls, len(ls))), ls))
}

// hubOnly: reading is a function of the file, so the list read after a write is the list written.
//
//vc:lemma
func hubOnly(hub, text, sep string, a, b []RepoInfo) {
	Requires(isHubList(hub, text, sep, a) && isHubList(hub, text, sep, b))
	Ensures(Eq(a, b))
}

// hubEntries: the entries of the first n lines.
//
//vc:spec
//vc:dec n
func hubEntries(hub string, lines []string, sep string, n int) []RepoInfo {
	if n <= 0 {
		return []RepoInfo{}
	}
	return append(hubEntries(hub, lines, sep, n-1), parsedInfo(hub, lines[n-1], sep))
}

// names for the contracts of other packages

//vc:spec
func HubEntries(hub, text, sep string) []RepoInfo {
	return hubEntries(hub, LinesOf(text), sep, len(LinesOf(text)))
}

//vc:spec
func HubText(hub string, infos []RepoInfo, sep string) string { return hubText(hub, infos, sep, len(infos)) }

//vc:spec
func AddrText(a RepoAddr) string { return addrStr(a) }

// hubEntriesAre: the list read is the list of the entries of the lines.
//
//vc:lemma
func hubEntriesAre(hub string, lines []string, sep string, n int) {
	Requires(0 <= n && n <= len(lines))
	Ensures(len(hubEntries(hub, lines, sep, n)) == n)
	Ensures(Forall(0, n, func(i int) bool {
		Trig(hubEntries(hub, lines, sep, n)[i])
		return hubEntries(hub, lines, sep, n)[i] == parsedInfo(hub, lines[i], sep)
	}))
	Decreases(n)
	if n > 0 {
		hubEntriesAre(hub, lines, sep, n-1)
	}
}

// hubBack2: the same for the list the reader gives.
//
//vc:lemma auto
func hubBack2(hub string, infos []RepoInfo, sep string) {
	Trig(HubEntries(hub, HubText(hub, infos, sep), sep))
	ls := LinesOf(HubText(hub, infos, sep))
	Ensures(Implies(sepOK(sep) && Forall(0, len(infos), func(i int) bool { Trig(infos[i]); return entryOK(infos[i], sep) }),
		Eq(HubEntries(hub, HubText(hub, infos, sep), sep), infos)), "a list written is read back")
	if sepOK(sep) && Forall(0, len(infos), func(i int) bool { Trig(infos[i]); return entryOK(infos[i], sep) }) {
		hubBack(hub, infos, sep)
		hubEntriesAre(hub, ls, sep, len(ls))
	}
}

// ---- which entries a command means (C16)

// entryName: the text an entry is found by.
//
//vc:spec
func entryName(info RepoInfo) string {
	if len(addrStr(info.Addr)) == 0 {
		return info.Path
	}
	return addrStr(info.Addr)
}

// firstNamed: the first of n entries with exactly this name, or -1.
//
//vc:spec
//vc:dec n
func firstNamed(infos []RepoInfo, s string, n int) int {
	if n <= 0 {
		return -1
	}
	if firstNamed(infos, s, n-1) >= 0 {
		return firstNamed(infos, s, n-1)
	}
	if entryName(infos[n-1]) == s {
		return n - 1
	}
	return -1
}

// nameHas: the name of the entry contains the text.
//
//vc:spec
func nameHas(info RepoInfo, s string) bool { return strings.Index(entryName(info), s) >= 0 }

//vc:lemma
func nameHasIs(info RepoInfo, s string) {
	Ensures(nameHas(info, s) == HasSub(entryName(info), s), "contains means contains")
}

// named: the first n entries whose name contains the text, or those whose name does not.
//
//vc:spec
//vc:dec n
func named(infos []RepoInfo, s string, yes bool, n int) []RepoInfo {
	if n <= 0 {
		return []RepoInfo{}
	}
	if nameHas(infos[n-1], s) == yes {
		return append(named(infos, s, yes, n-1), infos[n-1])
	}
	return named(infos, s, yes, n-1)
}

// Chosen: the entries a find text means: all for none, the one of exactly this name, else all whose
// name contains it.
//
//vc:spec
func Chosen(infos []RepoInfo, s string) []RepoInfo {
	if len(s) == 0 {
		return infos
	}
	if firstNamed(infos, s, len(infos)) >= 0 {
		return []RepoInfo{infos[firstNamed(infos, s, len(infos))]}
	}
	return named(infos, s, true, len(infos))
}

// Others: all other entries.
//
//vc:spec
func Others(infos []RepoInfo, s string) []RepoInfo {
	if len(s) == 0 {
		return []RepoInfo{}
	}
	if firstNamed(infos, s, len(infos)) >= 0 {
		return append(infos[:firstNamed(infos, s, len(infos))], infos[firstNamed(infos, s, len(infos))+1:]...)
	}
	return named(infos, s, false, len(infos))
}

// firstNamedOnly: the first one found stays the first one.
//
//vc:lemma
func firstNamedOnly(infos []RepoInfo, s string, k, n int) {
	Requires(0 <= k && k <= n && n <= len(infos) && firstNamed(infos, s, k) >= 0)
	Ensures(firstNamed(infos, s, n) == firstNamed(infos, s, k))
	Decreases(n)
	if n > k {
		firstNamedOnly(infos, s, k, n-1)
	}
}

//vc:lemma auto
func firstNamedOnlyAuto(infos []RepoInfo, s string, k, n int) {
	Trig(firstNamed(infos, s, k))
	Trig(firstNamed(infos, s, n))
	Ensures(Implies(0 <= k && k <= n && n <= len(infos) && firstNamed(infos, s, k) >= 0, firstNamed(infos, s, n) == firstNamed(infos, s, k)))
	if 0 <= k && k <= n && n <= len(infos) && firstNamed(infos, s, k) >= 0 {
		firstNamedOnly(infos, s, k, n)
	}
}

//vc:contract ExtractAddrFromList
func _(infos []RepoInfo, findStr string) (extracted []RepoInfo, rest []RepoInfo) {
	NoAlloc()
	Clobbers(infos)
	Ensures(Eq(extracted, Chosen(infos, findStr)), "the entries the text means")
	Ensures(Eq(rest, Others(infos, findStr)), "all other entries, in their order")
	//vc:inv 0: Eq(infos, Old(infos)) && firstNamed(infos, findStr, Iter()) < 0
	//vc:use 0: firstNamedOnlyAuto(Old(infos), findStr, Iter()+1, len(Old(infos)))
	//vc:inv 0: Eq(extracted, named(Old(infos), findStr, true, Iter()))
	//vc:inv 0: Eq(rest, named(Old(infos), findStr, false, Iter()))
	return
}

// chosenAll: every entry is in one of the two lists, as often as before.
//
//vc:lemma
func namedAll(infos []RepoInfo, s string, n int) {
	Requires(0 <= n && n <= len(infos))
	Ensures(len(named(infos, s, true, n))+len(named(infos, s, false, n)) == n, "no entry is lost or doubled")
	Decreases(n)
	if n > 0 {
		namedAll(infos, s, n-1)
	}
}

//vc:lemma
func firstNamedIs(infos []RepoInfo, s string, n int) {
	Requires(0 <= n && n <= len(infos))
	k := firstNamed(infos, s, n)
	Ensures(-1 <= k && k < n && Implies(k >= 0, entryName(infos[k]) == s))
	Decreases(n)
	if n > 0 {
		firstNamedIs(infos, s, n-1)
	}
}

//vc:lemma
func chosenAll(infos []RepoInfo, s string) {
	Ensures(len(Chosen(infos, s))+len(Others(infos, s)) == len(infos), "no entry is lost or doubled")
	namedAll(infos, s, len(infos))
	firstNamedIs(infos, s, len(infos))
}
