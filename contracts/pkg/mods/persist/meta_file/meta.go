//go:build go1.21

package meta_file

import (
	"io"
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- meta files and flow files (C05, C17)

// metaOK: every section to be written is there.
//
//vc:spec
func metaOK(m *MetaFile) bool {
	return len(m.lineSep) > 0 && Forall(0, len(m.orderedKeys), func(i int) bool {
		Trig(m.orderedKeys[i])
		return Has(m.sections, m.orderedKeys[i]) && Live(m.sections[m.orderedKeys[i]])
	})
}

// moreText: the lines of a value from the second to the n-th.
//
//vc:spec
//vc:dec n
func moreText(base string, xs []string, n int) string {
	if n <= 1 {
		return base
	}
	if n == len(xs) {
		return moreText(base, xs, n-1) + ("    " + xs[n-1] + "\n")
	}
	return moreText(base, xs, n-1) + ("    " + xs[n-1] + " \\\n")
}

// keyText: a pair, each line but the last with the mark that another one follows.
//
//vc:spec opaque
func keyText(base, key, val, kv, ls string) string {
	if len(strings.Split(val, ls)) == 1 {
		return base + (key + " " + kv + " " + val + "\n")
	}
	return moreText(base+(key+" "+kv+" "+strings.Split(val, ls)[0]+" \\\n"), strings.Split(val, ls), len(strings.Split(val, ls)))
}

//vc:spec
//vc:dec n
func sectionText(base string, sec *Section, kv, ls string, n int) string {
	if n <= 0 {
		return base
	}
	if len(strings.Split(sec.pairs[sec.orderedKeys[n-1]], ls)) > 1 && n != len(sec.orderedKeys) {
		return keyText(sectionText(base, sec, kv, ls, n-1), sec.orderedKeys[n-1], sec.pairs[sec.orderedKeys[n-1]], kv, ls) + "\n"
	}
	return keyText(sectionText(base, sec, kv, ls, n-1), sec.orderedKeys[n-1], sec.pairs[sec.orderedKeys[n-1]], kv, ls)
}

//vc:spec
func headText(base, name string) string {
	if len(name) == 0 {
		return base
	}
	return base + ("[" + name + "]\n")
}

// metaText: the text of the first n sections.
//
//vc:spec
//vc:dec n
func metaText(base string, m *MetaFile, n int) string {
	if n <= 0 {
		return base
	}
	if n != len(m.orderedKeys) {
		return sectionText(headText(metaText(base, m, n-1), m.orderedKeys[n-1]), m.sections[m.orderedKeys[n-1]], m.kvSep, m.lineSep, len(m.sections[m.orderedKeys[n-1]].orderedKeys)) + "\n"
	}
	return sectionText(headText(metaText(base, m, n-1), m.orderedKeys[n-1]), m.sections[m.orderedKeys[n-1]], m.kvSep, m.lineSep, len(m.sections[m.orderedKeys[n-1]].orderedKeys))
}

// save writes into a buffer, which reports no errors.
//
//vc:contract MetaFile.save
//vc:reveal keyText
func _(self *MetaFile, w io.Writer) {
	NoAlloc()
	Requires(Live(self) && metaOK(self) && IsBuffer(NameOf(w)))
	Modifies(DiskText(NameOf(w)))
	Ensures(DiskText(NameOf(w)) == metaText(Old(DiskText(NameOf(w))), self, len(self.orderedKeys)), "every section, key and value is written")
	//vc:inv 0: DiskText(NameOf(w)) == moreText(Old(DiskText(NameOf(w)))+(key+" "+self.kvSep+" "+strings.Split(val, self.lineSep)[0]+" \\\n"), strings.Split(val, self.lineSep), Iter()+1)
	//vc:inv 1: DiskText(NameOf(w)) == metaText(Old(DiskText(NameOf(w))), self, Iter())
	//vc:inv 2: DiskText(NameOf(w)) == sectionText(headText(metaText(Old(DiskText(NameOf(w))), self, Iter(1)), name), section, self.kvSep, self.lineSep, Iter())
	return
}

//vc:contract MetaFile.Save
func _(self *MetaFile) {
	Requires(Live(self) && metaOK(self))
	MayPanic()
	path := self.path
	Modifies(DiskText)
	Ensures(ForallStr(func(f string) bool {
		Trig(DiskText(f))
		return Implies(f != path && f != path+".tmp" && !IsBuffer(f), DiskText(f) == Old(DiskText(f)))
	}), "no other file is changed")
	Ensures(DiskText(path) == metaText("", self, len(self.orderedKeys)), "the file holds every section, key and value")
	Always(DiskText(path) == Old(DiskText(path)) || DiskText(path) == metaText("", self, len(self.orderedKeys)), "old or new file at every moment")
	return
}

//vc:contract CreateMetaFile
func _(path string) (meta *MetaFile) {
	Ensures(Fresh(meta) && Live(meta) && metaOK(meta) && Fresh(meta.sections) && Live(meta.sections))
	Ensures(meta.path == path && meta.lineSep == "\n" && meta.kvSep == "=")
	Ensures(len(meta.orderedKeys) == 0 && ForallStr(func(k string) bool { Trig(Has(meta.sections, k)); return !Has(meta.sections, k) }))
	return
}

//vc:contract NewSection
func _() (r *Section) {
	Ensures(Fresh(r) && Live(r) && Live(r.pairs) && Fresh(r.pairs))
	Ensures(len(r.orderedKeys) == 0 && ForallStr(func(k string) bool { Trig(Has(r.pairs, k)); return !Has(r.pairs, k) }))
	return
}

//vc:contract MetaFile.NewOrGetSection
func _(self *MetaFile, key string) (r *Section) {
	Requires(Live(self) && Live(self.sections) && metaOK(self))
	Modifies(self.sections, &self.orderedKeys)
	Ensures(metaOK(self))
	Ensures(Has(self.sections, key) && self.sections[key] == r)
	Ensures(Implies(Old(Has(self.sections, key)), MapSame(self.sections) && Eq(self.orderedKeys, Old(self.orderedKeys))))
	Ensures(Implies(!Old(Has(self.sections, key)), Fresh(r) && Live(r) && Live(r.pairs) && Fresh(r.pairs) && len(r.orderedKeys) == 0 && Eq(self.orderedKeys, append(Old(self.orderedKeys), key))))
	Ensures(Implies(!Old(Has(self.sections, key)), ForallStr(func(k string) bool { Trig(Has(r.pairs, k)); return !Has(r.pairs, k) })))
	Ensures(ForallStr(func(k string) bool { Trig(Has(self.sections, k)); return Implies(k != key, Has(self.sections, k) == Old(Has(self.sections, k))) }), "other sections stay")
	Ensures(ForallStr(func(k string) bool { Trig(self.sections[k]); return Implies(k != key, self.sections[k] == Old(self.sections[k])) }), "other sections stay the same")
	return
}

//vc:contract MetaFile.GetGlobalSection
func _(self *MetaFile) (r *Section) {
	Requires(Live(self) && Live(self.sections) && metaOK(self))
	Modifies(self.sections, &self.orderedKeys)
	Ensures(metaOK(self))
	Ensures(Has(self.sections, "") && self.sections[""] == r)
	Ensures(Implies(Old(Has(self.sections, "")), MapSame(self.sections) && Eq(self.orderedKeys, Old(self.orderedKeys))))
	Ensures(Implies(!Old(Has(self.sections, "")), Fresh(r) && Live(r) && Live(r.pairs) && Fresh(r.pairs) && len(r.orderedKeys) == 0 && Eq(self.orderedKeys, append(Old(self.orderedKeys), ""))))
	Ensures(Implies(!Old(Has(self.sections, "")), ForallStr(func(k string) bool { Trig(Has(r.pairs, k)); return !Has(r.pairs, k) })))
	return
}

//vc:contract Section.Set
func _(self *Section, key string, val string) {
	NoAlloc()
	Requires(Live(self) && Live(self.pairs))
	Modifies(self.pairs, &self.orderedKeys)
	Ensures(Has(self.pairs, key) && self.pairs[key] == val, "the key has the value")
	Ensures(ForallStr(func(k string) bool { Trig(Has(self.pairs, k)); return Implies(k != key, Has(self.pairs, k) == Old(Has(self.pairs, k))) }), "other keys stay")
	Ensures(ForallStr(func(k string) bool { Trig(self.pairs[k]); return Implies(k != key, self.pairs[k] == Old(self.pairs[k])) }), "other keys keep their values")
	Ensures(Eq(self.orderedKeys, Ite(Old(Has(self.pairs, key)), Old(self.orderedKeys), append(Old(self.orderedKeys), key))), "a new key is the last one")
	return
}

//vc:contract Section.SetMultiLineVal
func _(self *Section, key string, val []string) {
	NoAlloc()
	Requires(Live(self) && Live(self.pairs))
	Modifies(self.pairs, &self.orderedKeys)
	Ensures(Has(self.pairs, key) && self.pairs[key] == JoinTo(val, "\n", len(val)), "the key has the lines")
	Ensures(ForallStr(func(k string) bool { Trig(Has(self.pairs, k)); return Implies(k != key, Has(self.pairs, k) == Old(Has(self.pairs, k))) }), "other keys stay")
	Ensures(ForallStr(func(k string) bool { Trig(self.pairs[k]); return Implies(k != key, self.pairs[k] == Old(self.pairs[k])) }), "other keys keep their values")
	Ensures(Eq(self.orderedKeys, Ite(Old(Has(self.pairs, key)), Old(self.orderedKeys), append(Old(self.orderedKeys), key))), "a new key is the last one")
	return
}

// for the packages which use this one

//vc:spec
func TextOfMeta(m *MetaFile) string { return metaText("", m, len(m.orderedKeys)) }

//vc:spec
func GlobalOf(m *MetaFile) *Section { return m.sections[""] }

//vc:spec
func SectionHas(s *Section, key string) bool { return Has(s.pairs, key) }

//vc:spec
func SectionVal(s *Section, key string) string { return s.pairs[key] }

var _ io.Writer
var _ = strings.Index
