package model

import (
	. "github.com/innerr/ticat/pkg/vstd"
)

// oldSourceOf: the source of the definition a conflict is with, "" for builtin commands.
//
//vc:spec uf
func oldSourceOf(err ErrConflicted) (r string) { return }

//vc:trusted the conflict errors of the program return a field
//vc:contract ErrConflicted.GetOldSource
func _(err ErrConflicted) (r string) {
	NoAlloc()
	Ensures(r == oldSourceOf(err))
	return
}

// errsWF: the groups of conflicts are separate.
//
//vc:spec
func errsWF(e *TolerableErrs) bool {
	return Live(e.ConflictedWithBuiltin) && Live(e.Conflicteds) &&
		ForallStr(func(s string) bool {
			Trig(Has(e.Conflicteds, s))
			return Implies(Has(e.Conflicteds, s), Live(e.Conflicteds[s]) && Addr(e.Conflicteds[s]) != Addr(e.ConflictedWithBuiltin) &&
				ForallStr(func(t string) bool {
					Trig(Has(e.Conflicteds, t))
					return Implies(Has(e.Conflicteds, t) && s != t, Addr(e.Conflicteds[s]) != Addr(e.Conflicteds[t]))
				}))
		})
}

// errList: the errors of a source in conflict with another one.
//
//vc:spec
func errList(e *TolerableErrs, old string, source string) []TolerableErr {
	return Ite(old == "", e.ConflictedWithBuiltin[source], Ite(Has(e.Conflicteds, old), e.Conflicteds[old][source], []TolerableErr{}))
}

//vc:contract NewTolerableErrs
func _() (r *TolerableErrs) {
	Ensures(Fresh(r) && errsWF(r))
	Ensures(len(r.Uncatalogeds) == 0 && ForallStr(func(o string) bool {
		return ForallStr(func(s string) bool { Trig(errList(r, o, s)); return len(errList(r, o, s)) == 0 })
	}))
	return
}

//vc:contract TolerableErrs.OnErr
func _(self *TolerableErrs, err interface{}, source string, file string, reason string) {
	Requires(self != nil && errsWF(self))
	it := TolerableErr{err, file, source, reason}
	conflict := TypeIs(err, ErrConflicted(nil))
	Modifies(&self.Uncatalogeds)
	Modifies(self.Conflicteds, self.ConflictedWithBuiltin, self.Conflicteds[oldSourceOf(Unbox(err, ErrConflicted(nil)))])
	Ensures(errsWF(self))
	Ensures(Eq(self.Uncatalogeds, Ite(conflict, Old(self.Uncatalogeds), append(Old(self.Uncatalogeds), it))), "an error that is no conflict is kept, once, after the ones before it")
	Ensures(ForallStr(func(o string) bool {
		return ForallStr(func(s string) bool {
			Trig(errList(self, o, s))
			return Eq(errList(self, o, s), Ite(conflict && o == oldSourceOf(Unbox(err, ErrConflicted(nil))) && s == source, append(Old(errList(self, o, s)), it), Old(errList(self, o, s))))
		})
	}), "a conflict is kept, once, under its source and the one it is in conflict with")
	return
}

//vc:contract TolerableErrs.TakeUnreported
func _(self *TolerableErrs) (r *TolerableErrs) {
	Requires(self != nil && errsWF(self))
	Modifies(&self.Uncatalogeds, &self.ConflictedWithBuiltin, &self.Conflicteds)
	Ensures(errsWF(self) && errsWF(r) && Fresh(r))
	Ensures(Eq(r.Uncatalogeds, Old(self.Uncatalogeds)) && ForallStr(func(o string) bool {
		return ForallStr(func(s string) bool {
			Trig(errList(r, o, s))
			return Eq(errList(r, o, s), Old(errList(self, o, s)))
		})
	}), "every error kept is reported")
	Ensures(len(self.Uncatalogeds) == 0 && ForallStr(func(o string) bool {
		return ForallStr(func(s string) bool { Trig(errList(self, o, s)); return len(errList(self, o, s)) == 0 })
	}), "and not again")
	return
}

//vc:contract CmdTreeErrExecutableConflicted.GetOldSource
func _(self CmdTreeErrExecutableConflicted) (r string) {
	NoAlloc()
	Ensures(r == self.OldSource, "the conflict is with the definition it was found with")
	return
}

//vc:contract CmdTreeErrSubCmdConflicted.GetOldSource
func _(self CmdTreeErrSubCmdConflicted) (r string) {
	NoAlloc()
	Ensures(r == self.OldSource, "the conflict is with the definition it was found with")
	return
}

//vc:contract CmdTreeErrSubAbbrConflicted.GetOldSource
func _(self CmdTreeErrSubAbbrConflicted) (r string) {
	NoAlloc()
	Ensures(r == self.OldSource, "the conflict is with the definition it was found with")
	return
}
