//go:build go1.21

package model_test

import (
	"fmt"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

func TestVHErrs(t *testing.T) {
	c := vh.New(t, "random histories of tolerated errors of all kinds and sources; the groups they are kept in against lists")
	defer c.Done()
	for c.More() {
		c.TryLog("errs", func(say func(string, ...any)) string {
			errs := model.NewTolerableErrs()
			var plain []string
			groups := map[string][]string{}
			sources := []string{"", "s1", "s2", "a b", "s1 ", "builtin"}
			for i, n := 0, c.R.Intn(30); i < n; i++ {
				src, old := vh.Pick(c.R, sources...), vh.Pick(c.R, sources...)
				file, why := vh.Pick(c.R, "f1", "f2", ""), vh.Pick(c.R, "r1", "r2")
				text := fmt.Sprintf("err %d", i)
				var err any
				kind := c.R.Intn(5)
				switch kind {
				case 0:
					err = fmt.Errorf("%s", text)
				case 1:
					err = &model.CmdMissedArgValWhenRenderFlow{Str: text, Source: old}
				case 2:
					err = &model.CmdTreeErrExecutableConflicted{Str: text, CmdPath: []string{"x"}, OldSource: old}
				case 3:
					err = &model.CmdTreeErrSubCmdConflicted{Str: text, ParentCmdPath: []string{"x"}, SubCmdName: "y", OldSource: old}
				case 4:
					err = &model.CmdTreeErrSubAbbrConflicted{Str: text, ParentCmdPath: []string{"x"}, Abbr: "y", ForOldCmdName: "a", ForNewCmdName: "b", OldSource: old}
				}
				say("%T %q of %q in conflict with %q file %q", err, text, src, old, file)
				errs.OnErr(err, src, file, why)
				is := fmt.Sprint(text, "|", file, "|", src, "|", why)
				if kind < 2 {
					plain = append(plain, is)
				} else {
					groups[old+"\x00"+src] = append(groups[old+"\x00"+src], is)
				}
			}
			show := func(list []model.TolerableErr) (r []string) {
				for _, e := range list {
					r = append(r, fmt.Sprint(e.Err.(error).Error(), "|", e.File, "|", e.Source, "|", e.Reason))
				}
				return
			}
			if got := show(errs.Uncatalogeds); fmt.Sprint(got) != fmt.Sprint(plain) {
				return fmt.Sprintf("kept without a conflict: %q, want %q", got, plain)
			}
			got := map[string][]string{}
			for src, list := range errs.ConflictedWithBuiltin {
				got["\x00"+src] = show(list)
			}
			for old, bySrc := range errs.Conflicteds {
				if old == "" {
					return "builtin conflicts are grouped twice"
				}
				for src, list := range bySrc {
					got[old+"\x00"+src] = show(list)
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(groups) {
				return fmt.Sprintf("conflicts are grouped %q, want %q", got, groups)
			}
			return ""
		})
	}
}
