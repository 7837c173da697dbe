//go:build go1.21

package flow_file

import (
	"strings"

	"github.com/innerr/ticat/pkg/mods/persist/meta_file"
	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- flow files (C05, C17)

//vc:spec
func keyIs(m *meta_file.MetaFile, key string, there bool, val string) bool {
	return meta_file.SectionHas(meta_file.GlobalOf(m), key) == there &&
		Implies(there, meta_file.SectionVal(meta_file.GlobalOf(m), key) == val)
}

// isFlow: the meta file holds the flow and its settings.
//
//vc:spec sealed
func isFlow(m *meta_file.MetaFile, flow []string, help, abbrs, trivial, autoArgs, packSub string) bool {
	return keyIs(m, "help", len(help) != 0, help) &&
		keyIs(m, "abbrs", len(abbrs) != 0, abbrs) &&
		keyIs(m, "trivial", len(strings.TrimSpace(trivial)) != 0 && strings.TrimSpace(trivial) != "0", strings.TrimSpace(trivial)) &&
		keyIs(m, "args.auto", true, Ite(len(autoArgs) == 0, "*", autoArgs)) &&
		keyIs(m, "pack-subflow", len(packSub) != 0, packSub) &&
		keyIs(m, "flow", len(flow) != 0, JoinTo(flow, "\n", len(flow)))
}

//vc:contract SaveFlowFile
//vc:reveal isFlow
func _(path string, flow []string, help string, abbrs string, trivial string, autoArgs string, packSub string) {
	MayPanic()
	Modifies(DiskText)
	Ensures(ForallStr(func(f string) bool {
		Trig(DiskText(f))
		return Implies(f != path && f != path+".tmp" && !IsBuffer(f), DiskText(f) == Old(DiskText(f)))
	}), "no other file is changed")
	Ensures(Some(func(m *meta_file.MetaFile) bool {
		Trig(meta_file.TextOfMeta(m))
		return isFlow(m, flow, help, abbrs, trivial, autoArgs, packSub) && DiskText(path) == meta_file.TextOfMeta(m)
	}), "the file holds the flow and its settings")
	Always(DiskText(path) == Old(DiskText(path)) || Some(func(m *meta_file.MetaFile) bool {
		Trig(meta_file.TextOfMeta(m))
		return isFlow(m, flow, help, abbrs, trivial, autoArgs, packSub) && DiskText(path) == meta_file.TextOfMeta(m)
	}), "old or new file at every moment")
	return
}

var _ = strings.Index
