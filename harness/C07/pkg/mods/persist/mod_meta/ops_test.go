//go:build go1.21

package mod_meta

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

func TestVHDeclaredOperations(t *testing.T) {
	c := vh.New(t, "module files with random env operations; the operations of the command against the file")
	defer c.Done()
	r := c.R
	path := filepath.Join(vh.Work(), "m.ticat")
	for c.More() {
		lines := []string{"help = h", "[env]"}
		blank := func() string { return vh.Pick(r, "", " ", "\t", "  ") }
		want := ""
		for i := 0; i < 1+r.Intn(4); i++ {
			k := fmt.Sprintf("k%d.l", i)
			sep := vh.Pick(r, ":", "|")
			var ops []string
			want += k
			for j := 1 + r.Intn(3); j > 0; j-- {
				kinds := [][]string{{"read", "rd", "r", "Read", "R"}, {"write", "w", "W"}, {"may-read", "may-rd", "opt-read", "mayread"}, {"may-write", "may-w", "opt-write"}}
				n := r.Intn(4)
				ops = append(ops, blank()+vh.Pick(r, kinds[n]...)+blank())
				want += " " + model.EnvOpStr([]uint{model.EnvOpTypeRead, model.EnvOpTypeWrite, model.EnvOpTypeMayRead, model.EnvOpTypeMayWrite}[n])
			}
			want += "; "
			lines = append(lines, k+" = "+strings.Join(ops, sep))
		}
		text := strings.Join(lines, "\n") + "\n"
		c.Try("RegMod", text, func() string {
			os.WriteFile(path, []byte(text), 0o644)
			cc := &model.Cli{Cmds: model.NewCmdTree(model.CmdTreeStrsForTest()), EnvAbbrs: model.NewEnvAbbrs("<root>"), TolerableErrs: model.NewTolerableErrs(), Arg2EnvAutoMapCmds: model.Arg2EnvAutoMapCmds{}}
			RegMod(cc, path, "", false, false, []string{"zm"}, ".tiflow", "|", ".", "src", false)
			ops := cc.Cmds.GetSub("zm").Cmd().EnvOps()
			got := ""
			for _, k := range ops.RawEnvKeys() {
				got += k
				for _, op := range ops.Ops(k) {
					got += " " + model.EnvOpStr(op)
				}
				got += "; "
			}
			if got != want {
				return fmt.Sprintf("declared %q, expected %q", got, want)
			}
			return ""
		})
	}
}
