//go:build go1.21

package mod_meta

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

func TestVHModuleDeclarations(t *testing.T) {
	c := vh.New(t, "module files with random argument, fixed value and mapping sections; the declarations of the command against the file")
	defer c.Done()
	r := c.R
	dir := vh.Work()
	path := filepath.Join(dir, "m.ticat")
	for c.More() {
		lines := []string{"help = h"}
		key := func(used map[string]bool) (string, string) {
			for {
				w, k := "", ""
				n := 1 + r.Intn(3)
				for i := 0; i < n; i++ {
					if i > 0 {
						w += "."
						k += "."
					}
					s := vh.Pick(r, "k", "l", "mm", "o-p", "z_1")
					k += s
					w += s
					if r.Intn(5) == 0 {
						w += "|" + s + fmt.Sprint(i) + strings.Repeat("q", i)
					}
				}
				if !used[k] {
					used[k] = true
					return w, k
				}
			}
		}
		blank := func() string { return vh.Pick(r, "", " ", "  ", "\t") }
		var args []string
		lines = append(lines, vh.Pick(r, "[args]", "[arg]"))
		for i := r.Intn(4); i > 0; i-- {
			a := fmt.Sprintf("a%d", i)
			args = append(args, a)
			lines = append(lines, a+vh.Pick(r, "", "|A"+a, " | A"+a)+blank()+"="+blank()+vh.Pick(r, "", "d", "x y"))
		}
		var vorder, vals []string
		used := map[string]bool{}
		lines = append(lines, vh.Pick(r, "[val2env]", "[env.write]"))
		for i := r.Intn(4); i > 0; i-- {
			w, k := key(used)
			v := vh.Pick(r, "", "1", "v w", "[[a1]]", "x=y", "a|b", "--")
			vorder = append(vorder, k)
			vals = append(vals, v)
			lines = append(lines, blank()+w+blank()+"="+blank()+v+blank())
		}
		var aorder, names []string
		used = map[string]bool{}
		lines = append(lines, vh.Pick(r, "[arg2env]", "[env.from-arg]", "[env.arg]"))
		for _, a := range args {
			if r.Intn(2) == 0 {
				w, k := key(used)
				aorder = append(aorder, k)
				names = append(names, a)
				lines = append(lines, w+blank()+"="+blank()+a)
			}
		}
		text := strings.Join(lines, "\n") + "\n"
		c.Try("mapper.module", fmt.Sprintf("%q", text), func() string {
			if err := os.WriteFile(path, []byte(text), 0644); err != nil {
				return err.Error()
			}
			tree := model.NewCmdTree(model.CmdTreeStrsForTest())
			abbrs := model.NewEnvAbbrs("<root>")
			cc := &model.Cli{Cmds: tree, EnvAbbrs: abbrs, TolerableErrs: model.NewTolerableErrs(), Arg2EnvAutoMapCmds: model.Arg2EnvAutoMapCmds{}}
			RegMod(cc, path, "", false, false, []string{"zm"}, ".tiflow", "|", ".", "src", false)
			cmd := tree.GetSub("zm").Cmd()
			v := cmd.GetVal2Env()
			if fmt.Sprint(v.EnvKeys()) != fmt.Sprint(vorder) {
				return fmt.Sprintf("keys written %q, expected %q", v.EnvKeys(), vorder)
			}
			for i, k := range vorder {
				if v.Val(k) != vals[i] {
					return fmt.Sprintf("%s is written as %q, expected %q", k, v.Val(k), vals[i])
				}
			}
			a := cmd.GetArg2Env()
			if fmt.Sprint(a.EnvKeys()) != fmt.Sprint(aorder) {
				return fmt.Sprintf("keys mapped %q, expected %q", a.EnvKeys(), aorder)
			}
			for i, k := range aorder {
				if n, ok := a.GetEnvKey(names[i]); !ok || n != k || a.GetArgName(cmd, k, false) != names[i] {
					return fmt.Sprintf("%s is mapped to %q, expected %q", names[i], n, k)
				}
			}
			return ""
		})
	}
}
