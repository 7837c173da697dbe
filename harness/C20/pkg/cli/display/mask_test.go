//go:build go1.21

package display_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/cli/display"
	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

type screen struct{ text string }

func (s *screen) Print(t string)      { s.text += t }
func (s *screen) Error(t string)      { s.text += t }
func (s *screen) OutputtedLines() int { return strings.Count(s.text, "\n") }

func sensitive(key, val string) bool {
	k := strings.ToLower(key)
	hit := false
	for _, w := range []string{"pwd", "password", "passphrase", "secret", "private"} {
		hit = hit || strings.Contains(k, w)
	}
	for _, w := range strings.Fields("true t 1 on y yes false f 0 off n no") {
		if strings.ToLower(val) == w {
			return false
		}
	}
	return hit
}

func shown(show bool, key, val string) string {
	if !show && sensitive(key, val) && val != "" {
		val = "***"
	}
	if len(strings.Fields(val)) != 1 || strings.TrimSpace(val) != val {
		return "'" + val + "'"
	}
	return val
}

func TestVHMask(t *testing.T) {
	c := vh.New(t, "env and argument displays show a sensitive value only as a mask, whatever the value is")
	defer c.Done()
	names := []string{"password", "db.PWD", "user", "my-secret", "Private.key", "passphrase", "pass", "x", "pwd2", "secretary", "port", "verbose"}
	vals := []string{"hunter2", "ab cd", "on", "", "No", " lead", "12345678", "q", "***"}
	for c.More() {
		if c.R.Intn(4000) == 0 && !c.Deep {
			break
		}
		show, color := c.R.Intn(4) == 0, c.R.Intn(3) == 0
		kv, ak := map[string]string{}, map[string]string{}
		for i := c.R.Intn(4); i >= 0; i-- {
			kv[vh.Pick(c.R, names...)] = vh.Pick(c.R, vals...)
		}
		for i := c.R.Intn(4); i >= 0; i-- {
			ak[vh.Pick(c.R, names...)] = vh.Pick(c.R, vals...)
		}
		defs := map[string]string{}
		for _, n := range names {
			if c.R.Intn(4) == 0 {
				defs[n] = vh.Pick(c.R, vals...)
			}
		}
		c.Try("displays", fmt.Sprintf("env %q args %q defaults %q display.sensitive %v colors %v", kv, ak, defs, show, color), func() string {
			base := model.NewEnvEx(model.EnvLayerDefault)
			base.SetBool("display.sensitive", show)
			base.SetBool("display.color", color)
			base.Set("strs.env-path-sep", ".")
			env := base.NewLayer(model.EnvLayerSession)
			for k, v := range kv {
				env.Set(k, v)
			}
			key := func(k string) string { return display.ColorKey(k, env) + display.ColorSymbol(" = ", env) }
			// key values
			for k, v := range kv {
				if g, w := display.KeyValueDisplayStr(k, v, env), key(k)+shown(show, k, v); g != w {
					return fmt.Sprintf("KeyValueDisplayStr(%q) gives %q, want %q", k, g, w)
				}
				g, _ := display.KeyValueDisplayStrEx(k, v, env, nil)
				if w := key(k) + shown(show, k, v); g != w {
					return fmt.Sprintf("KeyValueDisplayStrEx(%q) gives %q, want %q", k, g, w)
				}
			}
			var want []string
			for k, v := range kv {
				want = append(want, key(k)+shown(show, k, v))
			}
			sort.Strings(want)
			s := &screen{}
			display.DumpEssentialEnvFlattenVals(s, env)
			got := strings.Split(strings.TrimSuffix(s.text, "\n"), "\n")
			sort.Strings(got)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				return fmt.Sprintf("DumpEssentialEnvFlattenVals gives %q, want %q", got, want)
			}
			s = &screen{}
			display.DumpEnvFlattenVals(s, env)
			tree := &screen{}
			display.DumpEnvTree(tree, env, 4)
			for _, o := range []string{s.text, tree.text} {
				lines := map[string]bool{}
				for _, l := range strings.Split(o, "\n") {
					lines[strings.TrimPrefix(strings.TrimLeft(l, " "), "- ")] = true
				}
				for _, w := range want {
					if !lines[w] {
						return fmt.Sprintf("the env dump lacks the line %q: %q", w, o)
					}
				}
				for k, v := range kv {
					if lines[key(k)+v] && shown(show, k, v) != v {
						return fmt.Sprintf("the env dump shows the value of %q: %q", k, o)
					}
				}
			}
			// arguments
			cmds := model.NewCmdTree(model.CmdTreeStrsForTest())
			sub := cmds.AddSub("cmd")
			cmd := sub.RegEmptyCmd("help")
			for _, n := range names {
				cmd.AddArg(n, defs[n])
			}
			args := cmd.Args()
			argv := model.ArgVals{}
			for k, v := range ak {
				argv[k] = model.ArgVal{Raw: v, Provided: true}
			}
			plain := map[string]bool{}
			var wantP, wantE []string
			for _, n := range args.Names() {
				if v, ok := ak[n]; ok {
					if color {
						wantP = append(wantP, display.ColorArg(n, env)+display.ColorSymbol(" = ", env)+shown(show, n, v))
					} else {
						wantP = append(wantP, n+" = "+shown(show, n, v))
					}
				}
				v, ok := ak[n]
				if !ok {
					v = defs[n]
				}
				if ok || v != "" {
					wantE = append(wantE, display.ColorArg(n, env)+" "+display.ColorSymbol("=", env)+" "+shown(show, n, v))
				}
			}
			if g := display.DumpProvidedArgs(env, &args, argv, color); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", wantP) {
				return fmt.Sprintf("DumpProvidedArgs gives %q, want %q", g, wantP)
			}
			if g := display.DumpEffectedArgs(env, cmd.GetArg2Env(), &args, argv, display.FlowWrittenKeys{}, 0); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", wantE) {
				return fmt.Sprintf("DumpEffectedArgs gives %q, want %q", g, wantE)
			}
			sys := model.SysArgVals{}
			for k, v := range ak {
				sys[k] = v
				plain["[sys] "+k+" = "+shown(show, k, v)] = true
			}
			for _, l := range display.DumpSysArgs(env, sys, false) {
				if !plain[l] {
					return fmt.Sprintf("DumpSysArgs gives %q, want one of %q", l, plain)
				}
			}
			return ""
		})
	}
}
