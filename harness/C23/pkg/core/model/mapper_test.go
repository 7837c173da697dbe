//go:build go1.21

package model_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

func TestVHDeclaredWrites(t *testing.T) {
	c := vh.New(t, "commands with random fixed values and argument mappings, run with random arguments on random environments; every key of the environment against the declarations")
	defer c.Done()
	r := c.R
	layers := []model.EnvLayerType{model.EnvLayerDefault, model.EnvLayerPersisted, model.EnvLayerSession, model.EnvLayerSubFlow}
	keys := []string{"k", "l", "m.n", "m", "x.a", "a"}
	for c.More() {
		tree := model.NewCmdTree(model.CmdTreeStrsForTest())
		cmd := tree.GetOrAddSub("x").RegEmptyCmd("help")
		var names []string
		def := map[string]string{}
		for _, n := range []string{"a", "b", "cc"} {
			if r.Intn(4) != 0 {
				names = append(names, n)
				def[n] = vh.Pick(r, "", "", "d", "0")
				cmd.AddArg(n, def[n])
			}
		}
		log := ""
		val2env := map[string]string{}
		var order []string
		arg2env := map[string]string{}
		argKey := map[string]string{}
		bad := ""
		for n := r.Intn(6); n > 0; n-- {
			k := vh.Pick(r, keys...)
			if r.Intn(2) == 0 {
				v := vh.Pick(r, "", "1", "true", "v w", "--", "x=y", "[[k", "[[a]]", "p[[l]]q", "**[[*k*]]**", "]]", "#")
				_, dup := val2env[k]
				p, _ := vh.Panics(func() { cmd.AddVal2Env(k, v) })
				if p != dup {
					bad = fmt.Sprintf("declaring the value %q of %q: rejected %v", v, k, p)
				}
				if !dup {
					val2env[k] = v
					order = append(order, k)
				}
				log += fmt.Sprintf(" %s:=%q", k, v)
			} else {
				a := vh.Pick(r, append(names, "nope")...)
				_, dup := arg2env[k]
				_, dup2 := argKey[a]
				p, _ := vh.Panics(func() { cmd.AddArg2Env(k, a) })
				if p != (dup || dup2) {
					bad = fmt.Sprintf("mapping the argument %q to %q: rejected %v", a, k, p)
				}
				if !dup && !dup2 {
					arg2env[k] = a
					argKey[a] = k
				}
				log += fmt.Sprintf(" %s<-%s", k, a)
			}
		}
		envs := []*model.Env{}
		env := model.NewEnvEx(model.EnvLayerDefault)
		envs = append(envs, env)
		for _, ty := range layers[1:] {
			env = env.NewLayer(ty)
			envs = append(envs, env)
		}
		state := make([]map[string]string, len(envs))
		for i, e := range envs {
			state[i] = map[string]string{}
			for _, k := range keys {
				if k != "x.a" && r.Intn(6) == 0 {
					v := vh.Pick(r, "", "e", "f,g")
					if r.Intn(2) == 0 { // a value visible already is not written again
						v += fmt.Sprint(i)
					}
					e.Set(k, v)
					seen, ok := "", false
					for j := 0; j <= i; j++ {
						if w, has := state[j][k]; has {
							seen, ok = w, true
						}
					}
					if !ok || seen != v {
						state[i][k] = v
					}
				}
			}
		}
		log += fmt.Sprintf(" env %v", state)
		given := map[string]string{}
		set := model.ParsedEnv{}
		for _, n := range names {
			if r.Intn(2) == 0 {
				given[n] = vh.Pick(r, "", "g", "h i", "[[k]]", "0", "f,g")
				set["x."+n] = model.NewParsedEnvArgv(n, given[n])
			}
		}
		log += fmt.Sprintf(" given %v", given)
		c.Try("mapper.writes", log, func() string {
			if bad != "" {
				return bad
			}
			parsed := model.ParsedCmd{Segments: []model.ParsedCmdSeg{{Env: set, Matched: model.MatchedCmd{Name: "x", Cmd: tree.GetSub("x")}}}}
			cmdEnv, argv := parsed.ApplyMappingGenEnvAndArgv(env, "--", ".", 1)
			look := func(k string, upto int) (string, bool) {
				for j := upto; j >= 0; j-- {
					if v, ok := state[j][k]; ok {
						return v, true
					}
				}
				return "", false
			}
			// arguments
			arg := map[string]string{}
			isGiven := map[string]bool{}
			for _, n := range names {
				v, ok := given[n]
				if !ok {
					v, ok = look("x."+n, 3)
				}
				if !ok {
					v = def[n]
				}
				arg[n] = v
				_, isGiven[n] = look("x."+n, 3)
				if _, ok := given[n]; ok {
					isGiven[n] = true
				}
				if argv[n].Raw != v {
					return fmt.Sprintf("argument %s is %q, expected %q", n, argv[n].Raw, v)
				}
			}
			write := func(k, v string) {
				if w, ok := look(k, 2); ok && w == v {
					return
				}
				state[2][k] = v
			}
			render := func(s string) string {
				ref := func(k string) (string, bool) {
					if v, ok := look(k, 2); ok {
						return v, true
					}
					v := arg[k]
					return v, v != ""
				}
				switch s {
				case "[[a]]", "p[[l]]q":
					i, j := strings.Index(s, "[["), strings.Index(s, "]]")
					if v, ok := ref(s[i+2 : j]); ok {
						return s[:i] + v + s[j+2:]
					}
				case "**[[*k*]]**":
					if v, ok := ref("k"); ok {
						return strings.Join(strings.Split(v, ","), "\n")
					}
				}
				return s
			}
			for _, k := range order {
				write(k, render(val2env[k]))
			}
			for _, k := range keys {
				a, ok := arg2env[k]
				if !ok {
					continue
				}
				v, has := arg[a]
				if !has {
					continue
				}
				_, inEnv := look(k, 2)
				if isGiven[a] || v != "" && !inEnv {
					write(k, v)
				}
			}
			for i, e := range envs {
				for _, k := range append([]string{"x.a", "x.b", "x.cc", "b", "cc"}, keys...) {
					want, ok := look(k, i)
					got, has := e.GetEx(k)
					if has != ok || got.Raw != want {
						return fmt.Sprintf("%s in layer %d is %q (%v), expected %q (%v)", k, i, got.Raw, has, want, ok)
					}
				}
			}
			for k := range cmdEnv.FlattenAll() {
				if _, ok := look(k, 3); ok {
					continue
				}
				if _, ok := set[k]; !ok {
					return "the key " + k + " is set"
				}
			}
			for _, k := range keys {
				if _, ok := arg2env[k]; ok != cmd.GetArg2Env().Has(k) {
					return fmt.Sprintf("%s is reported as provided by an argument: %v", k, !ok)
				}
				if _, ok := val2env[k]; ok != cmd.GetVal2Env().Has(k) || cmd.GetVal2Env().Val(k) != val2env[k] {
					return fmt.Sprintf("%s is reported as written: %v", k, !ok)
				}
			}
			if fmt.Sprint(cmd.GetVal2Env().EnvKeys()) != fmt.Sprint(order) {
				return fmt.Sprintf("the keys are %v, expected %v", cmd.GetVal2Env().EnvKeys(), order)
			}
			return ""
		})
	}
}
