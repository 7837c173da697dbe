//go:build go1.21

package ticat_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

type arg struct {
	name, def string
	words     []string
}

func TestVHBind(t *testing.T) {
	c := vh.New(t, "commands with random arguments run in flows of 1 to 3 commands, arguments given by name, abbreviation or position in all forms of the command line, or preset in the session; the values the commands get against the declared ones")
	defer c.Done()
	for c.More() {
		c.TryLog("bind", func(say func(string, ...any)) string {
			w := vhe.New(vh.Work())
			pool := []string{"a", "b", "c", "dd", "A", "ab", "e", "f", "g", "x-y", "_", "k1", "é"}
			path := vh.Pick(c.R, "t", "t.u")
			cmd := w.Cmd(path)
			c.R.Shuffle(len(pool), func(i, k int) { pool[i], pool[k] = pool[k], pool[i] })
			var args []arg
			for n := c.R.Intn(4); n > 0; n-- {
				k := 1 + c.R.Intn(3)
				a := arg{pool[0], vh.Pick(c.R, "", "1", "def"), pool[:k]}
				pool = pool[k:]
				args = append(args, a)
				cmd.AddArg(a.name, a.def, a.words[1:]...)
				say("arg %q default %q called %q", a.name, a.def, a.words)
			}
			if c.R.Intn(3) == 0 {
				c.R.Shuffle(len(args), func(i, k int) { args[i], args[k] = args[k], args[i] })
				var names []string
				for _, a := range args {
					names = append(names, a.name)
				}
				say("order %q", names)
				cmd.ReorderArgs(names)
			}
			preset := map[string]string{}
			for n := c.R.Intn(3); n > 0 && len(args) > 0; n-- {
				a := args[c.R.Intn(len(args))]
				v := vh.Pick(c.R, "s1", "s 2", "")
				say("session %s.%s = %q", path, a.name, v)
				w.Env.GetLayer(model.EnvLayerSession).Set(path+"."+a.name, v)
				preset[a.name] = v
			}
			var line []string
			var want []map[string]string
			for n := 1 + c.R.Intn(3); n > 0; n-- {
				got := map[string]string{}
				for _, a := range args {
					got[a.name] = a.def
					if v, ok := preset[a.name]; ok {
						got[a.name] = v
					}
				}
				val := func() string { return vh.Pick(c.R, "1", "v", "v w", "x.y", "q9", "-3") }
				words := []string{path}
				if c.R.Intn(3) == 0 {
					words = strings.Split(strings.ReplaceAll(path, ".", " . "), " ")
				}
				use := c.R.Intn(len(args) + 1)
				switch form := c.R.Intn(4); {
				case form == 0: // by position
					for i := 0; i < use; i++ {
						v := val()
						if a := args[c.R.Intn(len(args))]; c.R.Intn(5) == 0 {
							v = vh.Pick(c.R, a.words...) // a value may be the name of an argument
						}
						got[args[i].name] = v
						words = append(words, v)
					}
				case form == 1 && len(args) > 0: // word value word value
					if 2*use > len(args) {
						for _, i := range c.R.Perm(len(args))[:use] {
							v := val()
							got[args[i].name] = v
							words = append(words, vh.Pick(c.R, args[i].words...), v)
						}
					}
				default: // with the sign
					var kvs []string
					for _, i := range c.R.Perm(len(args))[:use] {
						v := val()
						got[args[i].name] = v
						kw := vh.Pick(c.R, args[i].words...)
						switch c.R.Intn(4) {
						case 0:
							kvs = append(kvs, kw, "=", v)
						case 1:
							kvs = append(kvs, kw+"=", v)
						case 2:
							kvs = append(kvs, kw, "="+v)
						default:
							kvs = append(kvs, kw+"="+v)
						}
					}
					if form == 3 && len(kvs) > 0 { // in a block of its own
						kvs = append(append([]string{"{"}, kvs...), "}")
					}
					words = append(words, kvs...)
				}
				if len(line) > 0 {
					line = append(line, ":")
				}
				line = append(line, words...)
				want = append(want, got)
			}
			say("run %q", line)
			if ok, p := w.Run(line...); !ok || p != nil {
				return fmt.Sprintf("the flow fails (%v): %s", p, w.Out.Text.String())
			}
			if len(w.Log) != len(want) {
				return fmt.Sprintf("%d calls, want %d", len(w.Log), len(want))
			}
			for i, call := range w.Log {
				if fmt.Sprint(call.Argv) != fmt.Sprint(want[i]) {
					return fmt.Sprintf("command %d gets %v, want %v", i+1, call.Argv, want[i])
				}
			}
			return ""
		})
	}
}
