//go:build go1.21

package model_test

import (
	"fmt"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

// decl is the table of what a command declared.
type decl struct {
	order []string
	words map[string]string
	def   map[string]string
	auto  map[string]bool
}

func (d *decl) has(name string) bool { _, ok := d.def[name]; return ok }

func (d *decl) rejects(name string, abbrs []string) bool {
	if d.has(name) {
		return true
	}
	seen := map[string]bool{}
	for _, w := range append([]string{name}, abbrs...) {
		if w == "" {
			continue
		}
		if _, ok := d.words[w]; ok || seen[w] {
			return true
		}
		seen[w] = true
	}
	return false
}

func (d *decl) check(args model.Args, alphabet []string) string {
	if fmt.Sprintf("%q", args.Names()) != fmt.Sprintf("%q", d.order) && len(args.Names())+len(d.order) > 0 {
		return fmt.Sprintf("arguments %q, want %q", args.Names(), d.order)
	}
	for _, w := range alphabet {
		if got, want := args.Realname(w), d.words[w]; got != want {
			return fmt.Sprintf("%q means argument %q, want %q", w, got, want)
		}
		if _, ok := d.words[w]; args.HasArgOrAbbr(w) != ok {
			return fmt.Sprintf("%q means an argument: %v", w, !ok)
		}
		if args.Has(w) != d.has(w) {
			return fmt.Sprintf("argument %q declared: %v", w, !d.has(w))
		}
		at := -1
		for i, n := range d.order {
			if n == w {
				at = i
			}
		}
		if args.Index(w) != at {
			return fmt.Sprintf("argument %q is at %d, want %d", w, args.Index(w), at)
		}
	}
	return ""
}

func TestVHArgs(t *testing.T) {
	c := vh.New(t, "random histories of declaring and reordering the arguments of a command; after every step every word against a table; the values it gets from random envs of 1 to 4 layers against the table")
	defer c.Done()
	alphabet := []string{"a", "b", "c", "dd", "A", "ab", "é", "", "-x", "b1", "e", "f", "g"}
	paths := [][]string{{"x"}, {"x", "y"}, {"x", "yy", "z"}}
	for c.More() {
		c.TryLog("args", func(say func(string, ...any)) string {
			path := paths[c.R.Intn(len(paths))]
			tree := model.NewCmdTree(model.CmdTreeStrsForTest())
			for _, p := range path {
				tree = tree.AddSub(p)
			}
			cmd := tree.RegEmptyCmd("help")
			d := &decl{nil, map[string]string{}, map[string]string{}, map[string]bool{}}
			word := func() string { return alphabet[c.R.Intn(len(alphabet))] }
			for i, n := 0, 1+c.R.Intn(10); i < n; i++ {
				switch c.R.Intn(4) {
				case 0, 1, 2:
					name, def := word(), vh.Pick(c.R, "", "1", "d "+word())
					var abbrs []string
					for k := c.R.Intn(4); k > 0; k-- {
						abbrs = append(abbrs, word())
					}
					auto := c.R.Intn(5) == 0
					say("declare %q default %q called %q auto %v", name, def, abbrs, auto)
					want := d.rejects(name, abbrs)
					p, _ := vh.Panics(func() {
						if auto {
							cmd.AddAutoMapAllArg(name, def, abbrs...)
						} else {
							cmd.AddArg(name, def, abbrs...)
						}
					})
					if p != want {
						return fmt.Sprintf("rejected: %v, want %v", p, want)
					}
					if !p {
						d.order = append(append([]string{}, d.order...), name)
						d.def[name] = def
						d.auto[name] = auto
						for _, w := range append([]string{name}, abbrs...) {
							if w != "" {
								d.words[w] = name
							}
						}
					}
				default:
					names := append([]string{}, d.order...)
					c.R.Shuffle(len(names), func(i, k int) { names[i], names[k] = names[k], names[i] })
					switch k := c.R.Intn(6); {
					case k == 0:
						names = append(names, word())
					case k == 1 && len(names) > 0:
						names = names[1:]
					case k == 2 && len(names) > 1:
						names[0] = names[1]
					case k == 3 && len(names) > 0:
						names[c.R.Intn(len(names))] = word()
					}
					say("order %q", names)
					seen, ok := map[string]bool{}, len(names) == len(d.order)
					for _, n := range names {
						ok = ok && d.has(n) && !seen[n]
						seen[n] = true
					}
					if p, _ := vh.Panics(func() { cmd.ReorderArgs(names) }); p == ok {
						return fmt.Sprintf("rejected: %v, want %v", p, !ok)
					}
					if ok {
						d.order = append([]string{}, names...)
					}
				}
				if bad := d.check(cmd.Args(), alphabet); bad != "" {
					return bad
				}
			}
			sep := vh.Pick(c.R, ".", "/")
			at := ""
			for _, p := range path {
				at += p + sep
			}
			env := model.NewEnvEx(model.EnvLayerDefault)
			vals := map[string]string{}
			for l := c.R.Intn(4); l >= 0; l-- {
				for k := c.R.Intn(5); k > 0; k-- {
					key := vh.Pick(c.R, at+word(), at+word(), at+word(), word(), path[0]+sep+word(), at+"q"+sep+word(), sep+at+word())
					val := vh.Pick(c.R, "", "v1", "v2", "--", word())
					env.SetEx(key, val, c.R.Intn(3) == 0, false)
					vals[key] = val
					say("env %q = %q", key, val)
				}
				env = env.NewLayer(model.EnvLayerSession)
			}
			depth := c.R.Intn(4)
			argv := env.GetArgv(path, sep, depth, cmd.Args())
			if len(argv) != len(d.order) {
				return fmt.Sprintf("%d values for %d arguments", len(argv), len(d.order))
			}
			for i, n := range d.order {
				got, ok := argv[n]
				want, given := vals[at+n]
				if !given && !(d.auto[n] && depth > 1) {
					want = d.def[n]
				}
				if !ok || got.Raw != want || got.Provided != given || got.Index != i {
					return fmt.Sprintf("argument %q is bound to %+v (%v), want %q given %v at %d", n, got, ok, want, given, i)
				}
			}
			return ""
		})
	}
}
