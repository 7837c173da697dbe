//go:build go1.21

package model_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

type node struct {
	real   *model.CmdTree
	up     *node
	name   string
	order  []string
	subs   map[string]*node
	words  map[string]string
	source string
	cmd    *model.Cmd
	what   string // the registered command
}

func newNode(real *model.CmdTree, up *node, name string) *node {
	return &node{real: real, up: up, name: name, subs: map[string]*node{}, words: map[string]string{}}
}

func (n *node) sub(word string) *node {
	if name, ok := n.words[word]; ok {
		return n.subs[name]
	}
	return nil
}

func (n *node) path() []string {
	if n.up == nil {
		return nil
	}
	return append(n.up.path(), n.name)
}

func (n *node) all(f func(*node)) {
	f(n)
	for _, k := range n.order {
		n.subs[k].all(f)
	}
}

func (n *node) reject(name string, abbrs []string) bool {
	for _, w := range append([]string{name}, abbrs...) {
		if old, ok := n.words[w]; ok && w != "" && old != name {
			return true
		}
	}
	return false
}

func (n *node) call(name string, abbrs []string) {
	for _, w := range append([]string{name}, abbrs...) {
		if w != "" || name == "" {
			n.words[w] = name
		}
	}
}

func (n *node) add(real *model.CmdTree, name string, abbrs []string) *node {
	s := newNode(real, n, name)
	n.subs[name] = s
	n.order = append(n.order, name)
	n.call(name, abbrs)
	n.words[name] = name
	return s
}

func (n *node) find(path []string) *node {
	for _, w := range path {
		if n = n.sub(w); n == nil {
			return nil
		}
	}
	return n
}

func check(root *node, alphabet []string) (bad string) {
	root.all(func(n *node) {
		if bad != "" {
			return
		}
		at := fmt.Sprintf("at %q: ", n.path())
		if fmt.Sprintf("%q", n.real.SubNames()) != fmt.Sprintf("%q", n.order) && len(n.order)+len(n.real.SubNames()) > 0 {
			bad = at + fmt.Sprintf("children %q, want %q", n.real.SubNames(), n.order)
		}
		for _, w := range alphabet {
			got, want := n.real.GetSub(w), n.sub(w)
			if (got == nil) != (want == nil) || got != nil && got != want.real {
				bad = at + fmt.Sprintf("%q means another child than the one it was declared for (there: %v, want %v)", w, got != nil, want != nil)
			}
			if n.up != nil {
				if got, want := n.real.Realname(w), n.up.words[w]; got != want {
					bad = at + fmt.Sprintf("the name behind %q is %q, want %q", w, got, want)
				}
			}
		}
		if fmt.Sprintf("%q", n.real.Path()) != fmt.Sprintf("%q", n.path()) {
			bad = at + fmt.Sprintf("path %q", n.real.Path())
		}
		if root.real.GetSub(n.path()...) != n.real {
			bad = at + "the path doesn't mean this command"
		}
		if n.up != nil && !strings.Contains(strings.Join(n.path(), ""), ".") && root.real.GetSubByPath(strings.Join(n.path(), "."), false) != n.real {
			bad = at + "the path text doesn't mean this command"
		}
		if n.real.Parent() != nil != (n.up != nil) || n.up != nil && n.real.Parent() != n.up.real || n.real.Name() != n.name {
			bad = at + "wrong parent or name"
		}
		if n.real.Cmd() != n.cmd {
			bad = at + "the registered command was replaced"
		}
		if n.cmd != nil && n.cmd.Owner() != n.real {
			bad = at + "the registered command belongs to another node"
		}
		if n.real.Source() != n.source {
			bad = at + fmt.Sprintf("source %q, want %q", n.real.Source(), n.source)
		}
	})
	return
}

func TestVHTree(t *testing.T) {
	c := vh.New(t, "random histories of registering commands, names and abbreviations and of looking them up; after every step every word of every node against tables of names")
	defer c.Done()
	alphabet := []string{"a", "b", "c", "dd", "A", "-", "", "ab", "é", "b ", "."}
	for c.More() {
		root := newNode(model.NewCmdTree(model.CmdTreeStrsForTest()), nil, "")
		c.TryLog("tree", func(say func(string, ...any)) string {
			for i, n := 0, 3+c.R.Intn(25); i < n; i++ {
				var nodes []*node
				root.all(func(x *node) { nodes = append(nodes, x) })
				x := nodes[c.R.Intn(len(nodes))]
				word := func() string { return alphabet[c.R.Intn(len(alphabet))] }
				words := func(n int) (r []string) {
					for ; n > 0; n-- {
						r = append(r, word())
					}
					return
				}
				path := func() (r []string) {
					for n := c.R.Intn(4); n > 0; n-- {
						w := word()
						for w == "" {
							w = word()
						}
						r = append(r, w)
					}
					return
				}
				at := strings.Join(x.path(), "/")
				source := vh.Pick(c.R, "", "s1", "s2")
				switch c.R.Intn(9) {
				case 0, 1:
					name, abbrs := word(), words(c.R.Intn(4))
					say("%s: add %q called %q", at, name, abbrs)
					var got *model.CmdTree
					_, has := x.subs[name]
					want := has || x.reject(name, abbrs)
					if p, _ := vh.Panics(func() { got = x.real.AddSub(name, abbrs...) }); p != want {
						return fmt.Sprintf("rejected: %v, want %v", p, want)
					} else if !p {
						x.add(got, name, abbrs)
					}
				case 2, 3:
					if x.up == nil {
						if p, _ := vh.Panics(func() { x.real.AddAbbrs("a") }); !p {
							return "the root got an abbreviation"
						}
						continue
					}
					abbrs := words(c.R.Intn(4))
					say("%s: call it %q", at, abbrs)
					want := x.up.reject(x.name, abbrs)
					if p, _ := vh.Panics(func() { x.real.AddAbbrs(abbrs...) }); p != want {
						return fmt.Sprintf("rejected: %v, want %v", p, want)
					} else if !p {
						x.up.call(x.name, abbrs)
					}
				case 4:
					p := path()
					say("%s: get or add %q of %q", at, p, source)
					x.real.GetOrAddSubEx(source, p...)
					y := x
					for _, w := range p {
						if y.sub(w) == nil {
							real := y.real.GetSub(w)
							if real == nil {
								return fmt.Sprintf("%q was not added", w)
							}
							y.add(real, w, nil).source = source
						}
						y = y.sub(w)
					}
				case 5, 6:
					p := path()
					say("%s: get %q", at, p)
					got, want := x.real.GetSub(p...), x.find(p)
					if (got == nil) != (want == nil) || got != nil && got != want.real {
						return "another command was found"
					}
					if len(p) > 0 && !strings.Contains(strings.Join(p, ""), ".") {
						pk, _ := vh.Panics(func() { got = x.real.GetSubByPath(strings.Join(p, "."), true) })
						if pk != (want == nil) || want != nil && got != want.real {
							return "another command was found by the path text"
						}
					}
				default:
					kind := c.R.Intn(9)
					say("%s: register command kind %d of %q", at, kind, source)
					var got *model.Cmd
					p, _ := vh.Panics(func() {
						switch kind {
						case 0:
							got = x.real.RegCmd(nil, "h", source)
						case 1:
							got = x.real.RegFileCmd("f", "h", source)
						case 2:
							got = x.real.RegDirWithCmd("d", "h", source)
						case 3:
							got = x.real.RegFlowCmd([]string{"x"}, "h", source)
						case 4:
							got = x.real.RegFileNFlowCmd([]string{"x"}, "f", "h", source)
						case 5:
							source = ""
							got = x.real.RegPowerCmd(nil, "h")
						case 6:
							source = ""
							got = x.real.RegEmptyCmd("h")
						case 7:
							got = x.real.RegMetaOnlyCmd("h", source)
						case 8:
							got = x.real.RegEmptyDirCmd("d", "h")
						}
					})
					empty := x.what == "empty"
					want := !(x.cmd == nil && x.source == source || empty)
					if kind == 8 {
						want = false
						if x.cmd != nil {
							if got != x.cmd {
								return "a directory replaced the command"
							}
							continue
						}
					}
					if p != want {
						return fmt.Sprintf("rejected: %v, want %v", p, want)
					}
					if !p {
						x.cmd, x.what = got, "cmd"
						if kind == 6 || kind == 7 {
							x.what = "empty"
							if c.R.Intn(2) == 0 {
								x.what = "cmd"
								switch c.R.Intn(9) {
								case 0:
									got.AddEnvOp("k", model.EnvOpTypeWrite)
								case 1:
									got.AddDepend("os-cmd", "r")
								case 2:
									got.AddVal2Env("k", "v")
								case 3:
									got.AddMacro("m", []string{"x"})
								case 4:
									got.RegAutoTimerBeginKey("k")
								case 5:
									got.RegAutoTimerEndKey("k")
								case 6:
									got.RegAutoTimerDurKey("k")
								default:
									got.AddArg("arg", "")
									if c.R.Intn(2) == 0 {
										got.AddArg2Env("k", "arg")
									}
								}
							}
						}
						if got == nil || x.real.Cmd() != got {
							return "the registered command is not the one of the node"
						}
					}
				}
				if bad := check(root, alphabet); bad != "" {
					return bad
				}
			}
			return ""
		})
	}
}
