//go:build go1.21

package model_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/core/parser"
	"github.com/innerr/ticat/pkg/vh"
)

type key struct {
	real  *model.EnvAbbrs
	up    *key
	name  string
	order []string
	subs  map[string]*key
	words map[string]string
}

func newKey(real *model.EnvAbbrs, up *key, name string) *key {
	return &key{real, up, name, nil, map[string]*key{}, map[string]string{}}
}

func (n *key) sub(word string) *key {
	if name, ok := n.words[word]; ok {
		return n.subs[name]
	}
	return nil
}

func (n *key) all(f func(*key)) {
	f(n)
	for _, k := range n.order {
		n.subs[k].all(f)
	}
}

func (n *key) reject(name string, abbrs []string) bool {
	for _, w := range append([]string{name}, abbrs...) {
		if old, ok := n.words[w]; ok && w != "" && old != name {
			return true
		}
	}
	return false
}

func (n *key) call(name string, abbrs []string) {
	for _, w := range append([]string{name}, abbrs...) {
		if w != "" {
			n.words[w] = name
		}
	}
}

func (n *key) add(real *model.EnvAbbrs, name string, abbrs []string) *key {
	s := newKey(real, n, name)
	n.subs[name] = s
	n.order = append(n.order, name)
	n.call(name, abbrs)
	n.words[name] = name
	return s
}

func (n *key) match(text string) (full []string, ok bool) {
	for _, seg := range strings.Split(text, ".") {
		if seg == "" {
			continue
		}
		s := n.sub(seg)
		if s == nil {
			return full, false
		}
		full = append(full, s.name)
		n = s
	}
	return full, true
}

func find(ws []string, w string) (int, bool) {
	for i, it := range ws {
		if it == w {
			return i, true
		}
	}
	return 0, false
}

func TestVHAbbrs(t *testing.T) {
	c := vh.New(t, "random histories of declaring env keys and abbreviations; after every step every word, and random key paths, against tables of names; settings of a command line with these keys")
	defer c.Done()
	alphabet := []string{"a", "b", "c", "dd", "A", "ab", "é", "", "-x", "b1"}
	envp := parser.NewEnvParser(parser.Brackets{"{", "}"}, " \t", "=", ".", "%")
	for c.More() {
		c.TryLog("keys", func(say func(string, ...any)) string {
			root := newKey(model.NewEnvAbbrs("<root>"), nil, "")
			word := func() string { return alphabet[c.R.Intn(len(alphabet))] }
			words := func(n int) (r []string) {
				for ; n > 0; n-- {
					r = append(r, word())
				}
				return
			}
			for i, n := 0, 3+c.R.Intn(20); i < n; i++ {
				var keys []*key
				root.all(func(x *key) { keys = append(keys, x) })
				x := keys[c.R.Intn(len(keys))]
				at := strings.Join(x.real.Path(), ".")
				switch c.R.Intn(5) {
				case 0, 1:
					name, abbrs := word(), words(c.R.Intn(4))
					say("%s: add %q called %q", at, name, abbrs)
					var got *model.EnvAbbrs
					_, has := x.subs[name]
					want := has || x.reject(name, abbrs)
					if p, _ := vh.Panics(func() { got = x.real.AddSub(name, abbrs...) }); p != want {
						return fmt.Sprintf("rejected: %v, want %v", p, want)
					} else if !p {
						x.add(got, name, abbrs)
					}
				case 2:
					name := word()
					say("%s: get or add %q", at, name)
					var got *model.EnvAbbrs
					_, has := x.subs[name]
					want := x.reject(name, nil)
					if p, _ := vh.Panics(func() { got = x.real.GetOrAddSub(name) }); p != want {
						return fmt.Sprintf("rejected: %v, want %v", p, want)
					} else if !p && has && got != x.subs[name].real {
						return "another key was returned"
					} else if !p && !has {
						x.add(got, name, nil)
					}
				default:
					abbrs := words(c.R.Intn(4))
					if x.up == nil {
						if p, _ := vh.Panics(func() { x.real.AddAbbrs(abbrs...) }); !p {
							return "the root got an abbreviation"
						}
						continue
					}
					say("%s: call it %q", at, abbrs)
					want := x.up.reject(x.name, abbrs)
					var p bool
					if c.R.Intn(2) == 0 {
						p, _ = vh.Panics(func() { x.real.AddAbbrs(abbrs...) })
					} else {
						p, _ = vh.Panics(func() { x.up.real.AddSubAbbrs(x.name, abbrs...) })
					}
					if p != want {
						return fmt.Sprintf("rejected: %v, want %v", p, want)
					} else if !p {
						x.up.call(x.name, abbrs)
					}
				}
				bad := ""
				root.all(func(x *key) {
					at := strings.Join(x.real.Path(), ".")
					if fmt.Sprintf("%q", x.real.SubNames()) != fmt.Sprintf("%q", x.order) && len(x.order)+len(x.real.SubNames()) > 0 {
						bad = fmt.Sprintf("%s: keys %q, want %q", at, x.real.SubNames(), x.order)
					}
					for _, w := range alphabet {
						if w == "" {
							continue
						}
						got, ok := x.real.TryMatch(w, ".")
						want := x.sub(w)
						if ok != (want != nil) || want != nil && (len(got) != 1 || got[0] != want.name) || want == nil && len(got) != 0 {
							bad = fmt.Sprintf("%s: %q means %q %v, another key than it was declared for", at, w, got, ok)
						}
						if s := x.real.GetSub(w); (s == nil) != (x.subs[w] == nil) || s != nil && s != x.subs[w].real {
							bad = fmt.Sprintf("%s: wrong key of name %q", at, w)
						}
					}
				})
				if bad != "" {
					return bad
				}
			}
			for i := 0; i < 12; i++ {
				var segs []string
				for x, n := root, 1+c.R.Intn(4); n > 0; n-- {
					w := word()
					if x != nil && len(x.words) > 0 && c.R.Intn(6) > 0 { // mostly known ones
						ws := vh.Keys(x.words)
						if k := ws[c.R.Intn(len(ws))]; k != "" {
							w = k
						}
					}
					if x != nil {
						x = x.sub(w)
					}
					segs = append(segs, w)
				}
				text := strings.Join(segs, ".")
				if c.R.Intn(8) == 0 {
					text = vh.Pick(c.R, "."+text, text+".", text+"..")
				}
				got, ok := root.real.TryMatch(text, ".")
				want, wantOK := root.match(text)
				if ok != wantOK || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					return fmt.Sprintf("path %q: matched %v %q, want %v %q", text, ok, got, wantOK, want)
				}
				if _, empty := find(got, ""); ok && !empty {
					if again, ok := root.real.TryMatch(strings.Join(got, "."), "."); !ok || fmt.Sprintf("%q", again) != fmt.Sprintf("%q", got) {
						return fmt.Sprintf("full path %q: matched %v %q", got, ok, again)
					}
				}
				full := text
				if wantOK {
					full = strings.Join(want, ".")
				}
				if text == "" || full == "" || strings.ContainsAny(text, "={} ") {
					continue
				}
				env, _, found, err := envp.TryParse(nil, root.real, []string{"{" + text + "=v}"})
				if !found || err != nil || len(env) != 1 || env[full].Val != "v" {
					return fmt.Sprintf("setting {%s=v} gives %v (%v %v), want key %q", text, env, found, err, full)
				}
			}
			return ""
		})
	}
}
