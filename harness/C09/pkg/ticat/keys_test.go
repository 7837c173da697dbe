//go:build go1.21

package ticat_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

type key struct {
	subs  map[string]*key
	words map[string]string
}

func newKey() *key { return &key{map[string]*key{}, map[string]string{}} }

// full is the key a written one means, "" if no declared abbreviation applies to all of it.
func (n *key) full(text string) string {
	var r []string
	for _, seg := range strings.Split(text, ".") {
		name, ok := n.words[seg]
		if !ok {
			return text
		}
		r = append(r, name)
		n = n.subs[name]
	}
	return strings.Join(r, ".")
}

func TestVHKeys(t *testing.T) {
	c := vh.New(t, "whole program: random env key abbreviations, saved env keys with any names (also ones that are abbreviations of others), settings in front of a command by abbreviation; which keys the command sees, and that it runs at all")
	defer c.Done()
	names := []string{"za", "zb", "zc", "zd", "ze", "zf"}
	for c.More() {
		c.TryLog("keys", func(say func(string, ...any)) string {
			w := vhe.New(vh.Work())
			w.Cmd("zt")
			cmd := w.Node("zm")
			cmd.AddAbbrs("za", "zz")
			w.Cmd("zm.zb").Owner().AddAbbrs("zq")
			root := newKey()
			pick := func() string { return names[c.R.Intn(len(names))] }
			for i := c.R.Intn(6); i > 0; i-- {
				real, n, at := w.CC.EnvAbbrs, root, ""
				for k := 1 + c.R.Intn(2); k > 0; k-- {
					name, abbr := pick(), pick()
					if old, ok := n.words[name]; ok && old != name {
						break
					}
					if old, ok := n.words[abbr]; ok && old != name {
						abbr = name
					}
					at += "." + name
					say("%s called %q", at, abbr)
					if n.subs[name] == nil {
						n.subs[name] = newKey()
					}
					n.words[name], n.words[abbr] = name, name
					real = real.GetOrAddSub(name)
					real.AddAbbrs(abbr)
					n = n.subs[name]
				}
			}
			path := func() string {
				r := pick()
				for c.R.Intn(2) == 0 {
					r += "." + pick()
				}
				return r
			}
			want := map[string]string{}
			for i := c.R.Intn(4); i > 0; i-- {
				k := path()
				say("saved %s=s", k)
				w.Env.GetLayer(model.EnvLayerPersisted).Set(k, "s")
				want[k] = "s"
				n := root
				for _, seg := range strings.Split(k, ".") {
					if old, ok := n.words[seg]; ok && old != seg {
						break
					}
					if n.subs[seg] == nil {
						n.subs[seg] = newKey()
					}
					n.words[seg] = seg
					n = n.subs[seg]
				}
			}
			// commands lend their abbreviations to env keys only where these are free
			lend := c.R.Intn(4) == 0
			if lend {
				say("commands lend abbreviations")
				w.Env.GetLayer(model.EnvLayerPersisted).SetBool("sys.env.use-cmd-abbrs", true)
			}
			var line []string
			for i := c.R.Intn(3); i > 0; i-- {
				k, v := path(), vh.Pick(c.R, "1", "2")
				line = append(line, "{"+k+"="+v+"}")
				want[root.full(k)] = v
			}
			line = append(line, "zt")
			say("run %q", line)
			ok, p := w.Run(line...)
			if !ok || p != nil || len(w.Log) != 1 {
				return fmt.Sprintf("the command fails: %v %v: %s", ok, p, w.Out.Text.String())
			}
			if lend {
				return "" // which abbreviations were free is not decided here
			}
			got := map[string]string{}
			for k, v := range w.Log[0].Env {
				if strings.HasPrefix(k, "z") && !strings.HasPrefix(k, "zt.") {
					got[k] = v
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("the command sees %v, want %v", got, want)
			}
			return ""
		})
	}
}
