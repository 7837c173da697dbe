//go:build go1.21

package hub_meta_test

import (
	"fmt"
	"strings"
	"testing"

	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhsave"
)

func TestVHSaveHub(t *testing.T) {
	c := vh.New(t, "a hub list is saved over an earlier one with different content, the directory watched; then with writes failing after every number of bytes (or a selection of them for large contents), and to a place where it can't be")
	defer c.Done()
	r := c.R
	dir := vh.Work()
	for c.More() {
		var ls [2][]meta.RepoInfo
		var want [2]string
		for i := range ls {
			for n := i + r.Intn(4); n > 0; n-- {
				help := vh.Str(r, []string{"a", "b ", "=", "'", "é"}, 8)
				if r.Intn(25) == 0 {
					help += strings.Repeat("x", vh.Pick(r, 4000, 4096, 5000, 30000))
				}
				e := meta.RepoInfo{Addr: meta.RepoAddr{Addr: vh.Pick(r, "git@h:u/r", "x"), Branch: vh.Pick(r, "", "dev")}, AddReason: vh.Pick(r, "", "why"), Path: "/p" + fmt.Sprint(i), HelpStr: help, OnOff: vh.Pick(r, "on", "disabled")}
				ls[i] = append(ls[i], e)
				a := e.Addr.Addr
				if e.Addr.Branch != "" {
					a += "#" + e.Addr.Branch
				}
				want[i] += strings.Join([]string{a, e.AddReason, e.Path, e.HelpStr, e.OnOff}, "\t") + "\n"
			}
		}
		s := vhsave.Saver{
			Save: func(path string, v int) { meta.WriteReposInfoFile("/hub-of-another-place", path, ls[v], "\t") },
			Check: func(text string, v int) string {
				if text != want[v] {
					return fmt.Sprintf("the file has %q and not %q", text, want[v])
				}
				return ""
			},
		}
		c.Try("hub", fmt.Sprintf("%.300q over %.300q", want[1], want[0]), func() string { return s.Once(dir, vhsave.Limits(r)) })
	}
}
