//go:build go1.21

package builtin_test

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

var addrs = []string{"a", "b", "a/b", "ab", "git@h:a/b", "https://h/a", "a/b/c", "世/é", "A"}

func hubList(r *rand.Rand, dir string) (infos []meta.RepoInfo) {
	n := r.Intn(6)
	if r.Intn(20) == 0 {
		n = 6 + r.Intn(10)
	}
	for i := 0; i < n; i++ {
		x := meta.RepoInfo{OnOff: vh.Pick(r, "on", "on", "disabled", "disabled", "")}
		if r.Intn(3) > 0 {
			x.Addr.Addr = vh.Pick(r, addrs...)
			if r.Intn(3) == 0 {
				x.Addr.Branch = vh.Pick(r, "a", "b", "main")
			}
			x.AddReason = vh.Pick(r, "", "a", "<manually-added>", nameOf(x))
			x.Path = filepath.Join(dir, "hub", fmt.Sprintf("r%d", i), vh.Pick(r, "a", "b", "x"))
		} else {
			x.AddReason = "<local>"
			x.Path = filepath.Join(dir, "local", fmt.Sprintf("l%d", i), vh.Pick(r, "a", "b", "x"))
		}
		x.HelpStr = vh.Pick(r, "", "a tool", "b of a", "help")
		infos = append(infos, x)
	}
	return
}

func nameOf(x meta.RepoInfo) string {
	switch {
	case x.Addr.Addr == "":
		return x.Path
	case x.Addr.Branch == "":
		return x.Addr.Addr
	}
	return x.Addr.Addr + "#" + x.Addr.Branch
}

func findText(r *rand.Rand, infos []meta.RepoInfo) string {
	if len(infos) > 0 && r.Intn(2) == 0 {
		x := infos[r.Intn(len(infos))]
		s := vh.Pick(r, nameOf(x), x.Path, x.Addr.Addr, x.HelpStr, filepath.Base(filepath.Dir(x.Path)))
		if s != "" {
			return s
		}
	}
	return vh.Pick(r, append([]string{"h", "/", "hub", "local", "#", "on", "zzz", "r1", "l1", "x", "#a", "disabled", ".", "added", "man", "loc"}, addrs...)...)
}

func show(infos []meta.RepoInfo) string {
	var ls []string
	for _, x := range infos {
		ls = append(ls, fmt.Sprintf("{%s %q %q %q %q}", nameOf(x), x.AddReason, filepath.Base(filepath.Dir(x.Path))+"/"+filepath.Base(x.Path), x.HelpStr, x.OnOff))
	}
	return "[" + strings.Join(ls, " ") + "]"
}

// expected outcomes, from the statement of the property: the entries of keep stay as they are and in
// order, those of meant are changed (or gone).
func chosen(infos []meta.RepoInfo, s string) map[int]bool {
	meant := map[int]bool{}
	for i, x := range infos {
		if nameOf(x) == s {
			return map[int]bool{i: true}
		}
		if strings.Contains(nameOf(x), s) {
			meant[i] = true
		}
	}
	return meant
}

func victims(infos []meta.RepoInfo, s string) map[int]bool {
	if s != "" {
		for i, x := range infos {
			if x.Addr.Addr != "" && nameOf(x) == s {
				if x.OnOff != "on" {
					return map[int]bool{i: true}
				}
				break
			}
		}
	}
	gone := map[int]bool{}
	for i, x := range infos {
		addr := ""
		if x.Addr.Addr != "" {
			addr = nameOf(x)
		}
		shown := x.AddReason
		if shown == addr {
			shown = "<manually-added>"
		}
		texts := []string{addr, x.Path, x.HelpStr, x.OnOff}
		if x.Addr.Addr == "" {
			texts = append(texts, "local")
		}
		hit := false
		for _, t := range append(texts, shown) {
			hit = hit || strings.Contains(t, s)
		}
		if x.OnOff != "on" && hit {
			gone[i] = true
		}
	}
	return gone
}

func judge(op string, before, after []meta.RepoInfo, s string, failed bool) string {
	meant := map[int]bool{}
	switch op {
	case "purge", "purge-all":
		meant = victims(before, s)
	default:
		meant = chosen(before, s)
	}
	want := []meta.RepoInfo{}
	changed := []meta.RepoInfo{}
	for i, x := range before {
		if !meant[i] || failed {
			want = append(want, x)
			continue
		}
		switch op {
		case "enable":
			x.OnOff = "on"
		case "disable":
			if x.OnOff == "on" {
				x.OnOff = "disabled"
			}
		default:
			continue
		}
		changed = append(changed, x)
	}
	// changed entries may be anywhere, the others keep their order
	rest := append([]meta.RepoInfo{}, after...)
	for _, x := range changed {
		at := -1
		for i, y := range rest {
			if x == y {
				at = i
			}
		}
		if at < 0 {
			return fmt.Sprintf("the list became %s: the entry %s is missing", show(after), show([]meta.RepoInfo{x}))
		}
		rest = append(rest[:at:at], rest[at+1:]...)
	}
	if len(rest) != len(want) {
		return fmt.Sprintf("the list became %s: %s are left of the other entries instead of %s", show(after), show(rest), show(want))
	}
	for i := range rest {
		if rest[i] != want[i] {
			return fmt.Sprintf("the list became %s: the other entries should be %s", show(after), show(want))
		}
	}
	return ""
}

func TestVHHub(t *testing.T) {
	c := vh.New(t, "enabling, disabling and purging hub entries on random hub lists with their directories on disk (exact, partial, shared and missing names; enabled and disabled mixes; several commands in a row) against a listing of which entries are meant")
	defer c.Done()
	base := vh.Work()
	w := vhe.New(base)
	round := 0
	for c.More() {
		round++
		dir := filepath.Join(base, fmt.Sprintf("w%d", round%8))
		hub := filepath.Join(dir, "hub")
		w.Env.GetLayer(model.EnvLayerDefault).Set("sys.paths.hub", hub)
		file := filepath.Join(hub, w.Env.GetRaw("strs.hub-file-name"))
		sep := w.Env.GetRaw("strs.proto-sep")
		infos := hubList(c.R, dir)
		os.RemoveAll(dir)
		os.MkdirAll(hub, 0o755)
		outside := filepath.Join(hub, "keep", "f")
		os.MkdirAll(filepath.Dir(outside), 0o755)
		os.WriteFile(outside, []byte("x"), 0o644)
		there := map[string]bool{}
		for _, x := range infos {
			if c.R.Intn(4) == 0 {
				continue
			}
			there[x.Path] = true
			os.MkdirAll(x.Path, 0o755)
			os.WriteFile(filepath.Join(x.Path, "f"), []byte("x"), 0o644)
		}
		meta.WriteReposInfoFile(hub, file, infos, sep)
		var done []string
		var stop bool
		for k := 0; k < 1+c.R.Intn(3) && !stop; k++ {
			before, _ := meta.ReadReposInfoFile(hub, file, true, sep)
			op := vh.Pick(c.R, "enable", "disable", "purge", "purge", "purge-all")
			s := ""
			if op != "purge-all" {
				s = findText(c.R, before)
			}
			done = append(done, op+" "+s)
			c.Try("hub", fmt.Sprintf("%s on %s", strings.Join(done, "; "), show(infos)), func() string {
				flow := &model.ParsedCmds{Cmds: model.ParsedCmdSeq{model.ParsedCmd{Segments: []model.ParsedCmdSeg{{Env: nil, Matched: model.MatchedCmd{Name: op, Cmd: w.CC.Cmds}}}}}}
				argv := model.ArgVals{"find-str": model.ArgVal{Raw: s, Provided: true}}
				failed, what := vh.Panics(func() {
					switch op {
					case "enable":
						builtin.EnableRepoInHub(argv, w.CC, w.Env, flow, 0)
					case "disable":
						builtin.DisableRepoInHub(argv, w.CC, w.Env, flow, 0)
					case "purge":
						builtin.PurgeInactiveRepoFromHub(argv, w.CC, w.Env, flow, 0)
					default:
						builtin.PurgeAllInactiveReposFromHub(argv, w.CC, w.Env, flow, 0)
					}
				})
				meant := 0
				if op == "purge" || op == "purge-all" {
					meant = len(victims(before, s))
				} else {
					meant = len(chosen(before, s))
				}
				if failed && meant > 0 {
					stop = true
					return fmt.Sprintf("fails: %v", what)
				}
				after, _ := meta.ReadReposInfoFile(hub, file, true, sep)
				if msg := judge(op, before, after, s, failed); msg != "" {
					stop = true
					return msg
				}
				gone := map[string]bool{}
				if op == "purge" || op == "purge-all" {
					for i := range victims(before, s) {
						gone[before[i].Path] = before[i].Addr.Addr != ""
						if gone[before[i].Path] {
							delete(there, before[i].Path)
						}
					}
				}
				for _, x := range before {
					_, err := os.Stat(filepath.Join(x.Path, "f"))
					if err != nil && there[x.Path] && !gone[x.Path] {
						stop = true
						return "the content of " + show([]meta.RepoInfo{x}) + " was deleted"
					}
				}
				if _, err := os.Stat(outside); err != nil {
					stop = true
					return "files that belong to no entry were deleted"
				}
				return ""
			})
		}
	}
}
