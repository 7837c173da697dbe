//go:build go1.21

package ticat_test

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

// loading is the table of what loading the modules gives.
type loading struct {
	owner map[string]string // command -> source
	files map[string]int    // error: file without conflict -> times
	confl map[string]int    // error: old source, source -> times
	cmds  map[string]int    // error: command in conflict -> times
}

func TestVHLoad(t *testing.T) {
	c := vh.New(t, "random directories of modules, some broken or in conflict with builtin commands or each other, loaded from a hub file by the whole program, with flows in flows after that; every error is shown once, with its source and what it is in conflict with, good modules still run, and nothing is tolerated when recovering is off")
	defer c.Done()
	builtin := []string{"env", "flow", "desc"}
	for c.More() {
		c.TryLog("load", func(say func(string, ...any)) string {
			dir := vh.Work()
			w := vhe.New(dir)
			w.Cmd("zza")
			w.Flow("zzf", "zza : zza")
			w.Flow("zzg", "zzf : zzf")
			def := w.Env.GetLayer("default")
			def.SetInt("display.width", 600)
			def.SetBool("display.utf8", false)
			def.SetBool("sys.panic.recover", true)
			l := loading{map[string]string{}, map[string]int{}, map[string]int{}, map[string]int{}}
			abbrs := map[string]string{}
			var infos []hub_meta.RepoInfo
			n := 0
			var good []string
			many := c.R.Intn(6) == 0 // more conflicts of one pair than are shown one by one
			for d, ds := 0, 1+c.R.Intn(3); d < ds; d++ {
				root := filepath.Join(dir, fmt.Sprintf("mods%d-", d))
				os.MkdirAll(root, 0o755)
				type mod struct{ file, text string }
				var mods []mod
				names := map[string]bool{}
				cnt := c.R.Intn(6)
				if many {
					cnt = 14
				}
				for i := 0; i < cnt; i++ {
					n++
					name := fmt.Sprintf("zm%03d", n)
					text := vh.Pick(c.R, "help = h\nflow = zza", "flow = zza", "flow = zza : zza\nabbrs = "+name+"x")
					switch k := c.R.Intn(10); {
					case k < 4 && many || k == 0:
						name = vh.Pick(c.R, builtin...)
						if many && len(l.owner) > 0 && d > 0 {
							for o := range l.owner {
								name = o
								break
							}
						}
					case k == 1:
						text += vh.Pick(c.R, "\ntrivial = x", "\nquiet = maybe", "\nunlog = 7x", "\npack-sub = nn")
					case k == 2:
						text += vh.Pick(c.R, "\n[env]\nzk.a = read-write", "\n[args]\na = 1\nb|a = 2", "\n[args]\na|a = ")
					case k == 3:
						text += "\nabbrs = " + vh.Pick(c.R, "h", "e", "zzz")
					case k == 4 && len(l.owner) > 0:
						var owned []string
						for o := range l.owner {
							owned = append(owned, o)
						}
						sort.Strings(owned)
						name = vh.Pick(c.R, owned...)
					}
					if c.R.Intn(8) == 0 && len(mods) > 0 { // two definitions of one command
						name = strings.SplitN(mods[c.R.Intn(len(mods))].file, ".", 2)[0]
					}
					file := name + vh.Pick(c.R, ".tiflow", ".ticat")
					if names[file] {
						continue
					}
					names[file] = true
					mods = append(mods, mod{file, text})
				}
				info := hub_meta.RepoInfo{AddReason: "<local>", Path: root, OnOff: "on"}
				source := root
				if c.R.Intn(2) == 0 {
					info.Addr.Addr = fmt.Sprintf("git@x/r%d-", d)
					source = info.Addr.Str()
				}
				infos = append(infos, info)
				sort.Slice(mods, func(i, k int) bool { return mods[i].file < mods[k].file })
				for _, m := range mods {
					path := filepath.Join(root, m.file)
					os.WriteFile(path, []byte(m.text+"\n"), 0o644)
					name := strings.SplitN(m.file, ".", 2)[0]
					say("%s of %s: %q", m.file, source, m.text)
					old, taken := l.owner[name]
					for _, b := range builtin {
						if b == name {
							old, taken = "", true
						}
					}
					if taken {
						l.confl[old+"\x00"+source]++
						l.cmds[name]++
						continue
					}
					l.owner[name] = source
					isGood := true
					for _, line := range strings.Split(m.text, "\n") {
						switch {
						case strings.HasPrefix(line, "abbrs = "):
							a := line[len("abbrs = "):]
							o, ok := abbrs[a], a == "h" || a == "e" || abbrs[a] != ""
							if a == "h" || a == "e" {
								o = ""
							}
							if ok && isGood {
								l.confl[o+"\x00"+source]++
								l.cmds[a]++
								isGood = false
							}
							if !ok && isGood {
								abbrs[a] = source
							}
						case strings.HasPrefix(line, "trivial"), strings.HasPrefix(line, "quiet"), strings.HasPrefix(line, "unlog"), strings.HasPrefix(line, "pack"), strings.HasPrefix(line, "zk.a"), strings.HasPrefix(line, "b|a"), strings.HasPrefix(line, "a|a"):
							if isGood {
								l.files[path]++
							}
							isGood = false
						}
					}
					if isGood && true {
						good = append(good, name)
					}
				}
			}
			hub := filepath.Join(dir, "hub")
			os.MkdirAll(hub, 0o755)
			hub_meta.WriteReposInfoFile(hub, filepath.Join(hub, "repos.hub"), infos, "\t")
			line := []string{vh.Pick(c.R, "zza", "zzg", "zzg : zzf")}
			if len(good) > 0 {
				line = []string{line[0] + " : " + vh.Pick(c.R, good...)}
			}
			line = strings.Fields(line[0])
			errors := len(l.files)
			for _, k := range l.confl {
				errors += k
			}
			tolerate := c.R.Intn(5) > 0
			def.SetBool("sys.panic.recover", tolerate)
			bad := c.R.Intn(6) == 0
			if bad {
				line = []string{"zz-no-such-command"}
			}
			say("run %q tolerating %v", line, tolerate)
			ok, p := func() (ok bool, p any) {
				defer func() { p = recover() }()
				return w.Ex.Run(w.CC, w.Env, "builtin.mod.load.hub", line...), nil
			}()
			if !tolerate {
				if (p != nil) != (errors > 0) {
					return fmt.Sprintf("recovering is off, %d errors, failure: %v", errors, p)
				}
				return ""
			}
			out := w.Out.Text.String()
			if ok == bad || p != nil {
				return fmt.Sprintf("good modules don't run: %v %v %s", ok, p, out)
			}
			for f, k := range l.files {
				if got := strings.Count(out, "'"+f+"'"); got != k {
					return fmt.Sprintf("the error in %s is reported %d times", f, got)
				}
			}
			shown := map[string]int{} // commands reported one by one
			boxes := strings.Split(out, "+-")
			for key, k := range l.confl {
				old, source, _ := strings.Cut(key, "\x00")
				got, sum := 0, 0
				for _, b := range boxes {
					if !strings.Contains(b, "'"+source+"'") {
						continue
					}
					if old == "" && !strings.Contains(b, "builtin") || old != "" && old != source && !strings.Contains(b, "'"+old+"'") || old == source && strings.Count(b, "'"+source+"'") != 2 || old != "" && strings.Contains(b, "builtin") {
						continue
					}
					if strings.Contains(b, "too many") {
						sum++
						if !strings.Contains(b, fmt.Sprintf("(%d)", k)) {
							return fmt.Sprintf("%d conflicts of %s with %q are announced in %q", k, source, old, b)
						}
					} else if strings.Contains(b, "conflicted from repos/dirs") || strings.Contains(b, "command conflicted with builtin") {
						got++
					}
				}
				if k > 8 && (sum != 1 || got != 0) || k <= 8 && (sum != 0 || got != k) {
					return fmt.Sprintf("%d conflicts of %s with %q: %d reported, %d summaries\n%s", k, source, old, got, sum, out)
				}
				if k > 8 {
					shown = nil
				}
			}
			if shown != nil {
				for cmd, k := range l.cmds {
					got := 0
					for _, ln := range strings.Split(out, "\n") {
						if strings.TrimSpace(strings.Trim(ln, "|")) == "- "+cmd {
							got++
						}
					}
					if got != k {
						return fmt.Sprintf("the conflict of command %s is reported %d times, want %d\n%s", cmd, got, k, out)
					}
				}
			}
			return ""
		})
	}
}
