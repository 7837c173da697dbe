//go:build go1.21

package hub_meta_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	meta "github.com/innerr/ticat/pkg/mods/persist/hub_meta"
	"github.com/innerr/ticat/pkg/vh"
)

var bits = []string{"a", "b", "x1", " ", "  ", ":", "<hub>", "<hub>:", "/", "//", ".", "git@h:u/r", "https://h/u/r", "'", "\"", "\\", "=", "é", "世", "%s", "%d", "[[k]]", "on", "off", "#ab", "\x00", "\x7f", "\v", "\u00a0", "\u2028", "\ufeff"}

func field(r *rand.Rand, mark bool) string {
	s := vh.Str(r, bits, 5)
	if !mark {
		s = strings.ReplaceAll(s, "#", "-")
	}
	return s
}

func entry(r *rand.Rand, hub string) meta.RepoInfo {
	var a meta.RepoAddr
	if r.Intn(4) > 0 {
		a.Addr = field(r, false)
		if a.Addr == "" {
			a.Addr = "r"
		}
		if r.Intn(2) == 0 {
			a.Branch = field(r, false)
		}
	}
	path := "/" + field(r, true)
	switch r.Intn(4) {
	case 0:
		path = hub + "/" + field(r, true)
	case 1:
		path = hub
	case 2:
		path = hub + field(r, true)
	}
	on := vh.Pick(r, "on", "disabled", "", field(r, true))
	return meta.RepoInfo{Addr: a, AddReason: field(r, true), Path: path, HelpStr: field(r, true), OnOff: on}
}

func same(a, b []meta.RepoInfo) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries were written, %d are read back", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("entry %d was written as %q and is read back as %q", i, fmt.Sprintf("%+v", a[i]), fmt.Sprintf("%+v", b[i]))
		}
	}
	return ""
}

func TestVHSaveLoad(t *testing.T) {
	c := vh.New(t, "random lists of 0..8 entries with any field contents without tabs and line breaks are written to a hub file and read back; the file is written again over it")
	defer c.Done()
	dir := vh.Work()
	path := filepath.Join(dir, "d", "repos.hub")
	n := 0
	try := func(name, hub string, infos []meta.RepoInfo) {
		n++
		c.Try(name, fmt.Sprintf("hub=%q entries=%q", hub, fmt.Sprintf("%+v", infos)), func() string {
			in := append([]meta.RepoInfo{}, infos...)
			meta.WriteReposInfoFile(hub, path, in, "\t")
			if w := same(infos, in); w != "" {
				return "writing changed the list: " + w
			}
			got, list := meta.ReadReposInfoFile(hub, path, false, "\t")
			if w := same(infos, got); w != "" {
				return w
			}
			want := map[string]bool{}
			for _, i := range infos {
				want[i.Addr.Str()] = true
			}
			if fmt.Sprint(vh.Keys(want)) != fmt.Sprint(vh.Keys(list)) {
				return fmt.Sprintf("the set of addresses is %q", vh.Keys(list))
			}
			// the hub moved: entries inside move with it, the others stay
			if n%8 == 0 {
				got, _ = meta.ReadReposInfoFile("/moved"+hub, path, false, "\t")
				for i, w := range infos {
					if strings.HasPrefix(w.Path, hub) {
						w.Path = "/moved" + w.Path
					}
					if i >= len(got) || got[i] != w {
						return fmt.Sprintf("after moving the hub entry %d is %+v", i, got)
					}
				}
			}
			return ""
		})
	}
	hubs := []string{"/home/u/.ticat/hub", "/h", "/tmp/a b", "/世", filepath.Join(dir, "hub")}
	// one entry, every bit in every field
	for _, h := range hubs[:2] {
		try("one entry", h, nil)
		for _, b := range append(bits, strings.Repeat("long", 300)) {
			for f := 0; f < 6; f++ {
				e := meta.RepoInfo{Addr: meta.RepoAddr{Addr: "git@x:y", Branch: "dev"}, AddReason: "r", Path: "/p", HelpStr: "h", OnOff: "on"}
				switch f {
				case 0:
					e.Addr.Addr = strings.ReplaceAll(b, "#", "")
				case 1:
					e.Addr.Branch = strings.ReplaceAll(b, "#", "")
				case 2:
					e.AddReason = b
				case 3:
					e.Path = "/" + b
				case 4:
					e.HelpStr = b
				case 5:
					e.OnOff = b
				}
				try("one entry", h, []meta.RepoInfo{e, {Path: h + "/x", OnOff: "on"}, e})
			}
		}
	}
	c.For(80, func() {
		h := hubs[c.R.Intn(len(hubs))]
		var infos []meta.RepoInfo
		for i := c.R.Intn(9); i > 0; i-- {
			infos = append(infos, entry(c.R, h))
		}
		try("list", h, infos)
	})
	for _, size := range []int{60000, 65000, 65530, 65536, 70000, 200000} {
		size := size
		infos := []meta.RepoInfo{{Path: "/a", OnOff: "on"}, {Path: "/b", HelpStr: strings.Repeat("h", size), OnOff: "on"}, {Path: "/c", OnOff: "on"}}
		c.Try("long field", fmt.Sprintf("help text of %d bytes", size), func() string {
			meta.WriteReposInfoFile("/h", path, infos, "\t")
			var got []meta.RepoInfo
			if p, _ := vh.Panics(func() { got, _ = meta.ReadReposInfoFile("/h", path, false, "\t") }); p {
				if size < 65000 {
					return "reading the file fails"
				}
				return ""
			}
			return same(infos, got)
		})
	}
}

func TestVHMalformed(t *testing.T) {
	c := vh.New(t, "random file contents (any bytes, wrong numbers of fields, missing line ends): a file that loads has five fields in each line, in the order of the entry")
	defer c.Done()
	dir := vh.Work()
	path := filepath.Join(dir, "repos.hub")
	try := func(text string) {
		c.Try("file content", fmt.Sprintf("%q", text), func() string {
			os.WriteFile(path, []byte(text), 0644)
			var got []meta.RepoInfo
			failed, _ := vh.Panics(func() { got, _ = meta.ReadReposInfoFile("/hub", path, true, "\t") })
			now, _ := os.ReadFile(path)
			if !bytes.Equal(now, []byte(text)) {
				return "reading changed the file"
			}
			lines := strings.Split(text, "\n")
			if lines[len(lines)-1] == "" {
				lines = lines[:len(lines)-1]
			}
			bad := false
			for _, l := range lines {
				bad = bad || strings.Count(strings.Trim(l, "\r"), "\t") != 4
			}
			if failed != bad {
				return fmt.Sprintf("malformed: %v, reported: %v", bad, failed)
			}
			if bad {
				return ""
			}
			if len(got) != len(lines) {
				return fmt.Sprintf("%d lines are read as %d entries", len(lines), len(got))
			}
			for i, l := range lines {
				f := strings.Split(strings.Trim(l, "\r"), "\t")
				g := got[i]
				addr := g.Addr.Addr
				if strings.LastIndex(f[0], "#") > 0 {
					addr += "#" + g.Addr.Branch
				}
				p := f[2]
				if strings.HasPrefix(p, "<hub>:") {
					p = "/hub" + p[6:]
				}
				if addr != f[0] || g.AddReason != f[1] || g.Path != p || g.HelpStr != f[3] || g.OnOff != f[4] {
					return fmt.Sprintf("line %q is read as %+v", l, g)
				}
			}
			return ""
		})
	}
	alpha := []string{"a", "\t", "\t\t\t\t", "\n", "\r\n", "a\tb\tc\td\ton\n", "\t\t<hub>:/x\t\ton\n", "r#b\tr\t/p\th\tdisabled\n", "on", "#", "<hub>:", "é", "\x00", "\x1a"}
	vh.Lists(alpha, 3, func(l []string) { try(strings.Join(l, "")) })
	c.For(60, func() { try(vh.Str(c.R, alpha, 12)) })
	c.Try("no file", "allowed", func() string {
		got, list := meta.ReadReposInfoFile("/h", filepath.Join(dir, "none"), true, "\t")
		if len(got) != 0 || len(list) != 0 {
			return "entries from no file"
		}
		if p, _ := vh.Panics(func() { meta.ReadReposInfoFile("/h", filepath.Join(dir, "none"), false, "\t") }); !p {
			return "a missing file is not reported"
		}
		if p, _ := vh.Panics(func() { meta.ReadReposInfoFile("/h", dir, true, "\t") }); !p {
			return "a file that can't be read is not reported"
		}
		return ""
	})
}
