//go:build go1.21

package model_test

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

var keyBits = []string{"a", "b", "key", ".", "-", " ", "x.y", "'", "\"", "[[k]]", "#", "é", "\t", "%s", "\\", ":", "session", "strs", "sys.stack", "display.height", "S"}
var valBits = []string{"a", "1", "", " ", "  ", "=", "==", "==>", "'", "\"", "[[k]]", "#", "\\", "\\n", "é", "世", "\t", "%s", "%d", "--", "-", ":", "true", "\x00", "\x7f", "\xff", "\v", "\u0085", "\u2028"}

// what the file may not keep: keys of one run
var runKeys = []string{"session", "strs.", "display.height", "display.width.max", "display.executor.displayed", "sys.stack", "sys.stack-depth", "sys.session.", "sys.interact", "sys.breakpoint", "sys.execute-wait-sec", "sys.event.", "sys.paths."}

func ofRun(k string) bool {
	for _, p := range runKeys {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

// layers of an env as plain maps, outermost first
type layers [4]map[string]string

var kinds = []model.EnvLayerType{model.EnvLayerDefault, model.EnvLayerPersisted, model.EnvLayerSession, model.EnvLayerCmd}

func build(ls layers) *model.Env {
	var e *model.Env
	for i, k := range kinds {
		if e == nil {
			e = model.NewEnv()
		} else {
			e = e.NewLayer(k)
		}
		for key, v := range ls[i] {
			e.Set(key, v)
		}
	}
	return e
}

func visible(ls layers) map[string]string {
	r := map[string]string{}
	for _, l := range ls {
		for k, v := range l {
			r[k] = v
		}
	}
	return r
}

func show(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		v := m[k]
		if len(v) > 60 {
			v = fmt.Sprintf("%s...(%d bytes)", v[:20], len(v))
		}
		r = append(r, fmt.Sprintf("%q:%q", k, v))
	}
	return "{" + strings.Join(r, " ") + "}"
}

func diff(want, got map[string]string) string {
	for k, v := range want {
		w, ok := got[k]
		if !ok {
			return fmt.Sprintf("key %q was saved and is missing after loading", k)
		}
		if v != w {
			return fmt.Sprintf("key %q was saved as %s and is loaded as %s", k, show(map[string]string{"": v}), show(map[string]string{"": w}))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("key %q is there after loading and was not saved", k)
		}
	}
	return ""
}

func flat(e *model.Env) map[string]string { return e.Flatten(true, nil, false) }

func TestVHSaveLoad(t *testing.T) {
	c := vh.New(t, "random env layers are saved to a file (with and without the values that equal the default) and loaded into another env; separators of one to three characters, values up to 200 kB, keys and values with separators, quotes, templates and control characters")
	defer c.Done()
	dir := vh.Work()
	path := filepath.Join(dir, "env")
	r := c.R
	key := func(sep string) string {
		for {
			k := vh.Str(r, keyBits, 4)
			if !strings.Contains(k, sep) && strings.Index(k+sep, sep) == len(k) {
				return k
			}
		}
	}
	val := func() string {
		v := vh.Str(r, valBits, 6)
		if r.Intn(60) == 0 {
			v += strings.Repeat(vh.Pick(r, "x", "=", "ab "), vh.Pick(r, 4096, 65536, 70000, 200000)+r.Intn(5)-2)
		}
		if v == "--" {
			return "-"
		}
		return v
	}
	for c.More() {
		sep := vh.Pick(r, "=", "=", "=", "=", ":=", "==>", "\t", "--")
		var ls layers
		var used []string
		for i := range ls {
			ls[i] = map[string]string{}
			for n := r.Intn(5); n > 0; n-- {
				k := key(sep)
				if len(used) > 0 && r.Intn(3) == 0 {
					k = vh.Pick(r, used...)
				}
				used = append(used, k)
				ls[i][k] = val()
				if i > 0 && r.Intn(4) == 0 {
					if v, ok := ls[0][k]; ok {
						ls[i][k] = v
					}
				}
			}
		}
		skip := r.Intn(2) == 0
		had := map[string]string{}
		for n := r.Intn(4); n > 0; n-- {
			k := key(sep)
			if len(used) > 0 && r.Intn(2) == 0 {
				k = vh.Pick(r, used...)
			}
			had[k] = val()
		}
		want := map[string]string{}
		for k, v := range had {
			want[k] = v
		}
		ambiguous := false
		for k, v := range visible(ls) {
			if ofRun(k) || skip && ls[0][k] == v {
				continue
			}
			// with a longer separator the first place where it fits has to be the one written
			if strings.Index(k+sep+v, sep) != len(k) || strings.HasSuffix(v, "\r") {
				ambiguous = true
			}
			want[k] = v
		}
		if ambiguous {
			continue
		}
		name := "file"
		if r.Intn(3) == 0 {
			name = "writer"
		}
		c.Try(name, fmt.Sprintf("sep=%q skip-defaults=%v layers=%s %s %s %s loaded over %s", sep, skip, show(ls[0]), show(ls[1]), show(ls[2]), show(ls[3]), show(had)), func() string {
			e := build(ls)
			before := flat(e)
			into := model.NewEnv().NewLayer(model.EnvLayerPersisted)
			for k, v := range had {
				into.Set(k, v)
			}
			if name == "file" {
				model.SaveEnvToFile(e, path, sep, skip)
				model.LoadEnvFromFile(into, path, sep, "--")
				if _, err := os.Stat(path + ".tmp"); err == nil {
					return "the temporary file is left behind"
				}
			} else {
				buf := bytes.NewBuffer(nil)
				if err := model.EnvOutput(e, buf, sep, runKeys, skip); err != nil {
					return "writing failed: " + err.Error()
				}
				if err := model.EnvInput(into, buf, sep, "--"); err != nil {
					return "reading failed: " + err.Error()
				}
			}
			if w := diff(before, flat(e)); w != "" {
				return "saving changed the env: " + w
			}
			return diff(want, flat(into))
		})
	}
}

func TestVHLoadOnly(t *testing.T) {
	c := vh.New(t, "random texts are loaded as an env file; the outcome is compared with a reading line by line of the text: cut at the first separator, the deletion mark deletes, a line without separator is an error")
	defer c.Done()
	r := c.R
	bits := []string{"a", "b", "key", "=", "==", "--", " ", "\n", "\n", "\n", "\r\n", "'", "v", "x=y\n", "a=--\n", "é", "\x00", "\r", "b=", "[[a]]"}
	dir := vh.Work()
	path := filepath.Join(dir, "env")
	for c.More() {
		text := vh.Str(r, bits, 14)
		if r.Intn(100) == 0 {
			text += strings.Repeat("z", 65536+r.Intn(100)-50) + vh.Pick(r, "", "\n", "=1\n", "\nq=1")
		}
		lower := map[string]string{"a": "outer", "q": "outer"}
		had := map[string]string{}
		if r.Intn(2) == 0 {
			had["a"] = "old"
		}
		if r.Intn(2) == 0 {
			had["key"] = "old"
		}
		file := r.Intn(2) == 0
		in := text
		if len(in) > 200 {
			in = in[:100] + fmt.Sprintf("...(%d bytes)", len(text))
		}
		c.Try("text", fmt.Sprintf("%q over %s, file=%v", in, show(had), file), func() string {
			want := map[string]string{}
			for k, v := range lower {
				want[k] = v
			}
			for k, v := range had {
				want[k] = v
			}
			bad := false
			rest := text
			for len(rest) > 0 && !bad {
				line := rest
				if i := strings.IndexByte(rest, '\n'); i >= 0 {
					line, rest = rest[:i], rest[i+1:]
				} else {
					rest = ""
				}
				line = strings.TrimSuffix(line, "\r")
				k, v, ok := strings.Cut(line, "=")
				if !ok {
					bad = true
					break
				}
				if v == "--" {
					delete(want, k)
				} else {
					want[k] = v
				}
			}
			e := model.NewEnv()
			for k, v := range lower {
				e.Set(k, v)
			}
			e = e.NewLayer(model.EnvLayerPersisted)
			for k, v := range had {
				e.Set(k, v)
			}
			var err any
			if file {
				if we := os.WriteFile(path, []byte(text), 0644); we != nil {
					return we.Error()
				}
				_, err = vh.Panics(func() { model.LoadEnvFromFile(e, path, "=", "--") })
			} else if ie := model.EnvInput(e, strings.NewReader(text), "=", "--"); ie != nil {
				err = ie
			}
			if (err != nil) != bad {
				return fmt.Sprintf("a line without separator: %v, reported: %v", bad, err)
			}
			if bad {
				return ""
			}
			return diff(want, flat(e))
		})
	}
}

func TestVHNoFile(t *testing.T) {
	c := vh.New(t, "a file that does not exist changes nothing; a directory in its place is reported")
	defer c.Done()
	dir := vh.Work()
	c.Try("missing", "", func() string {
		e := model.NewEnv()
		e.Set("a", "1")
		model.LoadEnvFromFile(e, filepath.Join(dir, "none"), "=", "--")
		return diff(map[string]string{"a": "1"}, flat(e))
	})
	c.Try("directory", "", func() string {
		e := model.NewEnv()
		if p, _ := vh.Panics(func() { model.LoadEnvFromFile(e, dir, "=", "--") }); !p {
			return "reading a directory is not reported"
		}
		return ""
	})
}
