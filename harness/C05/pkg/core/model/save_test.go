//go:build go1.21

package model_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhsave"
)

func lines(m map[string]string) string {
	var r []string
	for k, v := range m {
		r = append(r, k+"="+v+"\n")
	}
	sort.Strings(r)
	return strings.Join(r, "")
}

func TestVHSaveEnv(t *testing.T) {
	c := vh.New(t, "an env file is saved over an earlier one with different content, the directory watched; then with writes failing after every number of bytes (or a selection of them for large contents), and to a place where it can't be")
	defer c.Done()
	r := c.R
	dir := vh.Work()
	for c.More() {
		var ms [2]map[string]string
		for i := range ms {
			ms[i] = map[string]string{"which": fmt.Sprint("content", i)}
			for n := r.Intn(5); n > 0; n-- {
				v := vh.Str(r, []string{"a", "b ", "=", "'", "é"}, 8)
				if r.Intn(25) == 0 {
					v += strings.Repeat("x", vh.Pick(r, 4000, 4096, 5000, 70000))
				}
				ms[i][fmt.Sprint("k", r.Intn(6))] = v
			}
		}
		s := vhsave.Saver{
			Save: func(path string, v int) {
				e := model.NewEnv().NewLayer(model.EnvLayerPersisted)
				for k, v := range ms[v] {
					e.Set(k, v)
				}
				model.SaveEnvToFile(e, path, "=", false)
			},
			Check: func(text string, v int) string {
				ls := strings.SplitAfter(text, "\n")
				sort.Strings(ls)
				if strings.Join(ls, "") != lines(ms[v]) {
					return fmt.Sprintf("the file has %q and not %q", text, lines(ms[v]))
				}
				return ""
			},
		}
		c.Try("env", fmt.Sprintf("%.300q over %.300q", ms[1], ms[0]), func() string { return s.Once(dir, vhsave.Limits(r)) })
	}
}
