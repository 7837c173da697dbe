//go:build go1.21

package flow_file_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/mods/persist/flow_file"
	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhsave"
)

func TestVHSaveFlow(t *testing.T) {
	c := vh.New(t, "a flow file is saved over an earlier one with different content, the directory watched; then with writes failing after every number of bytes (or a selection of them for large contents), and to a place where it can't be")
	defer c.Done()
	r := c.R
	dir := vh.Work()
	for c.More() {
		var fs [2][]string
		var help [2]string
		for i := range fs {
			help[i] = fmt.Sprint("help", i)
			for n := 1 + r.Intn(4); n > 0; n-- {
				f := "cmd" + vh.Str(r, []string{"a", "b ", "=", "'", "é"}, 8) + "."
				if r.Intn(25) == 0 {
					f += strings.Repeat("x", vh.Pick(r, 4000, 4096, 5000, 30000))
				}
				fs[i] = append(fs[i], f)
			}
		}
		s := vhsave.Saver{
			Save: func(path string, v int) { flow_file.SaveFlowFile(path, fs[v], help[v], "ab", "2", "", "") },
			Check: func(text string, v int) string {
				// every part of the content is there, and nothing of the other one
				if !strings.Contains(text, "help = "+help[v]+"\n") || strings.Contains(text, help[1-v]) || !strings.Contains(text, "abbrs = ab\n") || !strings.Contains(text, "trivial = 2\n") || strings.Contains(text, "left=behind") {
					return fmt.Sprintf("the file has %q and not the saved flow", text)
				}
				i := strings.Index(text, "flow = ")
				if i < 0 {
					return fmt.Sprintf("the file has %q and not the saved flow", text)
				}
				var got []string
				for _, l := range strings.Split(strings.TrimSuffix(text[i+len("flow = "):], "\n"), "\n") {
					got = append(got, strings.TrimSpace(strings.TrimSuffix(l, "\\")))
				}
				if strings.Join(got, "\n") != strings.Join(fs[v], "\n") {
					return fmt.Sprintf("the file has %q and not the flow %q", text, fs[v])
				}
				return ""
			},
		}
		c.Try("flow", fmt.Sprintf("%.300q over %.300q", fs[1], fs[0]), func() string { return s.Once(dir, vhsave.Limits(r)) })
	}
}
