//go:build go1.21

package ticat_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

func TestVHStripRun(t *testing.T) {
	c := vh.New(t, "stored flows with comments and blank lines, run: the commands called")
	defer c.Done()
	for c.More() {
		w := vhe.New(vh.Work())
		w.Cmd("one").AddArg("x", "d")
		w.Cmd("two").AddArg("x", "d")
		w.Cmd("never")
		var lines, want []string
		for i := 1 + c.R.Intn(6); i > 0; i-- {
			name, x := vh.Pick(c.R, "one", "two"), vh.Pick(c.R, "v", "1#2", "d", "#n", "p #q", "http", "a\\")
				q := x
			switch x {
			case "p #q":
				q = "\"p #q\""
			case "a\\":
				q = "a\\\\"
			}
			sep := vh.Pick(c.R, "", "", " :", ":", " : ")
			if x == "http" || x == "a\\" {
				sep = vh.Pick(c.R, "", " :")
			}
			lead := vh.Pick(c.R, "", " ", "\t")
			switch c.R.Intn(6) {
			case 0:
				lines = append(lines, lead+"# never"+sep)
			case 1:
				lines = append(lines, vh.Pick(c.R, "", " ", "\t", "#", " #never", "## x : never"))
			case 2:
				lines = append(lines, lead+name+" x="+q+" : two x=w"+sep)
				want = append(want, name+" "+x, "two w")
			default:
				lines = append(lines, lead+name+" x="+q+sep)
				want = append(want, name+" "+x)
			}
		}
		w.Flow("all", lines...)
		c.Try("run", fmt.Sprintf("%q", lines), func() string {
			ok, p := w.Run("all")
			var got []string
			for _, l := range w.Log {
				got = append(got, l.Name+" "+l.Argv["x"])
			}
			if !ok || p != nil || strings.Join(got, ";") != strings.Join(want, ";") {
				return fmt.Sprintf("ran %q (%v %v), not %q", got, ok, p, want)
			}
			return ""
		})
	}
}
