//go:build go1.21

package ticat_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/vh"
	"github.com/innerr/ticat/pkg/vhe"
)

func TestVHTemplateRun(t *testing.T) {
	c := vh.New(t, "stored flows with references, run: the arguments the commands got")
	defer c.Done()
	for c.More() {
		w := vhe.New(vh.Work())
		w.Cmd("one").AddArg("x", "d")
		a := vh.Pick(c.R, "v", "1", "[[b]]", "[[a]]", "[[k.e]]", "[[no]]", "q]]", "[[q", "")
		b := vh.Pick(c.R, "w", "2", "[[a]]")
		e := vh.Pick(c.R, "1,2,3", "p", "[[a]],[[b]]", "*,**")
		val := map[string]string{"[[a]]": a, "[[b]]": b, "[[k.e]]": e}
		var lines, want []string
		miss := false
		ref := func() (string, string) {
			r := vh.Pick(c.R, "[[a]]", "[[b]]", "[[k.e]]", "[[a]]", "[[b]]", "[[k.e]]", "[[no]]")
			if r == "[[no]]" || r == "[[a]]" && a == "" {
				miss = true
			}
			return r, val[r]
		}
		for i := 1 + c.R.Intn(3); i > 0; i-- {
			switch c.R.Intn(4) {
			case 0:
				lines = append(lines, "# one x=[[no]]")
			case 1:
				r, v := ref()
				l := fmt.Sprintf("** one x=%s.[[*k.e*]].t : **", r)
				for _, x := range strings.Split(e, ",") {
					want = append(want, v+"."+x+".t")
				}
				if c.R.Intn(2) == 0 {
					l = "one x=l : " + l
					want = append(want[:len(want)-len(strings.Split(e, ","))], append([]string{"l"}, want[len(want)-len(strings.Split(e, ",")):]...)...)
				}
				lines = append(lines, l)
			default:
				r, v := ref()
				r2, v2 := ref()
				lines = append(lines, fmt.Sprintf("one x=p%s-%s]", r, r2))
				want = append(want, "p"+v+"-"+v2+"]")
			}
		}
		w.Flow("all", lines...).AddArg("a", "").AddArg("b", "")
		w.Env.Set("k.e", e)
		args := []string{"all", "b=" + b}
		if a != "" {
			args = append(args, "a="+a)
		}
		c.Try("run", fmt.Sprintf("%q with %q k.e=%q", lines, args[1:], e), func() string {
			ok, p := w.Run(args...)
			var got []string
			for _, l := range w.Log {
				got = append(got, l.Argv["x"])
			}
			if miss {
				if ok && p == nil {
					return fmt.Sprintf("a missing value was not reported, ran with %q", got)
				}
				return ""
			}
			if !ok || p != nil || strings.Join(got, ";") != strings.Join(want, ";") {
				return fmt.Sprintf("ran with %q (%v %v), not %q", got, ok, p, want)
			}
			return ""
		})
	}
}
