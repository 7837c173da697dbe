//go:build go1.21

package builtin_test

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/mods/builtin"
	"github.com/innerr/ticat/pkg/vh"
)

type runner struct {
	runs [][]string
	fail int
}

func (r *runner) Execute(caller string, inner bool, cc *model.Cli, env *model.Env, masks []*model.ExecuteMask, input ...string) bool {
	r.runs = append(r.runs, append([]string{}, input...))
	if len(r.runs) > 100000 {
		panic("the join does not stop")
	}
	return r.fail == 0 || len(r.runs) != r.fail
}
func (r *runner) Clone() model.Executor { return r }

type list struct {
	key, text string
	vals      []string
	bad       bool
}

func oracle(lists []list, cmd string) (r [][]string) {
	total := 1
	for _, l := range lists {
		total *= len(l.vals)
	}
	for n := 0; n < total; n++ {
		row, rest := make([]string, len(lists)+1), n
		for i := len(lists) - 1; i >= 0; i-- {
			l := lists[i]
			row[i+1] = l.key + "=" + l.vals[rest%len(l.vals)]
			rest /= len(l.vals)
		}
		row[0] = cmd
		r = append(r, row)
	}
	return r
}

func join(lists []list, fail int) string {
	cmds := model.NewCmdTree(model.CmdTreeStrsForTest())
	sub := cmds.AddSub("join")
	cmd := sub.RegPowerCmd(builtin.JoinRun, "").AddArg("cmd", "")
	_ = cmd
	parsed := model.ParsedCmd{Segments: []model.ParsedCmdSeg{{Matched: model.MatchedCmd{Name: "join", Cmd: sub}}}}
	flow := &model.ParsedCmds{Cmds: model.ParsedCmdSeq{parsed}, GlobalCmdIdx: 0}
	ex := &runner{fail: fail}
	cc := model.NewCli(nil, cmds, nil, nil, nil, nil)
	cc.Executor = ex
	def := model.NewEnvEx(model.EnvLayerDefault)
	def.Set("strs.list-sep", ",")
	env := def.NewLayer(model.EnvLayerSession).NewLayer(model.EnvLayerCmd)
	str := func(s string) model.ArgVal { return model.ArgVal{Raw: s, Provided: true} }
	var good []list
	for _, l := range lists {
		l := l
		var ok bool
		p, _ := vh.Panics(func() {
			_, ok = builtin.JoinNew(model.ArgVals{"key": str(l.key), "value": str(l.text)}, cc, env, flow, 0)
		})
		if p != l.bad || !p && !ok {
			return fmt.Sprintf("adding list %q: rejected %v, want %v", l.text, p, l.bad)
		}
		if !p {
			good = append(good, l)
		}
	}
	if len(good) == 0 {
		return ""
	}
	want := oracle(good, "run.it")
	ok := fail == 0 || fail > len(want)
	if !ok {
		want = want[:fail]
	}
	var idx int
	var res bool
	if p, v := vh.Panics(func() { idx, res = builtin.JoinRun(model.ArgVals{"cmd": str("run.it")}, cc, env, flow, 0) }); p {
		return fmt.Sprintf("the join crashed: %v", v)
	}
	if fmt.Sprintf("%q", ex.runs) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("runs %q, want %q", ex.runs, want)
	}
	if res != ok || idx != 0 {
		return fmt.Sprintf("reports %v at %d, want %v at 0", res, idx, ok)
	}
	return ""
}

func TestVHJoin(t *testing.T) {
	c := vh.New(t, "joins of up to four lists and ranges against an enumeration of the product by a running number")
	defer c.Done()
	words := []string{"a", "b", "c", "dd", "", "1", "a=b", "x y", "é", "\"", "\\", "<&>", "b", "[", "]"}
	mk := func() list {
		l := list{key: vh.Pick(c.R, "k", "key.a", "K2", "k")}
		switch c.R.Intn(6) {
		case 0: // range
			a, n, st := c.R.Intn(9)-4, c.R.Intn(5)-1, 1+c.R.Intn(3)
			e := a + n*st + c.R.Intn(st)
			for x := a; x <= e; x += st {
				l.vals = append(l.vals, fmt.Sprint(x))
			}
			l.text = fmt.Sprintf("[%d,%d,%d]", a, e, st)
			if st == 1 && c.R.Intn(2) == 0 {
				l.text = fmt.Sprintf("[%d,%d]", a, e)
			}
			switch c.R.Intn(5) {
			case 0: // in quarters, exact in binary
				l.vals, l.text = nil, fmt.Sprintf("[%d.0,%s,%s]", a, strconv.FormatFloat(float64(e)+0.25, 'f', 2, 64), strconv.FormatFloat(float64(st)/4, 'f', 2, 64))
				for x := 4 * a; x <= 4*e+1; x += st {
					l.vals = append(l.vals, fmt.Sprintf("%f", float64(x)/4))
				}
			case 1: // the largest numbers
				k := c.R.Intn(3)
				top := uint64(math.MaxInt64)
				l.vals, l.text = nil, fmt.Sprintf("[%d,%d,2]", top-uint64(k), top)
				for x := top - uint64(k); x <= top; x += 2 {
					l.vals = append(l.vals, fmt.Sprint(x))
				}
			}
		case 1: // no range
			l.bad = true
			l.text = vh.Pick(c.R, "[1,5,0]", "[1,5,-1]", "[a,b]", "[1,x]", "[1.5,2,0]", "[,1]", "[1,]", "[1,2,]", "[0.5,b]", "[ 1,2]", "[1e17.,1e18.,1.]", "[0.,Inf,1]", "[NaN,1.,x]")
		default:
			n := 1 + c.R.Intn(4)
			for i := 0; i < n; i++ {
				l.vals = append(l.vals, vh.Pick(c.R, words...))
			}
			l.text = strings.Join(l.vals, ",")
			if k := strings.Count(l.text, ","); l.text == "" || strings.HasPrefix(l.text, "[") && strings.HasSuffix(l.text, "]") && k >= 1 && k <= 2 {
				l.vals, l.text = []string{"z"}, "z"
			}
		}
		return l
	}
	for c.More() {
		var ls []list
		text := ""
		for i := c.R.Intn(4); i >= 0; i-- {
			l := mk()
			ls = append(ls, l)
			text += fmt.Sprintf("%s:%q ", l.key, l.text)
		}
		fail := 0
		if c.R.Intn(3) == 0 {
			fail = 1 + c.R.Intn(6)
		}
		c.Try("join", fmt.Sprintf("lists %sfailing run %d", text, fail), func() string { return join(ls, fail) })
		if !c.Deep && c.R.Intn(30000) == 0 {
			break
		}
	}
}
