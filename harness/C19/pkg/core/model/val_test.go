//go:build go1.21

package model_test

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/utils"
	"github.com/innerr/ticat/pkg/vh"
)

var onWords = []string{"true", "t", "1", "on", "y", "yes"}
var offWords = []string{"false", "f", "0", "off", "n", "no"}

func isIn(ws []string, s string) bool {
	for _, w := range ws {
		if strings.EqualFold(w, s) && strings.ToLower(s) == w {
			return true
		}
	}
	return false
}

func cases(w string, f func(string)) {
	for m := 0; m < 1<<len(w); m++ {
		b := []byte(w)
		for i := range b {
			if m>>i&1 == 1 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		f(string(b))
	}
}

func boolOf(s string) string {
	on, off := isIn(onWords, s), isIn(offWords, s)
	if g := model.StrToTrue(s); g != on {
		return fmt.Sprintf("StrToTrue is %v, want %v", g, on)
	}
	if g := model.StrToBool(s); g != on {
		return fmt.Sprintf("StrToBool is %v, want %v", g, on)
	}
	if g := model.StrToFalse(s); g != off {
		return fmt.Sprintf("StrToFalse is %v, want %v", g, off)
	}
	e := model.NewEnv()
	e.Set("k", s)
	if g := e.GetBool("k"); g != on {
		return fmt.Sprintf("Env.GetBool is %v, want %v", g, on)
	}
	a := model.ArgVals{"k": model.ArgVal{Raw: s, Provided: true}}
	if a.GetBool("k") != on || a.GetBoolEx("k", !on) != on || a.GetBoolEx("other", true) != true || a.GetBoolEx("other", false) != false {
		return "ArgVals.GetBool/GetBoolEx disagree"
	}
	return ""
}

func num(s string) string {
	e := model.NewEnv().NewLayer(model.EnvLayerSession)
	e.Set("k", s)
	a := model.ArgVals{"k": model.ArgVal{Raw: s, Provided: true}}
	want, err := strconv.ParseInt(s, 10, 64)
	bad := err != nil && s != ""
	for i, f := range []func() int{func() int { return e.GetInt("k") }, func() int { return a.GetInt("k") }, func() int { return a.GetIntEx("k", 77) }} {
		got := 0
		p, _ := vh.Panics(func() { got = f() })
		if p != bad || !bad && got != int(want) {
			return fmt.Sprintf("integer reader %d: panics %v gives %d, want panics %v gives %d", i, p, got, bad, want)
		}
	}
	uwant, err := strconv.ParseUint(s, 10, 64)
	bad = err != nil && s != ""
	for i, f := range []func() uint64{func() uint64 { return e.GetUint64("k") }, func() uint64 { return a.GetUint64("k") }, func() uint64 { return a.GetUint64Ex("k", 77) }} {
		got := uint64(0)
		p, _ := vh.Panics(func() { got = f() })
		if p != bad || !bad && got != uwant {
			return fmt.Sprintf("unsigned reader %d: panics %v gives %d, want panics %v gives %d", i, p, got, bad, uwant)
		}
	}
	return ""
}

func written(n int, d int) string {
	e := model.NewEnv()
	e.SetInt("k", n)
	if e.GetInt("k") != n || e.GetRaw("k") != strconv.Itoa(n) {
		return fmt.Sprintf("SetInt reads back as %d", e.GetInt("k"))
	}
	e.PlusInt("k", d)
	if e.GetInt("k") != n+d {
		return fmt.Sprintf("PlusInt gives %d", e.GetInt("k"))
	}
	e.PlusInt("fresh", d)
	if e.GetInt("fresh") != d {
		return fmt.Sprintf("PlusInt of a missing key gives %d", e.GetInt("fresh"))
	}
	e.SetUint64("u", uint64(n))
	if e.GetUint64("u") != uint64(n) {
		return fmt.Sprintf("SetUint64 reads back as %d", e.GetUint64("u"))
	}
	if e.SetBool("b", n%2 == 0) != false || e.GetBool("b") != (n%2 == 0) || e.SetBool("b", n%2 != 0) != (n%2 == 0) || e.GetBool("b") != (n%2 != 0) {
		return "SetBool/GetBool disagree"
	}
	return ""
}

func dur(s string) string {
	want := s
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		want = s + "s"
	}
	if g := utils.NormalizeDurStr(s); g != want {
		return fmt.Sprintf("NormalizeDurStr gives %q, want %q", g, want)
	}
	d, err := time.ParseDuration(want)
	e := model.NewEnv()
	e.Set("k", s)
	var got time.Duration
	p, _ := vh.Panics(func() { got = e.GetDur("k") })
	if p != (err != nil) || !p && got != d {
		return fmt.Sprintf("GetDur panics %v gives %v, want %v (error %v)", p, got, d, err)
	}
	p, _ = vh.Panics(func() { e.SetDur("d", s); got = e.GetDur("d") })
	if p != (err != nil) || !p && got != d {
		return fmt.Sprintf("SetDur+GetDur panics %v gives %v, want %v (error %v)", p, got, d, err)
	}
	return ""
}

func TestVHVal(t *testing.T) {
	c := vh.New(t, "switch words in every letter case and near misses; integers and durations against strconv and time")
	defer c.Done()
	tryBool := func(s string) { c.Try("bool", fmt.Sprintf("%q", s), func() string { return boolOf(s) }) }
	for _, w := range append(append([]string{}, onWords...), offWords...) {
		cases(w, tryBool)
		for _, s := range []string{" " + w, w + " ", w + w, w[1:], w[:len(w)-1], "-" + w, w + "\n", "0" + w, w + "s"} {
			tryBool(s)
		}
	}
	tryBool("")
	vh.Strings([]string{"t", "T", "f", "F", "y", "Y", "n", "N", "o", "O", "1", "0", "e", "ı", "ſ"}, 3, tryBool)
	for _, s := range []string{"enable", "enabled", "disable", "disabled", "none", "null", "nil", "ok", "ON1", "yep", "nope", "truth", "+1", "-1", "00", "01", "10", "2"} {
		tryBool(s)
	}
	tryNum := func(s string) { c.Try("number", fmt.Sprintf("%q", s), func() string { return num(s) }) }
	vh.Strings([]string{"0", "1", "-", "+", "_", "x", " ", "9"}, 4, tryNum)
	for _, s := range []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "0x10", "1.0"} {
		tryNum(s)
	}
	for _, n := range []int{0, 1, -1, 9, 10, 42, 1000, math.MaxInt32, math.MinInt32, math.MaxInt64 / 2, math.MinInt64 / 2} {
		for _, d := range []int{0, 1, -1, 7, -100} {
			n, d := n, d
			c.Try("written", fmt.Sprint(n, " plus ", d), func() string { return written(n, d) })
		}
	}
	tryDur := func(s string) { c.Try("duration", fmt.Sprintf("%q", s), func() string { return dur(s) }) }
	vh.Strings([]string{"1", "5", ".", "s", "m", "h", "-", "e"}, 5, tryDur)
	for _, s := range []string{"100ms", "1h30m", "10us", "10µs", "3600", "0", "1_000", "inf", "NaN", "0x10", " 1", "1 ", "60.5", "1d", "m", "3sec"} {
		tryDur(s)
	}
	for c.More() {
		s := vh.Str(c.R, []string{"t", "r", "u", "e", "f", "a", "l", "s", "o", "n", "y", "T", "O", "N", "1", "0", " "}, 1+c.R.Intn(6))
		tryBool(s)
		n := c.R.Intn(1<<40) - 1<<39
		d := c.R.Intn(2000) - 1000
		c.Try("written", fmt.Sprint(n, " plus ", d), func() string { return written(n, d) })
		tryNum(strconv.Itoa(n))
		tryDur(vh.Str(c.R, []string{"1", "2", "0", "9", ".", "s", "m", "h", "ms", "us", "ns", "-"}, 1+c.R.Intn(7)))
		if c.R.Intn(20) == 0 && !c.Deep && c.R.Intn(500) == 0 {
			break
		}
	}
}
