//go:build go1.21

package parser

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

type setting struct{ key, word, val string }

func vhTree() *model.CmdTree {
	tree := model.NewCmdTree(model.CmdTreeStrsForTest())
	reg := func(path string, args ...string) {
		n := tree.GetOrAddSub(strings.Split(path, ".")...)
		c := n.RegEmptyCmd("help")
		for i, a := range args {
			c.AddArg(a, "", strings.ToUpper(a), fmt.Sprintf("arg%d", i))
		}
	}
	reg("a")
	reg("a.b")
	reg("t", "x", "y", "zz")
	reg("t.u", "x")
	reg("n.o.p", "q", "qq")
	return tree
}

func vhParser() *CmdParser {
	return NewCmdParser(NewEnvParser(Brackets{"{", "}"}, "\t\n\r ", "=", ".", "%"), ".", "./", "\t\n\r ", "<root>", "^", "/\\")
}

// settings of a parsed command, as a command gets them
func vhGot(p model.ParsedCmd) map[string]string {
	env := p.GenCmdEnv(model.NewEnvEx(model.EnvLayerDefault), "--")
	got := map[string]string{}
	for k, v := range env.FlattenAll() {
		got[k] = v
	}
	return got
}

func TestVHBlocks(t *testing.T) {
	c := vh.New(t, "blocks of settings before, in and after a command path, spread over words in all ways; the settings the command gets against the written ones")
	defer c.Done()
	r := c.R
	tree := vhTree()
	ps := vhParser()
	abbrs := model.NewEnvAbbrs("<root>")
	for _, k := range []string{"key", "sub"} {
		abbrs.GetOrAddSub(k)
	}
	abbrs.GetOrAddSub("key").GetOrAddSub("one")
	abbrs.AddSubAbbrs("key", "K")
	abbrs.GetSub("key").AddSubAbbrs("one", "1")
	plain := []setting{{"key", "key", ""}, {"key", "K", ""}, {"key.one", "K.1", ""}, {"key.one", "key.one", ""}, {"other", "other", ""}, {"K.zz", "K.zz", ""}, {"x", "x", ""}, {"o-p_q", "o-p_q", ""}}
	paths := [][]string{{"a"}, {"a", "b"}, {"t"}, {"t", "u"}, {"n", "o", "p"}, {}}
	blank := func() string { return vh.Pick(r, "", "", " ", "\t", "  ") }
	for c.More() {
		path := vh.Pick(r, paths...)
		useAbbrs := r.Intn(3) == 0
		want := map[string]string{}
		var toks []string // "" is a must-be-new-word mark, "?" a free break
		blocks := 0
		block := func(at []string) {
			node := tree
			if len(at) != 0 {
				node = tree.GetSub(at...)
			}
			pool := plain
			withArgs := false
			if node.Cmd() != nil {
				withArgs = true
				pool = nil
				args := node.Args()
				for i, a := range args.Names() {
					pool = append(pool, setting{a, a, ""}, setting{a, strings.ToUpper(a), ""}, setting{a, fmt.Sprintf("arg%d", i), ""})
				}
				if len(pool) == 0 {
					return
				}
			}
			blocks++
			toks = append(toks, "{", "?")
			n := r.Intn(4)
			for i := 0; i < n; i++ {
				if i > 0 {
					toks = append(toks, "")
				}
				s := vh.Pick(r, pool...)
				v := vh.Pick(r, "1", "v w", "x.y", "é", "key", "--x", "a:b", "/", "^")
				key := s.key
				if !withArgs && !(useAbbrs && len(at) == 0) {
					key = s.word
				}
				if len(at) != 0 {
					key = strings.Join(at, ".") + "." + key
				}
				want[key] = v
				toks = append(toks, s.word, "?", "=", "?", v)
			}
			if n == 0 {
				toks = append(toks, "}")
			} else {
				toks = append(toks, "?", "}")
			}
		}
		if r.Intn(2) == 0 {
			block(nil)
		}
		for i, p := range path {
			if i > 0 && len(toks) > 0 && toks[len(toks)-1] != "}" {
				toks = append(toks, "?", ".", "?")
			} else if len(toks) > 0 {
				toks = append(toks, "?")
			}
			toks = append(toks, p)
			if r.Intn(2) == 0 {
				toks = append(toks, "?")
				block(path[:i+1])
				for toks[len(toks)-1] == "}" && r.Intn(4) == 0 {
					toks = append(toks, "?")
					block(path[:i+1])
				}
				if toks[len(toks)-1] == "?" {
					toks = toks[:len(toks)-1]
				}
			}
		}
		if len(toks) == 0 {
			continue
		}
		unclosed := false
		if blocks > 0 && r.Intn(12) == 0 {
			for i := len(toks) - 1; i >= 0; i-- {
				if toks[i] == "}" {
					toks = append(append([]string{}, toks[:i]...), toks[i+1:]...)
					unclosed = true
					break
				}
			}
		}
		words := []string{}
		cur := ""
		for _, k := range toks {
			switch k {
			case "":
				words = append(words, cur+blank())
				cur = blank()
			case "?":
				switch r.Intn(3) {
				case 0:
					words = append(words, cur+blank())
					cur = blank()
				case 1:
					cur += blank()
				}
			default:
				cur += k
			}
		}
		words = append(words, cur)
		var input []string
		for _, w := range words {
			if strings.TrimSpace(w) != "" { // the command line is split at blanks before
				input = append(input, strings.TrimSpace(w))
			}
		}
		var ab *model.EnvAbbrs
		if useAbbrs {
			ab = abbrs
		}
		c.Try("env.blocks", fmt.Sprintf("%q, key abbreviations %v, unclosed %v", input, useAbbrs, unclosed), func() string {
			parsed := ps.Parse(tree, ab, append([]string{}, input...))
			if unclosed {
				if parsed.ParseResult.Error == nil {
					return "a block that is not closed is not reported"
				}
				return ""
			}
			if parsed.ParseResult.Error != nil {
				return "rejected: " + parsed.ParseResult.Error.Error()
			}
			if p := strings.Join(parsed.Path(), "."); p != strings.Join(path, ".") {
				return "the command is " + p + ", expected " + strings.Join(path, ".")
			}
			got := vhGot(parsed)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("settings %q, expected %q", got, want)
			}
			return ""
		})
	}
}

func TestVHAnyWords(t *testing.T) {
	c := vh.New(t, "any words parse without a crash, what is set is written in the words")
	defer c.Done()
	tree := vhTree()
	ps := vhParser()
	for c.More() {
		var input []string
		for n := c.R.Intn(6); n > 0; n-- {
			input = append(input, vh.Str(c.R, []string{"a", "b", "t", "x", "{", "}", "=", ".", " ", "/", "^", "\\", "u", "\t", "é"}, 5))
		}
		c.Try("env.any", fmt.Sprintf("%q", input), func() string {
			parsed := ps.Parse(tree, nil, append([]string{}, input...))
			if fmt.Sprint(parsed.ParseResult.Input) != fmt.Sprint(input) {
				return fmt.Sprintf("the input is kept as %q", parsed.ParseResult.Input)
			}
			all := strings.Join(input, " ")
			for k, v := range vhGot(parsed) {
				last := k[strings.LastIndex(k, ".")+1:]
				if !strings.Contains(all, v) || last != "zz" && last != "y" && last != "x" && last != "q" && last != "qq" && !strings.Contains(all, last) {
					return fmt.Sprintf("%q is set to %q", k, v)
				}
			}
			return ""
		})
	}
}
