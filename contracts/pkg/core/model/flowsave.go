//go:build go1.21

package model

import (
	"strings"

	. "github.com/innerr/ticat/pkg/vstd"
)

// ---- writing a flow as text (C26)

//vc:contract normalizeEnvVal
func _(v string, seqSep string) (r string) {
	NoAlloc()
	Requires(len(seqSep) > 0)
	Ensures(r == ReplaceText(v, seqSep, "\\"+seqSep), "every separator in a value is escaped, nothing else is changed")
	return
}

// ---- the lines of a stored flow (C11)

//vc:spec
func cmdLine(line string) bool {
	t := strings.TrimSpace(line)
	return len(t) > 0 && t[0] != '#'
}

// cmdLines: the command lines among the first n lines.
//
//vc:spec
//vc:dec n
func cmdLines(flow []string, n int) []string {
	if n <= 0 {
		return []string{}
	}
	if cmdLine(flow[n-1]) {
		return append(cmdLines(flow, n-1), strings.TrimSpace(flow[n-1]))
	}
	return cmdLines(flow, n-1)
}

//vc:spec
func endsCmd(line, sep string) bool {
	return strings.HasSuffix(line, sep) && !strings.HasSuffix(line, "\\"+sep)
}

//vc:spec
func sepLine(lines []string, i int, sep string) string {
	if i == len(lines)-1 || endsCmd(lines[i], sep) {
		return lines[i]
	}
	return lines[i] + " " + sep
}

//vc:spec
//vc:dec n
func sepLines(lines []string, n int, sep string) []string {
	if n <= 0 {
		return []string{}
	}
	return append(sepLines(lines, n-1, sep), sepLine(lines, n-1, sep))
}

//vc:contract StripFlowForExecute
func _(flow []string, sequenceSep string) (r []string) {
	NoAlloc()
	lines := cmdLines(flow, len(flow))
	Ensures(Eq(r, sepLines(lines, len(lines), sequenceSep)), "exactly the command lines are kept, in order and unchanged, with a separator between them")
	//vc:inv 0: Eq(output, cmdLines(flow, Iter()))
	//vc:inv 1: Eq(output, sepLines(flow, Iter(), sequenceSep))
	return
}
