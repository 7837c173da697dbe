From f2bfe29cfe903f4f205c4aa3a4bc35ab024ec532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 01/37] fix: keep the scan position right after dropping an
 escape before a separator

---
 pkg/core/parser/sequence.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index cda7e53..10897b6 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -43,6 +43,7 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			//  2. this is a workaround, we also need to handle '\\', '\\\', ... things like that
 			if searchIdx >= 1 && "\\" == arg[searchIdx-1:searchIdx] {
 				arg = arg[0:searchIdx-1] + arg[searchIdx:]
+				searchIdx -= 1
 				continue
 			}
 			unbreakable := false
-- 
2.43.0


From 1a7fd3c4c069558d3c578bad11296a417f773313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 02/37] fix: an escaped separator standing alone as a word is
 not a separator

---
 pkg/core/parser/sequence.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index 10897b6..ea2a4aa 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -23,11 +23,19 @@ func NewSequenceParser(
 }
 
 func (self *SequenceParser) Normalize(argv []string) []string {
+	res, _ := self.normalize(argv)
+	return res
+}
+
+// An escaped separator could be a word of its own, 'isSep' tells it from the real ones
+func (self *SequenceParser) normalize(argv []string) (res []string, isSep []bool) {
 	sepN := len(self.sep)
-	res := []string{}
+	res = []string{}
+	isSep = []bool{}
 	for _, arg := range argv {
 		if len(arg) == 0 {
 			res = append(res, arg)
+			isSep = append(isSep, false)
 		}
 		handledIdx := 0
 		searchIdx := 0
@@ -35,6 +43,7 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			i := strings.Index(arg[searchIdx:], self.sep)
 			if i < 0 {
 				res = append(res, arg[handledIdx:])
+				isSep = append(isSep, false)
 				break
 			}
 			searchIdx += i
@@ -69,26 +78,28 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			}
 			if handledIdx != searchIdx {
 				res = append(res, arg[handledIdx:searchIdx])
+				isSep = append(isSep, false)
 			}
 			res = append(res, self.sep)
+			isSep = append(isSep, true)
 			handledIdx = searchIdx + sepN
 		}
 	}
-	return res
+	return res, isSep
 }
 
 func (self *SequenceParser) Parse(argv []string) (parsed [][]string, firstIsGlobal bool) {
-	argv = self.Normalize(argv)
+	argv, isSep := self.normalize(argv)
 
 	firstIsGlobal = true
-	if len(argv) != 0 && argv[0] == self.sep {
+	if len(argv) != 0 && isSep[0] {
 		firstIsGlobal = false
 	}
 
 	parsed = [][]string{}
 	curr := []string{}
-	for _, arg := range argv {
-		if arg != self.sep {
+	for i, arg := range argv {
+		if !isSep[i] {
 			arg = strings.TrimSpace(arg)
 			//if len(arg) != 0 {
 			curr = append(curr, arg)
-- 
2.43.0


From 1ffe7e7fa37762a03276d54a08e3b89991bd61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 03/37] fix: mask the values of sensitive args in flow
 descriptions

---
 pkg/cli/display/args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cli/display/args.go b/pkg/cli/display/args.go
index 7395118..5e0b51d 100644
--- a/pkg/cli/display/args.go
+++ b/pkg/cli/display/args.go
@@ -50,7 +50,7 @@ func DumpEffectedArgs(
 		line := ColorArg(k, env) + " " + ColorSymbol("=", env) + " "
 		v, provided := argv[k]
 		if provided && v.Provided {
-			line += mayQuoteStr(v.Raw)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, v.Raw))
 		} else {
 			if len(defV) == 0 {
 				continue
@@ -63,7 +63,7 @@ func DumpEffectedArgs(
 			if hasMapping && writtenKeys[key] {
 				continue
 			}
-			line += mayQuoteStr(defV)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, defV))
 		}
 		output = append(output, line)
 	}
-- 
2.43.0


From a3e9faa310db40cdf019d2a18f3e0668ff9ca756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 04/37] fix: report malformed and endless ranges of join lists
 instead of guessing values

---
 pkg/mods/builtin/join.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 92aabcf..fcbc605 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -49,17 +49,25 @@ func JoinNew(
 			endStr = val[j+1 : len(val)-1]
 			stepStr = "1"
 		}
+		assertRange := func(ok bool) {
+			if !ok {
+				panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+					fmt.Sprintf("invalid range '%s', should be '[start,end,step]' with positive step", val)))
+			}
+		}
 		if strings.Contains(val, ".") {
-			start, _ := strconv.ParseFloat(startStr, 64)
-			end, _ := strconv.ParseFloat(endStr, 64)
-			step, _ := strconv.ParseFloat(stepStr, 64)
+			start, startErr := strconv.ParseFloat(startStr, 64)
+			end, endErr := strconv.ParseFloat(endStr, 64)
+			step, stepErr := strconv.ParseFloat(stepStr, 64)
+			assertRange(startErr == nil && endErr == nil && stepErr == nil && step > 0)
 			for ; start <= end; start += step {
 				vals = append(vals, fmt.Sprintf("%f", start))
 			}
 		} else {
-			start, _ := strconv.Atoi(startStr)
-			end, _ := strconv.Atoi(endStr)
-			step, _ := strconv.Atoi(stepStr)
+			start, startErr := strconv.Atoi(startStr)
+			end, endErr := strconv.Atoi(endStr)
+			step, stepErr := strconv.Atoi(stepStr)
+			assertRange(startErr == nil && endErr == nil && stepErr == nil && step > 0)
 			for ; start <= end; start += step {
 				vals = append(vals, strconv.Itoa(start))
 			}
-- 
2.43.0


From e32f66d37de43f57d6ab473c76c0252738603bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 05/37] fix: a join over an empty range runs nothing instead of
 crashing

---
 pkg/mods/builtin/join.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index fcbc605..fccc6f0 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -118,6 +118,12 @@ func JoinRun(
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 			"can't execute null ticat command"))
 	}
+	for _, kv := range kvs {
+		if len(kv.Vals) == 0 {
+			// No combinations at all
+			return currCmdIdx, true
+		}
+	}
 	iter := newJoinKvsIter(kvs)
 	for {
 		args := []string{cmd}
-- 
2.43.0


From f03f2416861f301bad45b0fd30736427f5c1fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 06/37] fix: a failed combination fails the join instead of
 being ignored

---
 pkg/mods/builtin/join.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index fccc6f0..28451c8 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -131,8 +131,11 @@ func JoinRun(
 		for i, key := range keys {
 			args = append(args, key+"="+vals[i])
 		}
-		cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
+		succeeded := cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
 			true, cc, env, nil, args...)
+		if !succeeded {
+			return currCmdIdx, false
+		}
 		if !iter.next() {
 			break
 		}
-- 
2.43.0


From e0925e8bf9f4ea317ddd73794d71b3e7e5710cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 07/37] fix: end integer ranges of joins at the largest number,
 reject float ranges that never end

---
 pkg/mods/builtin/join.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 28451c8..6f7de53 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -3,6 +3,7 @@ package builtin
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -60,16 +61,26 @@ func JoinNew(
 			end, endErr := strconv.ParseFloat(endStr, 64)
 			step, stepErr := strconv.ParseFloat(stepStr, 64)
 			assertRange(startErr == nil && endErr == nil && stepErr == nil && step > 0)
-			for ; start <= end; start += step {
+			for start <= end {
 				vals = append(vals, fmt.Sprintf("%f", start))
+				next := start + step
+				// Too small a step to get anywhere, or an infinite bound
+				assertRange(next > start && !math.IsInf(end, 0))
+				start = next
 			}
 		} else {
 			start, startErr := strconv.Atoi(startStr)
 			end, endErr := strconv.Atoi(endStr)
 			step, stepErr := strconv.Atoi(stepStr)
 			assertRange(startErr == nil && endErr == nil && stepErr == nil && step > 0)
-			for ; start <= end; start += step {
+			for start <= end {
 				vals = append(vals, strconv.Itoa(start))
+				next := start + step
+				if next < start {
+					// Overflow, out of the range
+					break
+				}
+				start = next
 			}
 		}
 	} else {
-- 
2.43.0


From 886e69ed9ce7bde6adc74d98e5cf076ab5498799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 08/37] fix: keep the global command index right when several
 commands are moved or empty ones removed

---
 pkg/core/execute/executor.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e4e0d61..805fac4 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -113,7 +113,10 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 		flow.AttempTailModeCall = attempTailModeCall
 		// TODO: this may not right if flow was changed in recursive process, but not big deal
 		if moved && flow.GlobalCmdIdx == 0 {
-			flow.GlobalCmdIdx = 1
+			// All the moved ones are in front of the global cmd
+			for flow.GlobalCmdIdx < len(flow.Cmds) && flow.Cmds[flow.GlobalCmdIdx].TailMode {
+				flow.GlobalCmdIdx += 1
+			}
 		}
 	}
 
@@ -330,12 +333,16 @@ func (self *Executor) executeCmd(
 
 func removeEmptyCmds(flow *model.ParsedCmds) {
 	var cmds []model.ParsedCmd
-	for _, cmd := range flow.Cmds {
+	globalCmdIdx := flow.GlobalCmdIdx
+	for i, cmd := range flow.Cmds {
 		if !cmd.IsAllEmptySegments() {
 			cmds = append(cmds, cmd)
+		} else if i < flow.GlobalCmdIdx {
+			globalCmdIdx -= 1
 		}
 	}
 	flow.Cmds = cmds
+	flow.GlobalCmdIdx = globalCmdIdx
 }
 
 func checkTailModeCalls(flow *model.ParsedCmds) {
-- 
2.43.0


From 6aece48595c5dbb9735a77372f5f575463005a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 09/37] fix: record a command that was skipped by hand as
 skipped, not as succeeded

---
 pkg/core/model/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db61fae..c3bbcb6 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1082,5 +1082,5 @@ func shouldExecByMask(mask *ExecuteMask) bool {
 }
 
 func executedAndSucceeded(mask *ExecuteMask) bool {
-	return (mask != nil || mask.ResultIfExecuted == ExecutedResultSucceeded)
+	return (mask != nil && mask.ResultIfExecuted == ExecutedResultSucceeded)
 }
-- 
2.43.0


From e02fea44b14a2fd61ef0e60482ea5a5a539a22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 10/37] fix: a segment without command counts as empty instead
 of crashing

---
 pkg/core/model/parsing.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index daedb31..dc4bf1b 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -226,8 +226,7 @@ func (self ParsedCmd) IsAllEmptySegments() bool {
 		return false
 	}
 	for _, seg := range self.Segments {
-		cmd := seg.Matched.Cmd
-		if cmd != nil || cmd.Cmd() != nil {
+		if seg.Matched.Cmd != nil {
 			return false
 		}
 	}
-- 
2.43.0


From c0659866cb49de8671784a686afc2c701ed99ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 11/37] fix: a retried command starts with the env it first
 started with, not the one it failed with

---
 pkg/core/model/cmd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index c3bbcb6..2ad5f09 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -265,7 +265,8 @@ func (self *Cmd) execute(
 		}()
 	}
 
-	if mask != nil && mask.OverWriteFinishEnv != nil {
+	// A failed command should not start with the env it left at last time
+	if mask != nil && mask.OverWriteFinishEnv != nil && (!shouldExecByMask(mask) || executedAndSucceeded(mask)) {
 		p := env
 		for p != nil && p.LayerType() != EnvLayerSession {
 			p.CleanCurrLayer()
-- 
2.43.0


From db9adb2026a5a85ecf065aeb8b1e463fd0717450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 12/37] fix: finish a failed subflow in the session status too,
 so the record of what follows stays well-formed

---
 pkg/core/model/cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 2ad5f09..e04e570 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -929,10 +929,12 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	}
 	flowEnv.Set("sys.subflow", flowStrEnvVal)
 
+	// Also finish a failed subflow, or what follows will be logged as a part of it
+	returned := false
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
 		defer func() {
-			if succeeded {
+			if returned {
 				cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)
 			}
 		}()
@@ -951,6 +953,7 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 		succeeded = true
 		skipped = !executedAndSucceeded(mask)
 	}
+	returned = true
 	return
 }
 
-- 
2.43.0


From 8d59cde9c38a1be8c045ab1d9c73dfa3f194ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 13/37] fix: a command whose record ends right after its start
 stays in the record, instead of crashing or being dropped

---
 pkg/core/model/executed.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index db692b3..3e67e94 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -258,6 +258,13 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 		if cmd != nil && cmd.FinishTs.IsZero() && !cmdLastActiveTs.IsZero() {
 			cmd.FinishTs = cmdLastActiveTs
 		}
+		// A cmd without its finish part is also a recorded one
+		if cmd != nil {
+			if cmd.IsDelay {
+				hasDelayCmd = true
+			}
+			cmds = append(cmds, cmd)
+		}
 		if !ok {
 			if _, _, ok := parseMarkedOneLineContent(path, lines, "flow-finish-time", level); ok {
 				break
@@ -266,12 +273,6 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 				return cmds, hasDelayCmd, lines, lastActiveTs, false
 			}
 		}
-		if cmd.IsDelay {
-			hasDelayCmd = true
-		}
-		if cmd != nil {
-			cmds = append(cmds, cmd)
-		}
 	}
 	return cmds, hasDelayCmd, lines, lastActiveTs, true
 }
-- 
2.43.0


From 598946b3c07727c1bbcc585328b06136aabeab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 14/37] fix: a hub file that can't be read to its end is
 reported, not taken as a shorter list

---
 pkg/mods/persist/hub_meta/hub_meta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a8520be..ad30a0b 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -110,6 +110,9 @@ func ReadReposInfoFile(
 		infos = append(infos, info)
 		list[info.Addr.Str()] = true
 	}
+	if err := scanner.Err(); err != nil {
+		panic(fmt.Errorf("[ReadReposInfoFile] read file '%s' failed: %v", path, err))
+	}
 	return
 }
 
-- 
2.43.0


From 7da913be620b5f4c7f15957be0ebccf7d0433919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 15/37] fix: purging by the address of an enabled repo keeps it
 in the hub

---
 pkg/mods/builtin/hub.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 92a6d28..bb1265b 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -645,7 +645,9 @@ func exactMatchHubRepo(infos []meta.RepoInfo, findStrs ...string) (info meta.Rep
 	}
 	for i, info := range infos {
 		if info.Addr.Str() == findStr {
-			return info, append(infos[:i], infos[i+1:]...), true
+			rest = append(rest, infos[:i]...)
+			rest = append(rest, infos[i+1:]...)
+			return info, rest, true
 		}
 	}
 	return
-- 
2.43.0


From 77c608b40699b0ba76e5dfd7f095bc1f89337313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 16/37] fix: saved env values are read back whole, whatever
 their length or the length of the separator

---
 pkg/core/model/proto.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1db1472..96dc7a3 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -35,6 +36,7 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		text := scanner.Text()
@@ -47,7 +49,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 				text, sep)
 		}
 		key := text[0:i]
-		val := text[i+1:]
+		val := text[i+len(sep):]
 		if val == delMark {
 			env.Delete(key)
 		} else {
@@ -55,7 +57,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
-- 
2.43.0


From 4c4de7f83481deef1a6a2240d722a7238f981828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 17/37] fix: saving a flow file replaces the old one at once,
 and reports a failed write

---
 pkg/mods/persist/meta_file/meta_file.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 6ae526d..8a273ef 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -247,13 +247,27 @@ func (self *MetaFile) parse(lines []string) {
 }
 
 func (self *MetaFile) Save() {
-	file, err := os.OpenFile(self.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	tmp := self.path + ".tmp"
+	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
-			self.path, err))
+			tmp, err))
 	}
 	defer file.Close()
-	self.save(file)
+
+	buf := bytes.NewBuffer(nil)
+	self.save(buf)
+	_, err = file.Write(buf.Bytes())
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] write mod meta file '%s' failed: %v", tmp, err))
+	}
+	file.Close()
+
+	err = os.Rename(tmp, self.path)
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] rename file '%s' to '%s' failed: %v",
+			tmp, self.path, err))
+	}
 }
 
 func (self *MetaFile) save(w io.Writer) {
-- 
2.43.0


From d749d4c00ae0826b28daa51682913bae96f1e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 18/37] fix: names that only look like session directories are
 not taken for sessions

---
 pkg/core/model/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index d333351..7e346de 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -277,6 +277,10 @@ func parseSessionDirName(dirName string) (pid int, startTs time.Time, ok bool) {
 	if err != nil {
 		return
 	}
+	// Parsing accepts more than what `GenSessionId` makes
+	if pid <= 0 || dirName != startTs.Format(SessionDirTimeFormat)+"."+strconv.Itoa(pid) {
+		return 0, time.Time{}, false
+	}
 	return pid, startTs, true
 }
 
-- 
2.43.0


From 0596c5ff8405ab93e4fd57e2b7831b347fbbbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 19/37] fix: words with quotes, escapes or shell marks in a
 saved flow are read back whole

---
 pkg/core/model/flow.go | 19 ++-----------------
 pkg/utils/misc.go      | 29 ++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 5bbb3b8..a4d58a2 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -120,24 +120,9 @@ func SaveFlowEnv(
 	return true
 }
 
+// The sequence parser removes one '\' before each separator
 func normalizeEnvVal(v string, seqSep string) string {
-	i := 0
-	for i < len(v) {
-		origin := i
-		i = strings.Index(v[i:], seqSep)
-		if i < 0 {
-			break
-		}
-		i += origin
-		if i > len(BackSlash) && v[i-len(BackSlash):i] == BackSlash {
-			i += len(seqSep)
-			continue
-		}
-		// NOTE: shellwords in 'cmd.go#FlowStrToStrs' will eat the single '\', so double '\\' is needed
-		v = v[0:i] + BackSlash + BackSlash + seqSep + v[i+len(seqSep):]
-		i += len(BackSlash)*2 + len(seqSep)
-	}
-	return v
+	return strings.ReplaceAll(v, seqSep, BackSlash+seqSep)
 }
 
 // TODO: put '\' to env
diff --git a/pkg/utils/misc.go b/pkg/utils/misc.go
index c7838d6..cdff51c 100644
--- a/pkg/utils/misc.go
+++ b/pkg/utils/misc.go
@@ -143,19 +143,30 @@ func NormalizeDurStr(durStr string) string {
 	return durStr
 }
 
+// The result is read as one word by 'shellwords', see 'cmd.go#FlowStrToStrs'
 func QuoteStrIfHasSpace(str string) string {
-	if strings.IndexAny(str, " \t\r\n") < 0 {
-		return str
+	const blanks = " \t\r\n"
+	const specials = "\"'`\\;&|<>()"
+	if strings.IndexAny(str, blanks) >= 0 {
+		if strings.IndexAny(str, "\"\\") < 0 {
+			return "\"" + str + "\""
+		}
+		if strings.Index(str, "'") < 0 {
+			return "'" + str + "'"
+		}
 	}
-	i := strings.Index(str, "\"")
-	if i < 0 {
-		return "\"" + str + "\""
+	quoted := ""
+	for i := 0; i < len(str); i++ {
+		if strings.IndexByte(blanks+specials, str[i]) >= 0 {
+			quoted += "\\"
+		}
+		quoted += str[i : i+1]
 	}
-	i = strings.Index(str, "'")
-	if i < 0 {
-		return "'" + str + "'"
+	if strings.HasSuffix(quoted, "\\") {
+		// A '\' at the end of a line means the next line is a part of it
+		quoted += "\"\""
 	}
-	return str
+	return quoted
 }
 
 // TODO: may not right, use PidExists to do that
-- 
2.43.0


From 72af226682300c9636f55c9d0933ec357a60483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 20/37] fix: an empty argument in a saved flow is read back as
 an empty argument

---
 pkg/core/model/flow.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index a4d58a2..63ad1fc 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -108,7 +108,12 @@ func SaveFlowEnv(
 			k = strings.Join(v.MatchedPath[len(prefixPath):], pathSep)
 		}
 		val := normalizeEnvVal(v.Val, seqSep)
-		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, utils.QuoteStrIfHasSpace(val))
+		val = utils.QuoteStrIfHasSpace(val)
+		if len(val) == 0 {
+			// An empty value can only be read if it's a word of its own
+			val = " \"\""
+		}
+		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, val)
 		kvs = append(kvs, kv)
 	}
 
-- 
2.43.0


From 4b1d3936b3194d738defd00d4aa960260ff2c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 21/37] fix: env keys without a definition keep their names
 when a flow is saved under a command path

---
 pkg/core/model/flow.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 63ad1fc..c638617 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -105,7 +105,11 @@ func SaveFlowEnv(
 	for _, k := range keys {
 		v := env[k]
 		if strings.HasPrefix(k, prefix) && len(k) != len(prefix) {
-			k = strings.Join(v.MatchedPath[len(prefixPath):], pathSep)
+			if v.IsArg {
+				k = strings.Join(v.MatchedPath[len(prefixPath):], pathSep)
+			} else {
+				k = k[len(prefix):]
+			}
 		}
 		val := normalizeEnvVal(v.Val, seqSep)
 		val = utils.QuoteStrIfHasSpace(val)
-- 
2.43.0


From 1cd8470b1b888a9a3d34f98d0560b114509f873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 22/37] fix: lines of a stored flow are trimmed before blank
 lines and comments are dropped

---
 pkg/core/model/cmd.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index e04e570..b21ca1a 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -841,8 +841,9 @@ func normalizeInput(input []string, sequenceSep string) []string {
 func StripFlowForExecute(flow []string, sequenceSep string) []string {
 	var output []string
 	for _, line := range flow {
-		strings.TrimSpace(line)
-		if len(line) <= 0 {
+		line = strings.TrimSpace(line)
+		// TODO: put # into env.strs
+		if len(line) <= 0 || line[0] == '#' {
 			continue
 		}
 		output = append(output, line)
@@ -851,15 +852,9 @@ func StripFlowForExecute(flow []string, sequenceSep string) []string {
 	flow = output
 	output = []string{}
 	for i, line := range flow {
-		strings.TrimSpace(line)
-		if len(line) <= 0 {
-			continue
-		}
-		// TODO: put # into env.strs
-		if line[0] == '#' {
-			continue
-		}
-		if line[len(line)-1:] != sequenceSep && i != len(flow)-1 {
+		// An escaped separator doesn't end the command
+		endsWithSep := strings.HasSuffix(line, sequenceSep) && !strings.HasSuffix(line, BackSlash+sequenceSep)
+		if !endsWithSep && i != len(flow)-1 {
 			line += " " + sequenceSep
 		}
 		output = append(output, line)
-- 
2.43.0


From 46e0afdafeb0c73b575f8803ec229c676ac5c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 23/37] fix: rendering a template neither expands the values it
 puts in nor skips what follows a missing one

---
 pkg/core/model/template.go | 50 ++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/pkg/core/model/template.go b/pkg/core/model/template.go
index 7b6686f..77b5efc 100644
--- a/pkg/core/model/template.go
+++ b/pkg/core/model/template.go
@@ -40,17 +40,13 @@ func renderTemplateStr(
 	env *Env,
 	allowError bool) (rendered []string, fullyRendered bool) {
 
-	fullyRendered = true
-
-	lines, hasError := tryRenderMultiplyTemplate(in, targetName, cmd, argv, env, allowError)
-	for _, line := range lines {
-		if !hasError {
-			line, hasError = tryRenderTemplate(line, targetName, cmd, argv, env, allowError)
-		}
-		fullyRendered = fullyRendered && !hasError
-		rendered = append(rendered, line)
+	rendered, isMultiply, hasError := tryRenderMultiplyTemplate(in, targetName, cmd, argv, env, allowError)
+	if !isMultiply {
+		var line string
+		line, hasError = tryRenderTemplate(in, targetName, cmd, argv, env, allowError)
+		rendered = []string{line}
 	}
-	return
+	return rendered, !hasError
 }
 
 // only support one multiply definition in a line
@@ -60,14 +56,13 @@ func tryRenderMultiplyTemplate(
 	cmd *Cmd,
 	argv ArgVals,
 	env *Env,
-	allowError bool) (out []string, hasError bool) {
+	allowError bool) (out []string, isMultiply bool, hasError bool) {
 
 	templBracketLeft := cmd.owner.Strs.FlowTemplateBracketLeft
 	templBracketRight := cmd.owner.Strs.FlowTemplateBracketRight
 	templMultiplyMark := cmd.owner.Strs.FlowTemplateMultiplyMark
 	listSep := cmd.owner.Strs.ListSep
 
-	out = []string{in}
 	mm := templMultiplyMark + templMultiplyMark
 	ml := templBracketLeft + templMultiplyMark
 	mr := templMultiplyMark + templBracketRight
@@ -77,11 +72,11 @@ func tryRenderMultiplyTemplate(
 		return
 	}
 
-	valEnd := strings.Index(in[valBegin:], mr)
-	if valEnd <= 0 {
+	valEnd := strings.Index(in[valBegin+len(ml):], mr)
+	if valEnd < 0 {
 		return
 	}
-	valEnd += valBegin
+	valEnd += valBegin + len(ml)
 
 	tempBegin := strings.Index(in[:valBegin], mm)
 	if tempBegin < 0 {
@@ -105,20 +100,27 @@ func tryRenderMultiplyTemplate(
 		ok = inArg && len(valStr) != 0
 	}
 	if !ok {
-		hasError = true
 		if allowError {
-			return
+			line, _ := tryRenderTemplate(in, targetName, cmd, argv, env, allowError)
+			return []string{line}, true, true
 		}
 		templateRenderPanic(in, cmd, targetName, key, true)
 	}
 
-	out = nil
+	// The templates in the values should not be rendered, so render the other parts
+	render := func(str string) string {
+		str, failed := tryRenderTemplate(str, targetName, cmd, argv, env, allowError)
+		hasError = hasError || failed
+		return str
+	}
+
+	isMultiply = true
 	if tempBegin != 0 {
-		out = append(out, strings.TrimSpace(in[:tempBegin]))
+		out = append(out, strings.TrimSpace(render(in[:tempBegin])))
 	}
 
-	head := in[tempBegin+len(mm) : valBegin]
-	tail := in[valEnd+len(mr) : tempEnd]
+	head := render(in[tempBegin+len(mm) : valBegin])
+	tail := render(in[valEnd+len(mr) : tempEnd])
 
 	vals := strings.Split(valStr, listSep)
 	for _, val := range vals {
@@ -127,7 +129,7 @@ func tryRenderMultiplyTemplate(
 	}
 
 	if tempEnd+len(mm) != len(in) {
-		out = append(out, strings.TrimSpace(in[tempEnd+len(mm):]))
+		out = append(out, strings.TrimSpace(render(in[tempEnd+len(mm):])))
 	}
 	return
 }
@@ -170,12 +172,14 @@ func tryRenderTemplate(
 		if !ok {
 			hasError = true
 			if allowError {
-				findPos += j + len(templBracketRight)
+				findPos += i + len(templBracketLeft) + j + len(templBracketRight)
 				continue
 			}
 			templateRenderPanic(in, cmd, targetName, key, false)
 		}
 		in = in[:findPos] + str[0:i] + valStr + tail[j+len(templBracketRight):]
+		// The templates in the value should not be rendered
+		findPos += i + len(valStr)
 	}
 	return in, hasError
 }
-- 
2.43.0


From b0049fe5465232c998284b20c8e2982c34dd8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 24/37] fix: words that no argument takes are reported, not cut
 in the wrong list or taken for a value

---
 pkg/core/parser/env.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index 9a6ce2b..47ba10b 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -79,7 +79,8 @@ func (self *EnvParser) TryParseRaw(
 		}
 		originIdx := normalized.originIdx[normalizedIdx]
 		originStrIdx := normalized.originStrIdx[normalizedIdx]
-		return tryTrimStrings(input[originIdx:][originStrIdx:])
+		rest := append([]string{input[originIdx][originStrIdx:]}, input[originIdx+1:]...)
+		return tryTrimStrings(rest)
 	}
 
 	// It's non-args env definition
@@ -138,6 +139,9 @@ func (self *EnvParser) TryParseRaw(
 		}
 	} else {
 		for ; i+2 < len(rest); i += 3 {
+			if rest[i+1] != self.kvSep {
+				return tryTrimParsedEnv(env), genResult(i)
+			}
 			value := rest[i+2]
 			key, normalized := model.SysArgRealnameAndNormalizedValue(rest[i], self.sysArgPrefix, value)
 			if len(key) != 0 {
@@ -145,7 +149,7 @@ func (self *EnvParser) TryParseRaw(
 				continue
 			}
 			key = args.Realname(rest[i])
-			if len(key) == 0 || rest[i+1] != self.kvSep {
+			if len(key) == 0 {
 				return tryTrimParsedEnv(env), genResult(i)
 			}
 			env[key] = model.NewParsedEnvArgv(rest[i], value)
-- 
2.43.0


From 7291ba7bbe87b0abff6b0fb0594ded334ea96237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 25/37] fix: adding a prefix to env keys doesn't lose keys that
 have it already

---
 pkg/core/model/parsing.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index dc4bf1b..ece7289 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -383,6 +383,11 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		vals = append(vals, v)
 	}
 
+	// A prefixed key could be the same as another key, so remove all the old ones first
+	for _, k := range keys {
+		delete(self, k)
+	}
+
 	prefixPath := strings.Join(prefix, sep) + sep
 	for i, k := range keys {
 		v := vals[i]
@@ -394,7 +399,6 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		}
 		matchedPath := append(prefixClone, v.MatchedPath...)
 		self[prefixPath+k] = ParsedEnvVal{v.Val, v.IsArg, v.IsSysArg, matchedPath, strings.Join(matchedPath, sep)}
-		delete(self, k)
 		v = self[prefixPath+k]
 
 		// If not deep copy, the v.MatchedPath will be the last value of this loop
-- 
2.43.0


From 688cf7789380af1cd3e5a2c52ad80b804edd1825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 26/37] fix: empty arguments and '^' marks in arguments are
 kept

---
 pkg/core/parser/cmd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/core/parser/cmd.go b/pkg/core/parser/cmd.go
index 1380811..8a17daa 100644
--- a/pkg/core/parser/cmd.go
+++ b/pkg/core/parser/cmd.go
@@ -100,14 +100,14 @@ func (self *CmdParser) parse(
 		var err error
 		var succeeded bool
 
-		// Try to parse trivial level
-		for len(input) != 0 {
+		// Try to parse trivial level, args don't have it
+		for allowSub && len(input) != 0 {
 			stripped := strings.TrimLeft(input[0], "^")
 			trivialLvl += len(input[0]) - len(stripped)
 			if len(stripped) == 0 {
 				input = input[1:]
 			} else {
-				input[0] = stripped
+				input = append([]string{stripped}, input[1:]...)
 				break
 			}
 		}
-- 
2.43.0


From 10b0e3b543190db2bd7cff2cdb28688a87e69097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 27/37] fix: env abbrs are used under commands that are called
 by an abbr

---
 pkg/core/parser/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/parser/cmd.go b/pkg/core/parser/cmd.go
index 8a17daa..bb4229d 100644
--- a/pkg/core/parser/cmd.go
+++ b/pkg/core/parser/cmd.go
@@ -173,7 +173,7 @@ func (self *CmdParser) parse(
 			if sub != nil {
 				curr = sub
 				if currEnvAbbrs != nil {
-					currEnvAbbrs = currEnvAbbrs.GetSub(input[0])
+					currEnvAbbrs = currEnvAbbrs.GetSub(sub.Name())
 				}
 				parsed = append(parsed, parsedSeg{parsedSegTypeCmd, model.MatchedCmd{input[0], sub}})
 				matchedCmdPath = append(matchedCmdPath, input[0])
-- 
2.43.0


From 953e612813db92404f023074efe16f473ddf5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:02 +0000
Subject: [PATCH 28/37] fix: a rejected arg or arg order leaves the declared
 args unchanged, an order with an arg twice is rejected

---
 pkg/core/model/args.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/args.go b/pkg/core/model/args.go
index 590301f..909cac5 100644
--- a/pkg/core/model/args.go
+++ b/pkg/core/model/args.go
@@ -44,15 +44,24 @@ func (self *Args) AddArg(owner *CmdTree, name string, defVal string, abbrs ...st
 			owner.DisplayPath(), name))
 	}
 	abbrs = append([]string{name}, abbrs...)
+	// A rejected arg should not leave some of its abbrs
+	revIdx := map[string]string{}
 	for _, abbr := range abbrs {
 		if len(abbr) == 0 {
 			continue
 		}
-		if old, ok := self.abbrsRevIdx[abbr]; ok {
+		old, ok := self.abbrsRevIdx[abbr]
+		if !ok {
+			old, ok = revIdx[abbr]
+		}
+		if ok {
 			panic(fmt.Errorf("[Args.AddArg] %s: arg abbr name '%s' conflicted,"+
 				" old for '%s', new for '%s'",
 				owner.DisplayPath(), abbr, old, name))
 		}
+		revIdx[abbr] = name
+	}
+	for abbr, _ := range revIdx {
 		self.abbrsRevIdx[abbr] = name
 	}
 	self.abbrs[name] = abbrs
@@ -107,10 +116,17 @@ func (self *Args) Reorder(owner *Cmd, names []string) {
 	if len(names) != len(self.orderedList) {
 		changed()
 	}
+	idxs := map[string]int{}
 	for i, name := range names {
 		if _, ok := self.names[name]; !ok {
 			changed()
 		}
+		if _, ok := idxs[name]; ok {
+			changed()
+		}
+		idxs[name] = i
+	}
+	for name, i := range idxs {
 		self.names[name] = i
 	}
 	self.orderedList = names
-- 
2.43.0


From b0ea20376b4aaa302d9e515190f595383168c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:36 +0000
Subject: [PATCH 29/37] fix: a rejected sub command or abbr leaves the tree
 unchanged, a name used twice is rejected

---
 pkg/core/model/cmds.go     | 21 ++++++++++++++-------
 pkg/core/model/env_abbr.go | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 16aa5b9..bea3c49 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -248,7 +248,7 @@ func (self *CmdTree) ReplaceCmdWithPowerCmd(cmd PowerCmd) (old *Cmd) {
 }
 
 func (self *CmdTree) AddSub(name string, abbrs ...string) *CmdTree {
-	if old, ok := self.subs[name]; ok && old.name != name {
+	if old, ok := self.subs[name]; ok {
 		err := &CmdTreeErrSubCmdConflicted{
 			fmt.Sprintf("sub-cmd name conflicted: %s", name),
 			self.Path(),
@@ -257,12 +257,12 @@ func (self *CmdTree) AddSub(name string, abbrs ...string) *CmdTree {
 		}
 		panic(err)
 	}
+	self.addSubAbbrs(name, abbrs...)
 	sub := NewCmdTree(self.Strs)
 	sub.name = name
 	sub.parent = self
 	self.subs[name] = sub
 	self.subOrderedNames = append(self.subOrderedNames, name)
-	self.addSubAbbrs(name, abbrs...)
 	self.subAbbrsRevIdx[name] = name
 	return sub
 }
@@ -487,15 +487,14 @@ func (self *CmdTree) SetSource(s string) {
 }
 
 func (self *CmdTree) addSubAbbrs(name string, abbrs ...string) {
-	for _, abbr := range append([]string{name}, abbrs...) {
+	abbrs = append([]string{name}, abbrs...)
+	// Check all of them first, a rejected abbr should not leave the others
+	for _, abbr := range abbrs {
 		if len(abbr) == 0 {
 			continue
 		}
 		old, ok := self.subAbbrsRevIdx[abbr]
-		if old == name {
-			continue
-		}
-		if ok {
+		if ok && old != name {
 			err := &CmdTreeErrSubAbbrConflicted{
 				fmt.Sprintf("%s: sub command abbr name '%s' conflicted, "+
 					"old for '%s', new for '%s'",
@@ -508,6 +507,14 @@ func (self *CmdTree) addSubAbbrs(name string, abbrs ...string) {
 			}
 			panic(err)
 		}
+	}
+	for _, abbr := range abbrs {
+		if len(abbr) == 0 {
+			continue
+		}
+		if _, ok := self.subAbbrsRevIdx[abbr]; ok {
+			continue
+		}
 		self.subAbbrsRevIdx[abbr] = name
 		olds, _ := self.subAbbrs[name]
 		self.subAbbrs[name] = append(olds, abbr)
diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index d40a378..1d4652d 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -29,35 +29,42 @@ func NewEnvAbbrs(rootDisplayName string) *EnvAbbrs {
 }
 
 func (self *EnvAbbrs) AddSub(name string, abbrs ...string) *EnvAbbrs {
-	if old, ok := self.subs[name]; ok && old.name != name {
+	if _, ok := self.subs[name]; ok {
 		panic(fmt.Errorf("[EnvAbbrs.AddSub] %s: sub-node name conflicted: %s",
 			self.DisplayPath(), name))
 	}
+	self.AddSubAbbrs(name, abbrs...)
 	sub := NewEnvAbbrs(self.rootDisplayName)
 	sub.name = name
 	sub.parent = self
 	self.subs[name] = sub
 	self.subOrderedNames = append(self.subOrderedNames, name)
-	self.AddSubAbbrs(name, abbrs...)
 	self.subAbbrsRevIdx[name] = name
 	return sub
 }
 
 func (self *EnvAbbrs) AddSubAbbrs(name string, abbrs ...string) {
-	for _, abbr := range append([]string{name}, abbrs...) {
+	abbrs = append([]string{name}, abbrs...)
+	// Check all of them first, a rejected abbr should not leave the others
+	for _, abbr := range abbrs {
 		if len(abbr) == 0 {
 			continue
 		}
 		old, ok := self.subAbbrsRevIdx[abbr]
-		if old == name {
-			continue
-		}
-		if ok {
+		if ok && old != name {
 			panic(fmt.Errorf(
 				"[EnvAbbrs.AddSubAbbrs] %s: command abbr name '%s' conflicted, "+
 					"old for '%s', new for '%s'",
 				self.DisplayPath(), abbr, old, name))
 		}
+	}
+	for _, abbr := range abbrs {
+		if len(abbr) == 0 {
+			continue
+		}
+		if _, ok := self.subAbbrsRevIdx[abbr]; ok {
+			continue
+		}
 		self.subAbbrsRevIdx[abbr] = name
 		olds, _ := self.subAbbrs[name]
 		self.subAbbrs[name] = append(olds, abbr)
-- 
2.43.0


From ed755225b36076e04dfdf7d31b0c9cc097fbf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 30/37] fix: an env key with a name that is an abbr of another
 key doesn't make every command fail

---
 pkg/core/execute/executor.go | 4 ++++
 pkg/core/model/env_abbr.go   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 805fac4..aeaf0f8 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -446,6 +446,10 @@ func useEnvAbbrs(abbrs *model.EnvAbbrs, env *model.Env, sep string) {
 	for k, _ := range env.Flatten(true, nil, true) {
 		curr := abbrs
 		for _, seg := range strings.Split(k, sep) {
+			// This name already means another key, an env key should not change that
+			if name := curr.Realname(seg); len(name) != 0 && name != seg {
+				break
+			}
 			curr = curr.GetOrAddSub(seg)
 		}
 	}
diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index 1d4652d..ab482bb 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -126,6 +126,12 @@ func (self *EnvAbbrs) GetSub(name string) *EnvAbbrs {
 	return sub
 }
 
+// The name of the sub-node which a name or abbr means
+func (self *EnvAbbrs) Realname(nameOrAbbr string) (realname string) {
+	realname, _ = self.subAbbrsRevIdx[nameOrAbbr]
+	return
+}
+
 func (self *EnvAbbrs) Path() []string {
 	if self.parent == nil {
 		return []string{}
-- 
2.43.0


From 32441162174e531d36114a4977b58f98ecdc6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 31/37] fix: using the abbrs of commands for env keys doesn't
 fail on names that are env abbrs already

---
 pkg/core/execute/executor.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index aeaf0f8..6b8f635 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -430,7 +430,16 @@ func useCmdsAbbrs(abbrs *model.EnvAbbrs, cmds *model.CmdTree) {
 		return
 	}
 	for _, subName := range cmds.SubNames() {
-		subAbbrs := cmds.SubAbbrs(subName)
+		// Don't borrow what already means another env key
+		if name := abbrs.Realname(subName); len(name) != 0 && name != subName {
+			continue
+		}
+		var subAbbrs []string
+		for _, abbr := range cmds.SubAbbrs(subName) {
+			if name := abbrs.Realname(abbr); len(name) == 0 || name == subName {
+				subAbbrs = append(subAbbrs, abbr)
+			}
+		}
 		subEnv := abbrs.GetSub(subName)
 		if subEnv == nil {
 			subEnv = abbrs.AddSub(subName, subAbbrs...)
-- 
2.43.0


From b31bcfe8b5d570938d4ffc111ca8a8e094c9626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:53 +0000
Subject: [PATCH 32/37] fix: errors from loading modules are reported once
 each, also when the input is invalid or a later command loads them

---
 pkg/core/execute/executor.go | 8 +++++++-
 pkg/core/model/errs.go       | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 6b8f635..99d2324 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -45,6 +45,12 @@ func (self *Executor) Clone() model.Executor {
 }
 
 func (self *Executor) Run(cc *model.Cli, env *model.Env, bootstrap string, input ...string) bool {
+	// Report the errors which are not reported before the commands run: the input is invalid,
+	// or the modules are loaded by the commands
+	defer func() {
+		display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs.TakeUnreported())
+	}()
+
 	overWriteBootstrap := env.Get("sys.bootstrap").Raw
 	if len(overWriteBootstrap) != 0 {
 		bootstrap = overWriteBootstrap
@@ -140,7 +146,7 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 		}
 	}
 
-	display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)
+	display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs.TakeUnreported())
 
 	crossProcessInnerCall := false
 
diff --git a/pkg/core/model/errs.go b/pkg/core/model/errs.go
index dab6d8d..4787eef 100644
--- a/pkg/core/model/errs.go
+++ b/pkg/core/model/errs.go
@@ -68,6 +68,13 @@ func (self *TolerableErrs) OnErr(err interface{}, source string, file string, re
 	conflictedMap[source] = list
 }
 
+// The errors which are not reported yet, each one is returned only once
+func (self *TolerableErrs) TakeUnreported() *TolerableErrs {
+	errs := *self
+	*self = *NewTolerableErrs()
+	return &errs
+}
+
 type ErrConflicted interface {
 	Error() string
 	GetOldSource() string
-- 
2.43.0


From f98716d3b8a47b75511f6d99e44a15ac20b8aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 33/37] fix: several live flow-altering rules don't duplicate
 commands, rules with a count are applied that often

---
 pkg/core/model/blender.go | 104 +++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 47 deletions(-)

diff --git a/pkg/core/model/blender.go b/pkg/core/model/blender.go
index cc80245..b857271 100644
--- a/pkg/core/model/blender.go
+++ b/pkg/core/model/blender.go
@@ -7,6 +7,7 @@ import (
 
 type BlenderInvoker interface {
 	Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool)
+	Clone() BlenderInvoker
 }
 
 type BlenderInvokerReplace struct {
@@ -15,7 +16,7 @@ type BlenderInvokerReplace struct {
 	dest ParsedCmd
 }
 
-func (self BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.src.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -25,12 +26,17 @@ func (self BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, origi
 	return []ParsedCmd{self.dest}, true, -1, self.cnt == 0
 }
 
+func (self *BlenderInvokerReplace) Clone() BlenderInvoker {
+	invoker := *self
+	return &invoker
+}
+
 type BlenderInvokerRemove struct {
 	cnt    int
 	target ParsedCmd
 }
 
-func (self BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -40,20 +46,30 @@ func (self BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, origin
 	return nil, true, -1, self.cnt == 0
 }
 
+func (self *BlenderInvokerRemove) Clone() BlenderInvoker {
+	invoker := *self
+	return &invoker
+}
+
 type BlenderInvokerInsert struct {
 	cnt    int
 	target ParsedCmd
 	newCmd ParsedCmd
 }
 
-func (self BlenderInvokerInsert) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerInsert) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
 	if self.cnt > 0 {
 		self.cnt -= 1
 	}
-	return []ParsedCmd{self.newCmd, cmd}, true, 1, self.cnt == 0
+	return []ParsedCmd{self.newCmd, cmd}, false, 1, self.cnt == 0
+}
+
+func (self *BlenderInvokerInsert) Clone() BlenderInvoker {
+	invoker := *self
+	return &invoker
 }
 
 type BlenderInvokerInsertAfter struct {
@@ -62,7 +78,7 @@ type BlenderInvokerInsertAfter struct {
 	newCmd ParsedCmd
 }
 
-func (self BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -72,6 +88,11 @@ func (self BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, o
 	return []ParsedCmd{cmd, self.newCmd}, false, 0, self.cnt == 0
 }
 
+func (self *BlenderInvokerInsertAfter) Clone() BlenderInvoker {
+	invoker := *self
+	return &invoker
+}
+
 type Blender struct {
 	invokers []BlenderInvoker
 }
@@ -85,7 +106,7 @@ func NewBlender() *Blender {
 func (self *Blender) Clone() *Blender {
 	invokers := []BlenderInvoker{}
 	for _, info := range self.invokers {
-		invokers = append(invokers, info)
+		invokers = append(invokers, info.Clone())
 	}
 	return &Blender{
 		invokers,
@@ -123,6 +144,7 @@ func (self *Blender) IsEmpty() bool {
 func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool) {
 	result := []ParsedCmd{}
 	stackDepth := env.GetInt("sys.stack-depth")
+	globalCmdIdx := -1
 
 	for i := 0; i < len(flow.Cmds); i++ {
 		parsedCmd := flow.Cmds[i]
@@ -132,6 +154,9 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 		//}
 		cmd := parsedCmd.LastCmdNode()
 		if cmd == nil {
+			if i == flow.GlobalCmdIdx {
+				globalCmdIdx = len(result)
+			}
 			result = append(result, parsedCmd)
 			continue
 		}
@@ -147,56 +172,41 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 			continue
 		}
 
-		if len(self.invokers) == 0 {
-			result = append(result, parsedCmd)
-			continue
-		}
-
-		originDeleted := false
-		originPosDelta := 0
-		addedCmdCnt := 0
-		for j := 0; j < len(self.invokers); j++ {
-			invoker := self.invokers[j]
-			cmds, deleted, posDelta, finished := invoker.Invoke(parsedCmd)
-			if finished {
-				if j == len(self.invokers)-1 {
-					self.invokers = self.invokers[0:j]
-				} else {
-					self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
-				}
-				j += 1
-			}
-
-			addedCmdCnt += len(cmds) - 1
-			if len(cmds) > 0 {
-				result = append(result, cmds...)
-			}
-			if deleted {
-				originDeleted = true
-				break
-			} else {
-				originPosDelta += posDelta
-			}
-		}
-
-		if originDeleted || originPosDelta != 0 {
+		cmds, originDeleted, originPos := self.invokeOnCmd(parsedCmd)
+		if originDeleted || len(cmds) != 1 {
 			changed = true
 		}
-		if i == flow.GlobalCmdIdx {
-			if originDeleted {
-				flow.GlobalCmdIdx = -1
-			} else {
-				flow.GlobalCmdIdx += originPosDelta
-			}
-		} else if i < flow.GlobalCmdIdx {
-			flow.GlobalCmdIdx += addedCmdCnt
+		if i == flow.GlobalCmdIdx && !originDeleted {
+			globalCmdIdx = len(result) + originPos
 		}
+		result = append(result, cmds...)
 	}
 
+	flow.GlobalCmdIdx = globalCmdIdx
 	flow.Cmds = result
 	return
 }
 
+// Apply all matched invokers to a cmd, until one of them deletes it
+func (self *Blender) invokeOnCmd(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPos int) {
+	cmds = []ParsedCmd{cmd}
+	for j := 0; j < len(self.invokers) && !originDeleted; j++ {
+		added, deleted, posDelta, finished := self.invokers[j].Invoke(cmd)
+		if finished {
+			self.invokers = append(self.invokers[0:j:j], self.invokers[j+1:]...)
+			j -= 1
+		}
+
+		// Put what this invoker returned in the place of the cmd
+		rest := cmds[originPos+1:]
+		cmds = append(cmds[0:originPos:originPos], added...)
+		cmds = append(cmds, rest...)
+		originDeleted = deleted
+		originPos += posDelta
+	}
+	return
+}
+
 // TODO: should not in core package
 func GetLastStackFrame(env *Env) string {
 	stackStr := env.GetRaw("sys.stack")
-- 
2.43.0


From 5f5176c704dbd1e5e8bfa0732fb0b3ee8b531207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 34/37] fix: checking a flow applies a flow-altering rule as
 often as executing it, a replacement containing the replaced command doesn't
 overflow the stack

---
 pkg/cli/display/flow.go         |  8 ++++----
 pkg/core/model/args_auto_map.go |  4 ++--
 pkg/core/model/cmd.go           | 13 ++++---------
 pkg/core/model/dep.go           |  8 +++++---
 pkg/core/model/env_ops.go       |  4 ++--
 5 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 218e132..60c54bb 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -84,7 +84,7 @@ func DumpFlowEx(
 	// TODO: show executed status and duration here
 
 	cc.Screen.Print(ColorFlowing("--->>>", env) + "\n")
-	ok := dumpFlow(cc, env, envOpCmds, flow, fromCmdIdx, args, executedFlow, procRunning,
+	ok := dumpFlow(cc.CloneForChecking(), env, envOpCmds, flow, fromCmdIdx, args, executedFlow, procRunning,
 		false, writtenKeys, args.MaxDepth, args.MaxTrivial, 0, false)
 	if ok {
 		cc.Screen.Print(ColorFlowing("<<<---", env) + "\n")
@@ -229,7 +229,7 @@ func dumpFlowCmd(
 			"failed to execute env-op cmd in flow desc")
 
 		// This is for render checking, even it's folded
-		subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
+		subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true)
 		if rendered {
 			parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
 			err := parsedFlow.FirstErr()
@@ -292,7 +292,7 @@ func dumpFlowCmd(
 	if !foldSubFlow() && !cic.IsBuiltinCmd() && (cic.HasCmdLine() || cic.HasSubFlow(false)) {
 		metFlow := false
 		if cic.HasSubFlow(false) {
-			flowStrs, _, _ := cic.RenderedFlowStrs(argv, cc, cmdEnv, true, true)
+			flowStrs, _, _ := cic.RenderedFlowStrs(argv, cc.CloneForChecking(), cmdEnv, true)
 			flowStr := strings.Join(flowStrs, " ")
 			metFlow = metFlows[flowStr]
 			if !cmdFailed() && metFlow && executedCmd == nil {
@@ -325,7 +325,7 @@ func dumpFlowCmd(
 		}
 
 		if cic.HasSubFlow(false) && !cmdSkipped() && (executedCmd == nil || executedCmd.Result != model.ExecutedResultUnRun) {
-			subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
+			subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true)
 			if rendered && len(subFlow) != 0 {
 				if !metFlow || executedCmd != nil || cmdFailed() {
 					depthMark := ""
diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6a1e9e7..a152437 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -16,7 +16,7 @@ func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []Env
 	sep := env.GetRaw("strs.cmd-path-sep")
 	for cmd, _ := range self {
 		argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
-		autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
+		autoMapArg2EnvForCmd(cc.CloneForChecking(), env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
 		cmd.FinishArg2EnvAutoMap(cc)
 	}
 }
@@ -39,7 +39,7 @@ func autoMapArg2EnvForCmd(
 	ApplyVal2Env(env, srcCmd, argv)
 	ApplyArg2Env(env, srcCmd, argv)
 
-	subFlow, _, rendered := srcCmd.Flow(argv, cc, env, true, true)
+	subFlow, _, rendered := srcCmd.Flow(argv, cc, env, true)
 	if len(subFlow) == 0 || !rendered {
 		// TODO: careful test: handle not fully renderd subflow
 		//return false
diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index b21ca1a..c08b3aa 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -793,12 +793,7 @@ func (self *Cmd) RenderedFlowStrs(
 	argv ArgVals,
 	cc *Cli,
 	env *Env,
-	allowFlowTemplateRenderError bool,
-	forChecking bool) (flow []string, masks []*ExecuteMask, fullyRendered bool) {
-
-	if forChecking {
-		cc = cc.CloneForChecking()
-	}
+	allowFlowTemplateRenderError bool) (flow []string, masks []*ExecuteMask, fullyRendered bool) {
 
 	// Render macros into tmp env
 	env, macrosFullyRendered := self.renderMacros(argv, env, allowFlowTemplateRenderError)
@@ -864,9 +859,9 @@ func StripFlowForExecute(flow []string, sequenceSep string) []string {
 }
 
 func (self *Cmd) Flow(argv ArgVals, cc *Cli, env *Env,
-	allowFlowTemplateRenderError bool, forChecking bool) (flow []string, masks []*ExecuteMask, rendered bool) {
+	allowFlowTemplateRenderError bool) (flow []string, masks []*ExecuteMask, rendered bool) {
 
-	flow, masks, rendered = self.RenderedFlowStrs(argv, cc, env, allowFlowTemplateRenderError, forChecking)
+	flow, masks, rendered = self.RenderedFlowStrs(argv, cc, env, allowFlowTemplateRenderError)
 	if len(flow) == 0 {
 		return
 	}
@@ -912,7 +907,7 @@ func (self *Cmd) executePowerCmd(
 
 // TODO: flow must not have argv, is it OK?
 func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask) (succeeded bool) {
-	flow, masks, _ := self.Flow(argv, cc, env, false, false)
+	flow, masks, _ := self.Flow(argv, cc, env, false)
 	flowStr := FlowStrsToStr(flow)
 	flowEnv := env.NewLayer(EnvLayerSubFlow)
 	skipped := false
diff --git a/pkg/core/model/dep.go b/pkg/core/model/dep.go
index 2dd3012..add83df 100644
--- a/pkg/core/model/dep.go
+++ b/pkg/core/model/dep.go
@@ -16,7 +16,7 @@ func CollectDepends(
 	allowFlowTemplateRenderError bool,
 	envOpCmds []EnvOpCmd) {
 
-	collectDepends(cc, env.Clone(), flow, currCmdIdx, res, allowFlowTemplateRenderError, envOpCmds, 0)
+	collectDepends(cc.CloneForChecking(), env.Clone(), flow, currCmdIdx, res, allowFlowTemplateRenderError, envOpCmds, 0)
 }
 
 func collectDepends(
@@ -39,7 +39,9 @@ func collectDepends(
 		cmdEnv, argv := it.ApplyMappingGenEnvAndArgv(env, cc.Cmds.Strs.EnvValDelAllMark, cc.Cmds.Strs.PathSep, depth+1)
 
 		if cic.Type() == CmdTypeFileNFlow {
-			subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, allowFlowTemplateRenderError, true)
+			// The flow will be rendered again below, so the blender could not be consumed here
+			cc := cc.CloneForChecking()
+			subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, allowFlowTemplateRenderError)
 			if rendered && len(subFlow) != 0 {
 				parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
 				flowEnv := cmdEnv.NewLayer(EnvLayerSubFlow)
@@ -66,7 +68,7 @@ func collectDepends(
 			continue
 		}
 
-		subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, allowFlowTemplateRenderError, true)
+		subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, allowFlowTemplateRenderError)
 		if rendered && len(subFlow) != 0 {
 			parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
 			flowEnv := cmdEnv.NewLayer(EnvLayerSubFlow)
diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 859f161..880060e 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -235,7 +235,7 @@ func CheckEnvOps(
 	result *[]EnvOpsCheckResult) {
 
 	arg2envs := FirstArg2EnvProviders{}
-	checkEnvOps(cc, flow, env.Clone(), checker, ignoreMaybe, envOpCmds, result, arg2envs, 0)
+	checkEnvOps(cc.CloneForChecking(), flow, env.Clone(), checker, ignoreMaybe, envOpCmds, result, arg2envs, 0)
 }
 
 func checkEnvOps(
@@ -302,7 +302,7 @@ func TryExeEnvOpCmds(
 
 // TODO: a bit messy
 func renderSubFlowOnChecking(last *Cmd, cc *Cli, argv ArgVals, cmdEnv *Env) (parsedFlow *ParsedCmds, flowEnv *Env) {
-	subFlow, _, _ := last.Flow(argv, cc, cmdEnv, false, true)
+	subFlow, _, _ := last.Flow(argv, cc, cmdEnv, false)
 	parsedFlow = cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
 	err := parsedFlow.FirstErr()
 	if err != nil {
-- 
2.43.0


From 2bb592e089464bbe5e36bf6b6fa1f6054eefdc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:04 +0000
Subject: [PATCH 35/37] fix: a path separator at the end of a command is not
 taken for an argument

---
 pkg/core/parser/cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/cmd.go b/pkg/core/parser/cmd.go
index bb4229d..be14e8a 100644
--- a/pkg/core/parser/cmd.go
+++ b/pkg/core/parser/cmd.go
@@ -159,7 +159,10 @@ func (self *CmdParser) parse(
 			if len(head) != 0 {
 				lead = append(lead, head)
 			}
-			lead = append(lead, self.cmdSep)
+			// A redundant path-sep at the end is not an arg
+			if len(rest) != 0 || len(input) != 0 {
+				lead = append(lead, self.cmdSep)
+			}
 			if len(rest) != 0 {
 				lead = append(lead, rest)
 			}
-- 
2.43.0


From aa3fda9549e421d821167ba33f554101ff8f92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:22 +0000
Subject: [PATCH 36/37] fix: an earlier read of an env key is not reported
 again by later operations

---
 pkg/core/model/env_ops.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 880060e..9cf09dd 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -183,18 +183,19 @@ func (self EnvOpsChecker) OnCallCmd(
 			res.Key = key
 			res.CmdDisplayPath = displayPath
 			res.Cmd = cmd.Owner()
-			if (before.val&EnvOpTypeWrite) == 0 &&
-				(before.val&EnvOpTypeMayWrite) == 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
+			if (before.val & EnvOpTypeWrite) != 0 {
+				// Provided, any read of it is fine
+			} else if (before.val & EnvOpTypeMayWrite) == 0 {
+				if (curr & EnvOpTypeRead) != 0 {
 					res.ReadNotExist = true
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
+				} else if (curr & EnvOpTypeMayRead) != 0 {
 					res.MayReadNotExist = true
 				}
-			} else if (before.val & EnvOpTypeMayWrite) != 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
+			} else {
+				if (curr & EnvOpTypeRead) != 0 {
 					res.ReadMayWrite = true
 					res.MayWriteCmdsBefore = before.mayWriteCmds
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
+				} else if (curr & EnvOpTypeMayRead) != 0 {
 					res.MayReadMayWrite = true
 					res.MayWriteCmdsBefore = before.mayWriteCmds
 				}
-- 
2.43.0


From 9033fbe5fcabe4f5817b469728eedf45b8363f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:22 +0000
Subject: [PATCH 37/37] fix: an env operation with blanks around (r | w) is
 registered

---
 pkg/mods/persist/mod_meta/mod_reg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 499c954..25af4bb 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -604,7 +604,7 @@ func regEnvKeyAbbrs(
 }
 
 func regEnvOp(cmd *model.Cmd, key string, opOrigin string) {
-	op := strings.ToLower(opOrigin)
+	op := strings.ToLower(strings.TrimSpace(opOrigin))
 	may := strings.Index(op, "may") >= 0 || strings.Index(op, "opt") >= 0
 	write := strings.Index(op, "w") >= 0
 	read := strings.Index(op, "rd") >= 0 ||
-- 
2.43.0

