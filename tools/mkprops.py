#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only because one-line JSON is hard to edit).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p("C01","Command line is split at separators exactly, and splitting never crashes",
  "Splitting a command line into command segments cuts at every ':' separator and only there: a ':' that directly follows a listed unbreakable prefix, directly precedes a listed unbreakable suffix, or is escaped by '\\' stays inside its word, the escaping '\\' is dropped, and no other character is lost, added or reordered; each word of a segment is stripped of surrounding white space. The first segment is reported as global exactly when the line does not begin with a separator. Splitting terminates without crashing for every argument list.",
  ["inputs"],"every argument vector (any number of words, any bytes) and every configuration of separator, prefixes and suffixes",
  "The existing tests split about twenty fixed lines; escapes at word ends, adjacent separators and prefix/suffix overlaps are unbounded combinations of positions.",
  ["pkg/core/parser/sequence.go"],[("separator scan with escape and prefix/suffix exemptions","pkg/core/parser/sequence.go Normalize"),("grouping into segments","pkg/core/parser/sequence.go Parse")])

p("C02","A key lookup returns the value of the innermost env layer that defines it",
  "Looking up an env key yields the value stored in the innermost layer (command over session over persisted over default) that defines the key, and reports absence exactly when no layer defines it. Presence test, value lookup and flattened view agree on every key. A lookup changes nothing.",
  ["inputs","histories"],"every stack of layers of any depth, every content of each layer, every key",
  "Tests sample a handful of two-layer environments; agreement of the several lookup routes over all depths and shadowings is inductive over the layer stack.",
  ["pkg/core/model/env.go"],[("layered lookup","pkg/core/model/env.go Get GetEx Has"),("flattening","pkg/core/model/env.go Flatten flatten")],
  [("pairs/parent","bindings of one layer and the next outer layer","pkg/core/model/env.go Env")])

p("C03","Env writes and deletes touch exactly the intended key and layers",
  "After setting a key to a value in a layer, looking that key up from the layer gives that value, and every other key and every outer layer is unchanged. Deleting a key in one layer removes only that binding, deleting with a stop layer never touches the stop layer or anything outside it, and deleting everywhere leaves the key absent. A cloned environment has the same contents and later writes to either copy are invisible in the other.",
  ["inputs","histories"],"every layer stack, key, value and operation, hence every history of operations",
  "Frame conditions ('nothing else changed') range over all keys and all layers; tests look only at the touched key.",
  ["pkg/core/model/env.go"],[("writes","pkg/core/model/env.go Set SetEx SetIfEmpty Merge"),("deletes","pkg/core/model/env.go Delete DeleteEx DeleteInSelfLayer Deduplicate"),("copy","pkg/core/model/env.go Clone")])

p("C04","Saved env values reload to the same values",
  "Every key/value pair written to the env file is read back as the same key with the same value, whatever bytes the value contains apart from line breaks (a carriage return at the end of a line counts as part of its line break, and the deletion mark '--' as a value means deletion), and keys not written do not appear. Reading a line splits it at the first separator only. A value that was never saved is never invented by loading.",
  ["inputs"],"every set of key/value pairs whose keys contain no separator and no line break and whose values contain no line break",
  "There are no tests of the env file; values containing the separator, quotes, blanks or template marks are an unbounded input space.",
  ["pkg/core/model/proto.go"],[("writer","pkg/core/model/proto.go EnvOutput saveEnvToFile SaveEnvToFile"),("reader","pkg/core/model/proto.go EnvInput LoadEnvFromFile")])

p("C05","A crash while saving never leaves a truncated env or hub file",
  "Saving the persisted env, the hub list or a flow file replaces the old file atomically: at every point where the process may be killed or an I/O call may fail, the file under its final name holds either its complete previous content or its complete new content. A failed save is reported and does not destroy the previous file.",
  ["crash_points","fault_sequences"],"every crash point between two file-system operations and every failing operation during a save",
  "No test interrupts a save; the guarantee quantifies over the position of the crash.",
  ["pkg/core/model/proto.go","pkg/mods/persist/hub_meta/hub_meta.go","pkg/mods/persist/meta_file/meta_file.go"],[("write to temporary file then rename","pkg/core/model/proto.go saveEnvToFile; pkg/mods/persist/hub_meta/hub_meta.go WriteReposInfoFile; pkg/mods/persist/meta_file/meta_file.go MetaFile.Save; pkg/mods/persist/flow_file/flow_file.go SaveFlowFile")])

p("C06","Arguments bind by name, abbreviation or position to the declared argument",
  "A declared argument can be addressed by its name or any of its declared abbreviations and by nothing else, no two arguments share a name or abbreviation, and a conflicting declaration is rejected instead of silently rebinding. Positional order is declaration order (or the declared reordering, which must mention every argument once). The value an executed command receives is the env value of its own argument key if present and otherwise the declared default (the default of an argument taken over from a flow's commands counts only on the command line, not for calls inside of flows).",
  ["inputs","histories"],"every sequence of argument declarations and every argument text",
  "Tests cover a few fixed declarations; uniqueness over all declaration sequences is an inductive invariant.",
  ["pkg/core/model/args.go","pkg/core/model/argv.go","pkg/core/model/env.go"],[("declaration","pkg/core/model/args.go AddArg"),("lookup","pkg/core/model/args.go Realname Has Index"),("binding","pkg/core/model/env.go GetArgv")])

p("C07","An unprovided read of an env key is reported, and a provided one is not",
  "Before a flow runs, the checker reports a command that reads a key nobody provided: not written by an earlier command of the flow or of a flow it contains, nor by an earlier operation of this command on the key, and without a (non-empty) value in the env the command sees. It reports nothing for a key that an earlier operation surely wrote or that is present, and a key that was only maybe written is reported as such and is not fatal. What is reported for a read depends only on the earlier operations on the same key, not on other keys or on earlier reads.",
  ["programs","inputs"],"every flow, every order of reads, may-reads, writes and may-writes of any set of keys",
  "No test exercises the checker; flows are arbitrary sequences of operations over arbitrary keys.",
  ["pkg/core/model/env_ops.go"],[("checker state update","pkg/core/model/env_ops.go OnCallCmd"),("entry point","pkg/core/model/env_ops.go CheckEnvOps")])

p("C08","Command names and abbreviations resolve to one command, conflicts are rejected",
  "In every command tree reachable by registering commands and abbreviations, each name or abbreviation of a branch resolves to exactly one child, and a full command path resolves to the command registered under it. Registering a name or abbreviation that already means another child of the same branch is rejected and leaves the existing meaning intact. Looking up never changes the tree.",
  ["histories","inputs"],"every sequence of registrations, removals and lookups, over arbitrary names",
  "Tests build one or two trees by hand; the no-ambiguity invariant must survive every registration order.",
  ["pkg/core/model/cmds.go"],[("registration","pkg/core/model/cmds.go AddSub AddAbbrs addAbbrs"),("resolution","pkg/core/model/cmds.go GetSub Realname GetSubByPath")])

p("C09","Env key abbreviations resolve to exactly one full key",
  "Every segment of an env key can be replaced by its declared abbreviations; a key path written with abbreviations resolves to the same full key as the unabbreviated path, an abbreviation never means two different siblings, and an unknown segment is reported as unmatched with the already matched part returned, and a setting of such a key is stored under the text as written. Conflicting abbreviation declarations are rejected.",
  ["histories","inputs"],"every declaration sequence of names and abbreviations and every key text",
  "Parser tests use one small fixed abbreviation tree.",
  ["pkg/core/model/env_abbr.go"],[("declaration","pkg/core/model/env_abbr.go AddAbbrs AddSub GetOrAddSub"),("matching","pkg/core/model/env_abbr.go TryMatch")])

p("C10","Flow templates expand each reference to its value and leave other text alone",
  "Rendering a flow line replaces every '[[key]]' reference by the value of the argument or env key it names, leaves all other text byte for byte unchanged and does not expand references that appear inside substituted values. A reference with no value is reported (or kept as it is where that is asked for), never dropped silently. Rendering terminates for all texts and values.",
  ["inputs"],"every template text, argument list and env content",
  "No test renders templates; texts and values are unbounded and values can themselves contain template marks.",
  ["pkg/core/model/template.go"],[("rendering","pkg/core/model/template.go renderTemplateStr tryRenderTemplate"),("multi-value rendering","pkg/core/model/template.go renderTemplateStrLines")])

p("C11","Comment stripping keeps every command line and drops every comment",
  "Before a stored flow is executed, lines that are blank or comments (their first letter that is no blank is a '#') are dropped and every other line keeps its text, apart from blanks at its ends, and its position relative to the others. No part of a command line is removed and no comment line survives. The lines stay separate commands, in order: a line that does not end with a separator is given one, unless it is the last.",
  ["inputs"],"every list of lines",
  "Not tested; position of blanks, comments and trailing separators is an unbounded combination.",
  ["pkg/core/model/flow.go"],[("stripping","pkg/core/model/flow.go StripFlowForExecute")])

p("C12","Resuming a session skips exactly the commands that already succeeded",
  "When a recorded session is retried, the execution masks line up one to one with the commands of the flow; a command is skipped exactly when the record says it succeeded; a succeeded command with a nested flow is entered with the masks of its parts and its own script is not run again. A command that failed, was interrupted, was skipped by hand or was never started is executed again, starting with the env it first started with.",
  ["histories","inputs"],"every recorded execution (any mix of succeeded, failed, incomplete commands, nested flows) of every flow",
  "There are no tests of masks; records and flows are arbitrary trees.",
  ["pkg/core/model/executed.go","pkg/core/model/cmd.go"],[("mask generation","pkg/core/model/executed.go GenExecMasks"),("mask use","pkg/core/model/cmd.go shouldExecByMask executedAndSucceeded executeByType executeFileNFlow execute")])

p("C13","Priority commands move to the front, everything else keeps its order",
  "Rearranging a parsed flow moves the trailing priority commands (and a last command that follows an empty segment) to the front without dropping, duplicating or changing any command; several trailing priority commands run in the order they were written, all other commands keep their relative order. The index of the global segment follows its command. Removing empty segments removes exactly the segments with no command and keeps the order of the others.",
  ["inputs","programs"],"every parsed flow of any length",
  "No unit test reorders; permutation and stability are universally quantified over flows.",
  ["pkg/core/execute/executor.go","pkg/core/model/cmd.go"],[("reordering","pkg/core/execute/executor.go moveLastPriorityCmdToFront"),("removal of empty segments","pkg/core/execute/executor.go removeEmptyCmds")])

p("C14","Session directory names are parsed back to the process and id they were made of",
  "The name of a session directory determines the owning process and the start of the session uniquely, so that a running session is never taken for a finished one; names not produced this way are rejected. The cleaning when a session starts removes only sessions whose owner is gone and which are older than the keep duration; asking to remove all sessions removes only those whose owner is gone. The current session is never removed, nor anything that is no session directory.",
  ["inputs","histories"],"every set of directory entries, process ids, ages and keep durations",
  "Not tested; requires all combinations of process state, age and odd names.",
  ["pkg/core/model/session.go","pkg/mods/builtin/sessions.go"],[("name parsing and cleaning","pkg/core/model/session.go")])

p("C15","The hub list survives a save and load unchanged",
  "Every list of hub entries written to the hub file is read back as the same entries in the same order (address, reason, path, help text and on/off state), for all field contents without tabs and line breaks ('#' separates address and branch, paths are absolute). Converting a path between its absolute and hub-relative form and back gives the same path. A malformed line is reported, never turned into an entry with shifted fields.",
  ["inputs"],"every list of entries with arbitrary tab- and newline-free field values, every hub root path",
  "Not tested; an unbounded space of lists and field values.",
  ["pkg/mods/persist/hub_meta/hub_meta.go","pkg/mods/persist/hub_meta/hub_meta.go"],[("writer/reader","pkg/mods/persist/hub_meta/hub_meta.go WriteReposInfoFile ReadReposInfoFile"),("address conversion","pkg/mods/persist/hub_meta/hub_meta.go ParseRepoAddr")])

p("C16","Hub disable and purge touch only matching entries; enabled ones are never purged",
  "Enabling, disabling and purging change exactly the hub entries that match the given text (just the one whose name is the text if there is one, else all that contain it); every other entry stays in the list unchanged and in order. Purging removes only disabled entries, an enabled entry is never removed. Purging an entry that is a local directory never deletes the directory's content.",
  ["inputs","histories"],"every hub list and every match text",
  "No tests for the hub commands; ranges over all lists and match strings including exact, partial and enabled/disabled mixes.",
  ["pkg/mods/builtin/hub.go","pkg/mods/persist/hub_meta/hub_meta.go"],[("matching","pkg/mods/persist/hub_meta/hub_meta.go ExtractAddrFromList; pkg/mods/builtin/hub.go exactMatchHubRepo"),("purge","pkg/mods/builtin/hub.go purgeInactiveRepoFromHub purgeAllInactiveReposFromHub")])

p("C17","A saved flow or meta file loads back with the same content",
  "A meta file written from a set of sections, keys and values loads back to the same keys and values in the same sections and order, including multi-line values, for all contents the format can express. Loading never crashes on any file content and never moves a value to another key.",
  ["inputs"],"every meta content and every byte sequence as file content",
  "Not tested; multi-line values, quotes, blanks, comments and sections combine without bound.",
  ["pkg/mods/persist/meta_file/meta_file.go","pkg/mods/persist/flow_file/flow_file.go"],[("parser","pkg/mods/persist/meta_file/meta_file.go parse"),("writer","pkg/mods/persist/meta_file/meta_file.go save")])

p("C18","A join flow runs every combination of the joined values exactly once",
  "A join over several value lists produces every element of the cartesian product of the lists exactly once, in lexicographic order of the lists, and then stops; a combination whose command fails ends the join with failure. It never produces a combination with a value from the wrong list and never stops early otherwise. A join over an empty range runs nothing, a malformed or endless range is rejected. Lists are taken apart at the separator without losing or merging values.",
  ["inputs"],"every number of lists with every number of values",
  "Not tested; the number of lists and values is unbounded.",
  ["pkg/mods/builtin/join.go"],[("odometer over value lists","pkg/mods/builtin/join.go")])

p("C19","Switch words mean on or off unambiguously, and durations keep their amount",
  "No text means both on and off; the documented words for on and off are recognised in any letter case and everything else is neither. A boolean setting or argument reads as true exactly for the words for on. A number is read back as the number it was written as, a duration without a unit means seconds, and a text that is no number (no duration) is reported instead of guessed.",
  ["inputs"],"every text value of every setting",
  "Not tested; all strings must be classified.",
  ["pkg/core/model/val.go","pkg/core/model/env_val.go","pkg/core/model/argv.go","pkg/utils/misc.go"],[("classification","pkg/core/model/val.go StrToBool StrToTrue StrToFalse"),("typed reads","pkg/core/model/env_val.go GetBool GetInt GetDur; pkg/utils/misc.go NormalizeDurStr")])

p("C20","Values of sensitive keys and arguments are shown only as a mask",
  "A key whose name contains one of the sensitive words in any letter case is classified sensitive unless its value is just an on/off word, and no other key is. Env listings and the argument lists of commands show the value of a sensitive key or argument only as a fixed mask that does not depend on the value, unless showing sensitive values is switched on; all other values are shown as they are.",
  ["inputs"],"every key name and value",
  "Not tested; a universally quantified classification over strings.",
  ["pkg/core/model/env.go","pkg/cli/display/utils.go","pkg/cli/display/args.go","pkg/cli/display/env.go"],[("classification","pkg/core/model/env.go IsSensitiveKeyVal"),("masking in displays","pkg/cli/display/utils.go mayMaskSensitiveVal; pkg/cli/display/args.go; pkg/cli/display/env.go")])

p("C21","Flow-altering commands apply to the announced number of commands",
  "Replacing, removing or inserting around commands by a live flow-altering rule affects exactly the matching commands that come after the place the rule is given at, in flow order (a flow first, then the flows inside of it), at most the announced number of times (once, or all). All live rules apply to a command in the order they were given in, until one takes the command away; all other commands stay unchanged, and commands are neither lost, duplicated nor reordered by a rule that does not say so. Checking a flow before running it applies the rules as running it does and does not use them up.",
  ["programs","inputs"],"every flow and every set of rules with every announced count",
  "Not tested; flows, rule sets and counts are unbounded.",
  ["pkg/core/model/blender.go","pkg/mods/builtin/blender.go"],[("rule application","pkg/core/model/blender.go Invoke"),("rule registration","pkg/mods/builtin/blender.go")])

p("C22","Bracketed env settings are parsed to the written keys and values",
  "A '{key=value ...}' block in front of a command sets exactly the keys written in it to the values written in it, for the command it is attached to; the words behind it are passed on unchanged. The same goes for the 'name=value' words after a command with arguments. A word is split at its first '=', blanks around keys and values and empty words in a block don't count, a key written twice gets the value written last, known abbreviations of env keys and arguments are replaced by the real names. Blocks that are not closed or hold something else than settings are reported. Parsing never crashes and never assigns a value to another key; a path separator at the end of a command is not taken for an argument.",
  ["inputs"],"every argument vector and every bracket, separator and assignment configuration",
  "Tests try about thirty fixed inputs; blanks, '=' and brackets can be spread over words in unboundedly many ways.",
  ["pkg/core/parser/env.go","pkg/core/parser/cmd.go","pkg/core/model/parsing.go"],[("block detection","pkg/core/parser/env.go TryParse findLeft findRight"),("key/value extraction","pkg/core/parser/env.go TryParseRaw normalizeEnvRawStr"),("settings of a command","pkg/core/model/parsing.go ParsedEnv.AddPrefix Merge WriteTo")])

p("C23","Declared env writes of a command happen with the declared value and precedence",
  "When a command with declared arg-to-env and value-to-env mappings runs, each key mapped to an argument ends up holding the argument value given on the command line (an empty one too), else keeps a value already present, else takes the default of the argument if that is not empty; fixed values are always written, in the declared order, before the arguments, with '[[key]]' in them replaced by the value of the key. No other key is written. A key is mapped to one argument only, and an argument to one key. A key mapped to an argument is reported as provided by this command.",
  ["inputs"],"every mapping, argument vector and env",
  "Not tested; ranges over all mappings and env contents.",
  ["pkg/core/model/env_mapper.go","pkg/core/model/parsing.go","pkg/core/model/cmd.go"],[("mapping tables","pkg/core/model/env_mapper.go"),("application","pkg/core/model/parsing.go ApplyVal2Env ApplyArg2Env"),("declaration in a module file","pkg/mods/persist/mod_meta/mod_reg.go regVal2Env regArg2Env")])

p("C24","A partly written session status file can always be read back",
  "The status record of a session that was killed at any moment can be read: whatever the bytes are, reading them ends with a record or a reported error and never with a crash, and a record that was just cut off is read. The commands reported are the recorded ones in order with their recorded start state; a command without its result mark is reported as incomplete or failed and never as succeeded, and the same holds for flows and scheduled commands. (Recorded values and error texts are assumed to have no line breaks that make them look like marks.)",
  ["crash_points","inputs"],"every prefix of every status record, and every byte sequence",
  "No test truncates a record; the cut can be anywhere.",
  ["pkg/core/model/executed.go","pkg/core/model/executing.go"],[("record parser","pkg/core/model/executed.go ParseExecutedFlow parseExecutedCmds"),("record writer","pkg/core/model/executing.go")])

p("C25","Tolerated module-loading errors are all reported, grouped by source",
  "Every error tolerated while loading modules is kept and reported under its source exactly once; conflicting definitions are grouped with the source of the definition they conflict with. No error disappears: when there are more than eight conflicts between the same two sources, they are reported as one message with their number. (With tips switched off, or panics not recovered, nothing is tolerated or shown silently by configuration.)",
  ["inputs","fault_sequences"],"every sequence of loading errors",
  "Not tested; sequences of errors are unbounded.",
  ["pkg/core/model/errs.go"],[("collection","pkg/core/model/errs.go TolerableErrs OnErr")])

p("C26","A saved flow text parses back to the same commands",
  "A command line that parses without an error is saved as a text that parses to the same commands, with the same levels, settings and arguments. A word with blanks, quotes, backslashes or other marks of the shell syntax comes back as one word with the same text, a word without them is written as it is, and separators inside a value stay inside their value. (Texts are valid UTF-8; values hold no brackets and no blanks at their ends, which the syntax cannot express.)",
  ["inputs"],"every word, every command line",
  "Not tested; all texts and all combinations of marks.",
  ["pkg/utils/misc.go","pkg/core/model/flow.go"],[("quoting","pkg/utils/misc.go QuoteStrIfHasSpace"),("separator escaping","pkg/core/model/flow.go normalizeEnvVal")])

p("C27","All external dependencies of a flow are collected",
  "The dependency listing of a flow contains every program required by every command of the flow, including commands inside nested flows, each with the commands that need it, and nothing else. A missing program therefore is found before the flow starts.",
  ["programs"],"every flow with nested flows of any depth",
  "Not tested; recursion over arbitrary nesting.",
  ["pkg/core/model/dep.go"],[("collection","pkg/core/model/dep.go CollectDepends")])

p("C28","A flow runs each command once, in order, and stops at the first failure",
  "Executing a flow runs its commands one after another in the order given, each exactly once, passes the env changes of one to the next, and after a command fails no later command of the flow starts. The flow succeeds exactly when all its commands succeeded.",
  ["programs","fault_sequences"],"every flow and every position of a failing command",
  "No test runs a flow through the executor; flow length and failure position are unbounded.",
  ["pkg/core/execute/executor.go"],[("main loop","pkg/core/execute/executor.go executeFlow")])

p("C29","Background tasks are waited for, and every result is collected once",
  "A flow that started background commands does not report success before all of them finished, every background failure is reported, and output of different tasks is not mixed. Waiting for one task returns after exactly that task finished.",
  ["schedules"],"every interleaving of background tasks",
  "Not tested; quantifies over schedules.",
  ["pkg/core/model/bg_tasks.go"],[("task table","pkg/core/model/bg_tasks.go")])

p("C30","Breakpoints and step mode stop before the next command and never skip one",
  "With a breakpoint set before or after a command, execution pauses exactly there and continuing runs the remaining commands unchanged. Answering to quit runs nothing further.",
  ["histories"],"every sequence of user answers at every breakpoint of every flow",
  "Interactive; not tested.",
  ["pkg/core/execute/interactive.go"],[("interactive stop","pkg/core/execute/interactive.go")])

p("C31","Quick text utilities used by all parts are exact on every input",
  "Path and text helpers every part relies on - normalising a command path, splitting a quoted command line, padding, unquoting, extracting sub-directory names from addresses - return exactly the documented text for every input and never crash.",
  ["inputs"],"every input text",
  "Not tested at all; indices at the ends of strings decide correctness.",
  ["pkg/utils/misc.go","pkg/core/model/cmds.go"],[("text helpers","pkg/utils/misc.go")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
