#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

CLI_C = ["cmd/compare/compare_cmd.go", "pkg/compare/compare.go", "utils/util.go"]
CLI_L = ["cmd/linter/lint_cmd.go", "cmd/linter/linter.go", "cmd/linter/inline_lint_config.go", "pkg/linter/rules.go", "pkg/linter/lint_error.go", "utils/util.go"]

p("C01", "compare output is a deterministic function of its inputs",
  "Running compare twice on the same command line and the same file contents prints byte-identical output and ends with the same exit status. Nothing the runtime or the platform is free to choose (map iteration order, hash seeds, goroutine and garbage-collector scheduling, the order a directory lists its entries, clock, environment) can change either.",
  ["schedules", "inputs", "configurations"],
  "for every pair of schema file sets and flags, and for every two executions that differ only in runtime and platform choices",
  "the tests call the comparison once per input on one-change schemas, so at most one line is ever reported; nothing runs the command, several files, or two executions of the same input under different map orders",
  CLI_C, [("order of sources, of visited definitions and of the printed report", "utils.ParseSchema, compare.changeInTypes, compare.Report*Changes")],
  state=[("map of matched files", "file name to contents; iterated to build the combined schema", "utils.ReadFiles / utils.ParseSchema"), ("persisted types", "types present on both sides; iterated to find member changes", "compare.changeInTypes")],
  observe=["stdout", "exit status"])

p("C02", "lint output is a deterministic function of its inputs",
  "Running lint twice on the same command line and the same file or stdin contents prints byte-identical output and ends with the same exit status. Nothing the runtime or the platform is free to choose (map iteration order, hash seeds, goroutine and garbage-collector scheduling, directory listing order, clock, environment) can change either.",
  ["schedules", "inputs", "configurations"],
  "for every set of schema files and rule selection, including sets where some file does not parse, and for every two executions that differ only in runtime and platform choices",
  "no test runs the lint command at all; the rule tests lint one small document once and look only at whether an error was returned",
  CLI_L, [("order in which files are linted and findings sorted", "linter.FindLintErrors, LintErrorsWithMetadata.GetSortedErrors")],
  state=[("map of matched files", "file name to contents; iterated to lint each file", "cmd/linter.FindLintErrors")],
  observe=["stdout", "exit status"])

p("C03", "Results depend on the bytes read, not on how they are delivered",
  "Given the same bytes, the output and exit status of lint and compare are the same whether reads return everything at once, one byte at a time, in arbitrary short pieces, after interrupted or delayed system calls, with a reported file size that is wrong, or through a symbolic link or a named pipe. Piping a schema into lint's standard input, or redirecting the file there, gives the same findings and status as naming the file, at whatever pace it is delivered, and lint ends within a bounded number of steps once the pipe reaches end of input.",
  ["schedules", "fault_sequences", "inputs"],
  "for every division of the input into reads, every placement of interruptions, delays and wrong size reports, over files and standard input",
  "no test reads a file through the command or reads standard input; the one test that uses files gets whole-file reads from the local disk",
  CLI_L + ["cmd/compare/compare_cmd.go"], [("read until end of file, never trusting sizes or single reads", "utils.ReadFiles, cmd/linter lint command (stdin)")],
  observe=["stdout", "exit status", "system calls"])

p("C04", "No verdict from input that was not completely read",
  "If any matched schema file, standard input, or a directory the path pattern needs cannot be completely opened, listed or read (permission, input/output error part way, file vanished or is a directory, too many open files), lint and compare exit with a non-zero status and print neither a success verdict nor findings, changes or totals computed from part of the input. The message names the path concerned and the cause.",
  ["fault_sequences", "inputs"],
  "for every point of every run at which opening, listing or reading can fail, for every error the platform can return there, for both sides of compare and for lint from files and standard input",
  "no test makes a read fail; error paths of file reading and of both commands are never executed",
  ["utils/util.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go"], [("every error from glob, open and read ends the command before parsing", "utils.ReadFiles and its callers")],
  observe=["stdout", "exit status"])

p("C05", "compare's verdict and change list are right for any file layout and order",
  "For any two valid schemas, however each is divided into files and in whatever order files and definitions are visited, compare exits 1 exactly when the new schema makes at least one documented breaking change, and 0 otherwise. Every documented change is listed exactly once under its severity, with a location inside the definition concerned, and no change is listed that was not made. The printed breaking total equals the number of breaking lines, and the flags that select what is printed (only breaking changes; no locations) change neither the exit status nor the list of breaking changes.",
  ["schedules", "inputs", "histories", "configurations"],
  "for every pair of valid schemas (types, extensions, schema roots and directives edited by any sequence of edits), every division into files, every visiting order and every combination of output flags",
  "the unit tests compare two one-file schemas that differ by one edit and look at the first change's kind; several files, several blocks extending one type, a type both defined and extended, many changes at once, and the exit status are not exercised",
  CLI_C, [("walk of both schemas classifying each difference", "compare.FindChangesInSchemas"), ("grouping, report and exit status", "compare.GroupChanges, compare.Report*Changes, compare command")],
  state=[("persisted types", "pairs of old/new definitions to compare member by member", "compare.changeInTypes")],
  observe=["stdout", "exit status"])

p("C06", "compare ignores how a schema is laid out in files",
  "Moving definitions or extension blocks between matched files, renaming or reordering the files, splitting one extension block into several, or reordering definitions and members changes neither the set of changes compare reports (locations aside) nor its exit status. Two different layouts of the same definitions compare as having no changes, with status 0.",
  ["schedules", "inputs", "configurations"],
  "for every pair of schemas and every pair of file layouts of each of them, under every visiting order",
  "the tests never compare a schema with itself in another layout, and use several files nowhere",
  ["pkg/compare/compare.go", "utils/util.go"], [("combination of all files into one schema and of all blocks extending a type into one", "utils.ParseSchema, compare.changeInTypes, compare.changeInSchema")],
  observe=["stdout", "exit status"])

p("C07", "lint reports exactly what the rules and directives say, over all files",
  "In a run over any set of parseable files, lint reports every violation of each selected rule with the file and line where it is, except those switched off by that file's own lint comments (a disabled line, or the lines between disable and enable for that rule), and reports nothing else. Every matched file is linted exactly once whatever the order, the printed total equals the number of findings, and the exit status is 1 exactly when the total is not zero.",
  ["schedules", "inputs", "configurations"],
  "for every set of files, every selection of rules, every placement of lint comments, and every order in which the files are visited",
  "the rule tests lint single tiny documents and check only whether some error came back; positions, suppression comments, several files, totals and exit status have no test",
  CLI_L + ["cmd/linter/lexer/lexer.go"], [("rule functions, sorting, filtering by lint comments", "cmd/linter.Lint, cmd/linter.filterErrors"), ("loop over files, total and exit status", "cmd/linter.FindLintErrors")],
  observe=["stdout", "exit status"])

p("C08", "A file's lint findings do not depend on the other files in the run",
  "What lint reports for a file in a run over many files is exactly what it reports for that file linted alone with the same rules, whichever other files are matched, whatever they contain and in whatever order they are visited. The total and the exit status of the joint run are the sum and the logical or of the separate runs.",
  ["schedules", "histories", "configurations"],
  "for every set of files and every order of visiting them",
  "no test lints more than one document, so state carried from one file to the next (suppression ranges, findings, counters) is never exercised",
  ["cmd/linter/lint_cmd.go", "cmd/linter/linter.go", "cmd/linter/inline_lint_config.go", "pkg/linter/rules.go"], [("each file parsed, linted and filtered independently", "cmd/linter.FindLintErrors, cmd/linter.Lint")],
  observe=["stdout", "exit status"])

p("C09", "A failing output stream never changes the verdict",
  "When writing to standard output fails, is interrupted or is only partly accepted at any point (closed pipe, full disk, input/output error, short write), the command still ends without crashing, and a run that would have exited non-zero still exits non-zero. Bytes that do arrive are an exact prefix of the complete output when the stream fails for good, and the complete output when it only shortens or interrupts writes.",
  ["fault_sequences", "inputs"],
  "for every write of every run of lint and compare and every kind of output failure placed there",
  "no test makes output fail; the reporting functions' results under a failing stdout are never observed",
  ["pkg/compare/compare.go", "cmd/compare/compare_cmd.go", "cmd/linter/lint_cmd.go"], [("counts and exit status are derived from the findings, not from what was printed", "compare.Report*Changes, cmd/linter.FindLintErrors")],
  observe=["stdout", "exit status"])

p("C10", "Open descriptors stay bounded however many files match",
  "lint and compare process any number of matched schema files while never holding more than a small constant number of files open, whatever the garbage collector does. With a descriptor limit far below the number of files the output and exit status are the same as without the limit.",
  ["schedules", "fault_sequences", "configurations"],
  "for every number of matched files, every descriptor limit of at least sixteen, and every garbage-collector schedule, including one that never runs a finalizer",
  "the tests open at most one file and never run under a descriptor limit; whether leaked descriptors are reclaimed in time depends on the collector's schedule",
  ["utils/util.go"], [("each file is closed once read", "utils.ReadFiles")],
  observe=["system calls: open and close", "stdout", "exit status"])

p("C11", "The commands only read: no run leaves a trace, even when killed",
  "lint and compare never create, modify, rename or delete any file or directory and open nothing for writing, in any schedule, on any error path and with files appearing and vanishing while they run. A run killed at any point leaves the file system exactly as it was, and running the command again gives the same output and exit status as if the killed run had never happened.",
  ["crash_points", "fault_sequences", "schedules"],
  "for every point at which a run can be killed or a system call can fail",
  "no test observes the commands' effects on the file system, kills a run, or reruns after a kill",
  ["utils/util.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go"], [("schemas are opened read-only; no caches, no temporary files", "utils.ReadFiles")],
  observe=["system calls", "file system state", "stdout", "exit status"])

p("C12", "Torn or corrupted schemas never crash the tool or pass as complete",
  "Whatever bytes a schema file or standard input holds (cut off at any byte, with flipped bytes, zeroed, repeated or missing blocks, as after a torn write), lint and compare end within a bounded number of steps with status 0 or 1 and never crash. A schema cut off inside the braces of a definition gives status 1, a message naming the file concerned or its position, and no success verdict.",
  ["crash_points", "fault_sequences", "inputs"],
  "for every valid schema, every byte at which a write of it can be torn, and every corruption of its bytes",
  "the tests use only well-formed documents; the comment scanner, the lint-comment parser and all parse-error paths are run by none of them",
  CLI_L + CLI_C[:2] + ["cmd/linter/lexer/lexer.go", "cmd/linter/lexer/blockstring.go"], [("parse errors end the command", "cmd/linter.Lint, compare command"), ("scan for lint comments tolerates any comment text", "cmd/linter.extractInlineLintConfiguration")],
  observe=["exit status", "stdout", "stderr"])

p("C13", "Concurrent callers get the answers they would get alone",
  "Any number of callers may run lint rules, file linting, comparisons, grouping of changes and schema parsing at the same time in one process, sharing parsed schemas. Under every interleaving each call returns exactly what it returns when run alone on the same inputs, none of them races with another on memory, none of them fails to finish, and what a call has returned is not altered by any other.",
  ["schedules", "inputs", "histories"],
  "for every set of concurrent calls on shared or separate schemas and every interleaving of their steps",
  "the tests make one call at a time; the race detector in upstream's CI has no concurrent calls to look at",
  ["pkg/linter/rules.go", "pkg/compare/compare.go", "utils/util.go", "cmd/linter/linter.go", "cmd/linter/inline_lint_config.go", "cmd/linter/lexer/lexer.go"], [("no mutable package-level state; schemas are only read", "pkg/linter, pkg/compare, cmd/linter, utils")],
  state=[("parsed schema documents", "shared, read-only inputs of rules and comparisons", "callers")],
  observe=["returned findings and changes", "race detector over simulated task accesses"])

p("C14", "A verdict reflects one version of every file",
  "While other processes atomically replace, add or remove matched schema files during a run, lint and compare either report a failure or produce exactly the output and status they would produce on some choice of one version for each file. Findings, suppressions, positions and changes never mix bytes of two versions of the same file.",
  ["schedules", "histories", "fault_sequences"],
  "for every set of files, every sequence of replacements, additions and removals by others, and every placement of those between the steps of a run",
  "no test changes a file while the tool runs, so reading a file twice or trusting an earlier size or listing is never exposed",
  ["utils/util.go", "cmd/linter/linter.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go"], [("each file is opened once and read once; every later stage uses those bytes", "utils.ReadFiles, cmd/linter.Lint")],
  observe=["stdout", "exit status"])

p("C15", "Library results do not depend on earlier calls and inputs stay untouched",
  "In one process, the result of parsing, linting, comparing or grouping depends only on the arguments of that call: any history of earlier calls, on the same or on other schemas, successful or failed, leaves it unchanged, and repeating a call repeats its result. No call modifies the schema documents, rule lists or file contents it is given, nor what an earlier call has returned.",
  ["histories", "schedules", "inputs"],
  "for every history of calls in one process and every schema",
  "each test makes one call on a freshly parsed document and never looks at the document afterwards",
  ["pkg/linter/rules.go", "pkg/linter/lint_error.go", "pkg/compare/compare.go", "utils/util.go", "cmd/linter/linter.go", "cmd/linter/lint_cmd.go"], [("pure functions over read-only documents, no caches", "pkg/linter, pkg/compare, utils")],
  observe=["returned findings and changes", "deep contents of the documents passed in"])

p("C16", "Files the patterns do not match have no influence",
  "Only the files a path pattern matches take part in a run of lint or compare (and standard input only when lint is given no path). Whatever other files, directories and links lie beside, above or below them, in the home or working directory or wait on standard input, whether unreadable, malformed, dangling or huge, and whether they appear, change or vanish during the run, output and exit status are the same as without them.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "for every set of matched files and every surrounding file system, every failure of an operation on something not matched, and every placement of changes to it",
  "no test runs a command in a directory with anything else in it, and none changes surroundings during a run",
  ["utils/util.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go", "cmd/root.go"], [("selection of the files to read", "utils.ReadFiles")],
  observe=["stdout", "exit status", "system calls"])

p("C17", "A command line that cannot be honoured is refused at once",
  "When the command, a flag, its value or the name of a rule is unknown or missing, or compare is given one path for both versions, the run ends with status 1 and a message that says what is wrong, and prints no verdict. It reads nothing from standard input and opens none of the schema files, so it ends even if nothing ever arrives there, whatever the state of the files, of the output streams and of the environment. A path pattern that is malformed or matches no file is refused in the same way, except that compare may already have opened the other version's files. Asking for help likewise reads nothing. Documented rule names are accepted in any letter case and with blanks around them and select the same rules; an empty list selects all.",
  ["inputs", "configurations", "fault_sequences", "schedules"],
  "for every command line, every state of files and streams, every failure of a write and every schedule",
  "no test runs a command; that nothing is waited for or touched before a refusal shows only when the input never ends or cannot be opened",
  ["cmd/root.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go", "pkg/linter/rules.go"], [("rule names are looked up before input is read", "cmd/linter.FindTheRulesToApply"), ("paths are checked before files are read", "cmd/compare.NewCompareCmd")],
  observe=["stdout", "stderr", "exit status", "system calls"])

# Pure functions of one input: listed because users rely on them, not simulation targets.
p("C20", "Type-change classification is sound for reads and writes",
  "A changed output type is classified safe only if every value the new type can produce is acceptable where the old type was expected, and a changed input type only if every value acceptable to the old type is acceptable to the new one, for any nesting of lists and non-null.",
  ["inputs"], "for every pair of types of any nesting depth",
  "the tests try a handful of depth-one pairs", ["pkg/compare/compare.go"],
  [("recursive compatibility relation", "compare.isSafeChangeForFieldType, compare.isSafeChangeForInputValue")], observe=["criticality of the reported change"])
p("C21", "compare ignores formatting that carries no meaning",
  "Whitespace, commas, comments, line endings, byte order marks and the choice between quoted and block strings with equal value never make compare report a change.",
  ["inputs"], "for every schema and every equivalent rendering of it",
  "the tests render each schema once", ["utils/util.go", "pkg/compare/compare.go"],
  [("comparison works on the parsed document only", "compare.FindChangesInSchemas")], observe=["stdout"])
p("C22", "The comment-preserving scanner agrees with the parser's scanner",
  "For every schema the parser accepts, the scanner that finds lint comments succeeds and yields the parser's token stream plus the comments, with true line numbers.",
  ["inputs"], "for every accepted schema text",
  "the scanner has no test", ["cmd/linter/lexer/lexer.go", "cmd/linter/lexer/blockstring.go", "cmd/linter/inline_lint_config.go"],
  [("copied scanner that returns comments", "lexer.Lexer.ReadToken")], observe=["tokens"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
