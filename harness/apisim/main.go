// Command apisim runs calls of gql's libraries as simulated tasks. It reads a
// scenario from standard input and prints one JSON document with what every call
// returned. It is linked into the simulated build only (through a build overlay).
//
//	alone:   every call on freshly parsed documents, one after another
//	history: one after another on shared documents, which are looked at after each call
//	tasks:   concurrently on shared documents, the scheduler deciding every switch
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"

	cmdlinter "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	"github.com/CrowdStrike/gql/verifsim/simrt"
)

type op struct {
	Op    string   `json:"op"`
	Doc   int      `json:"doc"`
	New   int      `json:"new"`
	Rules []string `json:"rules"`
	Path  string   `json:"path"`
	Flag  bool     `json:"flag"`
}

type scenario struct {
	Mode  string              `json:"mode"`
	Docs  []map[string]string `json:"docs"`
	Tasks [][]op              `json:"tasks"`
	Look  bool                `json:"look"`
	Gap   int                 `json:"gap"`
	Seed  uint64              `json:"seed"`
}

type outcome struct {
	Results [][]string `json:"results"`
	Touched []string   `json:"touched"`
	Steps   uint64     `json:"steps"`
	Sig     string     `json:"sig"`
}

// sig hashes the switches between tasks, to tell interleavings apart.
var sig uint64 = 14695981039346656037

const marker = "\x01\x02"

// inputs shared by the tasks
type env struct {
	files   []map[string][]byte
	names   [][]string
	parsed  []*ast.SchemaDocument
	errs    []error
	single  []map[string]bool // file -> parses on its own
	rules   map[string]linter.LintRuleFunc
	all     []linter.LintRuleFunc
	nameAll []string
}

// setup parses the documents; only those one call needs when that is given.
func setup(s *scenario, only *op) *env {
	e := &env{rules: map[string]linter.LintRuleFunc{}}
	for i, d := range s.Docs {
		if only != nil && i != only.Doc && i != only.New {
			e.files, e.parsed, e.errs, e.single, e.names = append(e.files, nil), append(e.parsed, nil), append(e.errs, nil), append(e.single, nil), append(e.names, nil)
			continue
		}
		f, ok := map[string][]byte{}, map[string]bool{}
		var names []string
		for n, t := range d {
			f[n] = []byte(t)
			names = append(names, n)
			_, err := parser.ParseSchema(&ast.Source{Name: n, Input: t})
			ok[n] = err == nil
		}
		sort.Strings(names)
		doc, err := utils.ParseSchema(f)
		if err != nil {
			doc = nil
		}
		e.files, e.parsed, e.errs, e.single, e.names = append(e.files, f), append(e.parsed, doc), append(e.errs, err), append(e.single, ok), append(e.names, names)
	}
	for _, r := range linter.AllTheRules {
		e.rules[string(r.Name)] = r.RuleFunction
		e.nameAll = append(e.nameAll, string(r.Name))
	}
	e.all = make([]linter.LintRuleFunc, 0, 40)
	for _, r := range linter.AllTheRules {
		e.all = append(e.all, r.RuleFunction)
	}
	return e
}

func (e *env) pick(names []string) []linter.LintRuleFunc {
	if len(names) == 0 {
		return e.all // shared between tasks, with room to spare
	}
	var fs []linter.LintRuleFunc
	for _, n := range names {
		if f := e.rules[n]; f != nil {
			fs = append(fs, f)
		}
	}
	return fs
}

func pos(p *ast.Position) string {
	if p == nil {
		return "-"
	}
	n := "-"
	if p.Src != nil {
		n = p.Src.Name
	}
	return fmt.Sprintf("%s:%d:%d", n, p.Line, p.Column)
}

func finds(fs []linter.LintErrorWithMetadata, ordered bool) string {
	ls := make([]string, 0, len(fs))
	for _, f := range fs {
		ls = append(ls, fmt.Sprintf("%s %d:%d %v", f.Rule, f.Line, f.Column, f.Err))
	}
	if !ordered {
		sort.Strings(ls)
	}
	return strings.Join(ls, "\n")
}

func changes(cs []*compare.Change) string {
	ls := make([]string, 0, len(cs))
	for _, c := range cs {
		ls = append(ls, fmt.Sprintf("%v %v %s %s %s", c.GetChangeCriticalityLevel(), c.GetChangeType(), c.GetPath(), pos(c.GetPosition()), c.GetMessage()))
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// do makes a call and says what it returned; keep says it again, later.
func (e *env) do(o op) (res string, keep func() string) {
	defer func() {
		if r := recover(); r != nil {
			res, keep = fmt.Sprintf("PANIC %v", r), nil
		}
	}()
	keep = e.call(o)
	return keep(), keep
}

func said(s string) func() string { return func() string { return s } }

func each(fs []func() string, sep string) func() string {
	return func() string {
		var out []string
		for _, f := range fs {
			out = append(out, f())
		}
		return strings.Join(out, sep)
	}
}

func (e *env) call(o op) func() string {
	if o.Doc >= len(e.files) || o.New >= len(e.files) {
		return said("no such document")
	}
	doc := e.parsed[o.Doc]
	needs := map[string]bool{"rule": true, "sorted": true, "compare": true, "group": true, "report": true}[o.Op]
	if needs && (doc == nil || o.Op != "rule" && o.Op != "sorted" && e.parsed[o.New] == nil) {
		return said("unparsable")
	}
	switch o.Op {
	case "parse":
		d, err := utils.ParseSchema(e.files[o.Doc])
		if err != nil {
			return said("error: " + err.Error())
		}
		return func() string {
			return fmt.Sprintf("%d definitions, %d extensions, digest %x", len(d.Definitions), len(d.Extensions), digest(d, false))
		}
	case "rule":
		var out []func() string
		for _, f := range e.pick(o.Rules) {
			found := f(doc)
			out = append(out, func() string { return finds(found, false) })
		}
		return each(out, "\n--\n")
	case "sorted":
		var all linter.LintErrorsWithMetadata
		for _, f := range e.pick(o.Rules) {
			all = append(all, f(doc)...)
		}
		sorted := all.GetSortedErrors()
		return func() string { return finds(sorted, true) }
	case "lint":
		var out []func() string
		for _, n := range e.names[o.Doc] {
			n := n
			if !e.single[o.Doc][n] {
				out = append(out, said(n+": unparsable"))
				continue
			}
			found := cmdlinter.Lint(n, string(e.files[o.Doc][n]), e.pick(o.Rules))
			out = append(out, func() string { return n + ":\n" + finds(found, true) })
		}
		return each(out, "\n")
	case "findlint":
		for _, n := range e.names[o.Doc] {
			if !e.single[o.Doc][n] {
				return said("unparsable")
			}
		}
		return said(fmt.Sprint("status ", cmdlinter.FindLintErrors(e.files[o.Doc], e.pick(o.Rules))))
	case "select":
		fs, err := cmdlinter.FindTheRulesToApply(o.Rules)
		if err != nil {
			return said("error: " + err.Error())
		}
		var found []string
		for _, f := range fs {
			if doc != nil {
				found = append(found, "\n"+finds(f(doc), false))
			} else {
				found = append(found, "")
			}
		}
		return func() string {
			var out []string
			for i, f := range fs {
				n := "?"
				for k, g := range e.rules {
					if reflect.ValueOf(g).Pointer() == reflect.ValueOf(f).Pointer() {
						n = k
					}
				}
				out = append(out, n+found[i])
			}
			return strings.Join(out, "\n")
		}
	case "describe":
		return said(linter.AvailableRulesWithDescription())
	case "compare":
		cs := compare.FindChangesInSchemas(doc, e.parsed[o.New])
		return func() string { return changes(cs) }
	case "group":
		cs := compare.FindChangesInSchemas(doc, e.parsed[o.New])
		before := fmt.Sprintf("%p", cs)
		for _, c := range cs {
			before += fmt.Sprintf(" %p", c)
		}
		m := compare.GroupChanges(cs)
		after := fmt.Sprintf("%p", cs)
		for _, c := range cs {
			after += fmt.Sprintf(" %p", c)
		}
		return func() string {
			s := "B\n" + changes(m[compare.Breaking]) + "\nD\n" + changes(m[compare.Dangerous]) + "\nN\n" + changes(m[compare.NonBreaking])
			if before != after {
				s += "\nthe list of changes was modified"
			}
			return s
		}
	case "report":
		m := compare.GroupChanges(compare.FindChangesInSchemas(doc, e.parsed[o.New]))
		return said(fmt.Sprint("counts ", compare.ReportBreakingChanges(m[compare.Breaking], o.Flag), " ", compare.ReportDangerousChanges(m[compare.Dangerous], o.Flag), " ", compare.ReportNonBreakingChanges(m[compare.NonBreaking], o.Flag)))
	case "lex":
		var sb strings.Builder
		for _, n := range e.names[o.Doc] {
			l := lexer.New(&ast.Source{Name: n, Input: string(e.files[o.Doc][n])})
			for {
				t, err := l.ReadToken()
				if err != nil {
					fmt.Fprintf(&sb, "error %v\n", err)
					break
				}
				fmt.Fprintf(&sb, "%v %q %d\n", t.Kind, t.Value, t.Pos.Line)
				if t.Kind == lexer.EOF {
					break
				}
			}
		}
		return said(sb.String())
	case "read":
		m, err := utils.ReadFiles(o.Path)
		if err != nil {
			return said("error: " + err.Error())
		}
		return func() string {
			var ns []string
			for n := range m {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			var sb strings.Builder
			for _, n := range ns {
				h := fnv.New64a()
				_, _ = h.Write(m[n])
				fmt.Fprintf(&sb, "%s %d %x\n", n, len(m[n]), h.Sum64())
			}
			return sb.String()
		}
	}
	return said("no such call")
}

// look digests everything the calls were given.
func (e *env) look() []string {
	var out []string
	for i := range e.parsed {
		if e.parsed[i] != nil {
			out = append(out, fmt.Sprintf("document %d: %x", i, digest(e.parsed[i], true)))
		} else {
			out = append(out, fmt.Sprintf("document %d: none", i))
		}
		out = append(out, fmt.Sprintf("files of document %d: %x", i, digest(e.files[i], true)))
	}
	return append(out, fmt.Sprintf("rule list: %x", digest(e.all[:cap(e.all)], true)), fmt.Sprintf("AllTheRules: %x", digest(linter.AllTheRules, true)))
}

func differ(before, after []string) []string {
	out := []string{}
	for i := range before {
		if before[i] != after[i] {
			out = append(out, before[i][:strings.LastIndex(before[i], ":")])
		}
	}
	return out
}

func main() {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var s scenario
	if err := json.Unmarshal(in, &s); err != nil {
		fmt.Fprintln(os.Stderr, "SIM-BAD-SCENARIO", err)
		os.Exit(98)
	}
	var o outcome
	o.Touched = []string{}
	o.Results = make([][]string, len(s.Tasks))
	keeps := make([][]func() string, len(s.Tasks))
	for i := range s.Tasks {
		o.Results[i] = make([]string, len(s.Tasks[i]))
		keeps[i] = make([]func() string, len(s.Tasks[i]))
	}
	mark := func(i, j int, end bool) {
		if s.Mode != "tasks" {
			fmt.Printf("%s%d.%d.%v\n", marker, i, j, end)
		}
	}
	switch s.Mode {
	case "alone", "history":
		var e *env
		var before []string
		if s.Mode == "history" {
			e = setup(&s, nil)
			before = e.look()
		}
		for i, t := range s.Tasks {
			for j, p := range t {
				if s.Mode == "alone" {
					e = setup(&s, &p)
					if s.Look {
						before = e.look()
					}
				}
				mark(i, j, false)
				o.Results[i][j], keeps[i][j] = e.do(p)
				mark(i, j, true)
				if s.Mode == "alone" && !s.Look {
					continue
				}
				after := e.look()
				for _, d := range differ(before, after) {
					o.Touched = append(o.Touched, fmt.Sprintf("%s by %s", d, p.Op))
				}
				if s.Mode == "history" {
					before = after
				}
			}
		}
	case "tasks":
		e := setup(&s, nil)
		before := e.look()
		run(&s, func(i int) {
			for j, p := range s.Tasks[i] {
				o.Results[i][j], keeps[i][j] = e.do(p)
			}
		})
		o.Touched = append(o.Touched, differ(before, e.look())...)
	default:
		os.Exit(98)
	}
	for i, t := range s.Tasks { // what was returned stays as it was
		for j, p := range t {
			if keeps[i][j] != nil && keeps[i][j]() != o.Results[i][j] {
				o.Touched = append(o.Touched, fmt.Sprintf("what call %d.%d (%s) had returned", i, j, p.Op))
			}
		}
	}
	o.Sig = fmt.Sprintf("%x", sig)
	o.Steps = simrt.Steps()
	b, _ := json.Marshal(o)
	fmt.Printf("%s%s\n", marker+"OUT ", b)
}
