// Command instrument prepares the simulated build of /repo without touching it:
// it writes instrumented copies of the repository's Go files (a call to simrt.Y
// before every statement), patched copies of two runtime files (seed-driven order
// of small-map iteration and of goroutine wake-up), and the overlay file that
// makes `go build` use them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Literals of the code under test: sizes, names and environment variables that
// the scenario generator tries now and then.
type dict struct {
	Ints   []int    `json:"ints"`
	Idents []string `json:"idents"`
	Strs   []string `json:"strs"`
	Envs   []string `json:"envs"`
	Paths  []string `json:"paths"`
}

var (
	ints   = map[int]bool{}
	idents = map[string]bool{}
	strs   = map[string]bool{}
	envs   = map[string]bool{}
	paths  = map[string]bool{}
)

func keys[K int | string](m map[K]bool) []K {
	r := []K{}
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func isIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != "" && len(s) <= 40 && !strings.HasPrefix(s, "__")
}

// fold computes expressions of integer literals, such as 64 << 10.
func fold(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		if f, err := strconv.ParseFloat(e.Value, 64); err == nil && e.Kind == token.FLOAT && f == float64(int64(f)) && f < 1<<40 {
			return int64(f), true
		}
		k, err := strconv.ParseInt(strings.ReplaceAll(e.Value, "_", ""), 0, 64)
		return k, err == nil && e.Kind == token.INT
	case *ast.Ident:
		k, ok := consts[e.Name]
		return k, ok
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.BinaryExpr:
		a, ok1 := fold(e.X)
		b, ok2 := fold(e.Y)
		if ok1 && ok2 && a >= 0 && a < 1<<24 && b >= 0 && b < 1<<24 {
			switch e.Op {
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			case token.MUL:
				return a * b, true
			case token.SHL:
				if b < 24 {
					return a << b, true
				}
			}
		}
	}
	return 0, false
}

// consts holds the values of named constants, whichever package they are in.
var consts = map[string]int64{}

func collect(n ast.Node) {
	switch n := n.(type) {
	case *ast.ValueSpec:
		for i, v := range n.Values {
			if k, ok := fold(v); ok && i < len(n.Names) {
				consts[n.Names[i].Name] = k
			}
		}
	case *ast.BinaryExpr:
		if k, ok := fold(n); ok && k > 1 && k <= 1<<26 {
			ints[int(k)] = true
		}
	case *ast.BasicLit:
		switch n.Kind {
		case token.FLOAT:
			if k, ok := fold(n); ok && k > 1 && k <= 1<<26 {
				ints[int(k)] = true
			}
		case token.INT:
			if k, err := strconv.ParseInt(strings.ReplaceAll(n.Value, "_", ""), 0, 64); err == nil && k > 1 && k <= 1<<26 {
				ints[int(k)] = true
			}
		case token.STRING:
			if s, err := strconv.Unquote(n.Value); err == nil && s != "" && len(s) <= 40 {
				if isIdent(s) {
					idents[s] = true
				} else if !strings.ContainsAny(s, "\r\n\"\\\x00%/") && strings.TrimSpace(s) == s {
					strs[s] = true
				} else if strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-~/") == "" && strings.Trim(s, "./~") != "" {
					paths[s] = true
				}
			}
		}
	case *ast.CallExpr:
		if f, ok := n.Fun.(*ast.SelectorExpr); ok && (f.Sel.Name == "Getenv" || f.Sel.Name == "LookupEnv") && len(n.Args) == 1 {
			if l, ok := n.Args[0].(*ast.BasicLit); ok && l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil && s != "" && !strings.ContainsAny(s, "=\x00") {
					envs[s] = true
				}
			}
		}
	}
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...); os.Exit(3) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	goroot := flag.String("goroot", "", "")
	harness := flag.String("harness", "", "")
	native := flag.Bool("native", false, "leave the runtime as it is")
	flag.BoolVar(&split, "split", false, "take apart updates of variables if there are goroutines")
	flag.Parse()
	repl := map[string]string{}
	mod := ""
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	if mod == "" {
		die("no module line")
	}
	// harness packages appear under <repo>/verifsim
	_ = filepath.Walk(*harness, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*harness, p)
			repl[filepath.Join(*repo, "verifsim", rel)] = p
		}
		return nil
	})
	visit := func(f func(p string)) {
		err = filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				if strings.HasPrefix(fi.Name(), ".") && p != *repo || fi.Name() == "vendor" || fi.Name() == "testdata" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			f(p)
			return nil
		})
		if err != nil {
			die("%v", err)
		}
	}
	{
		n := 0
		if split {
			split = false
			visit(func(p string) {
				b, _ := os.ReadFile(p)
				f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.SkipObjectResolution)
				if err != nil {
					return
				}
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.GoStmt:
						split = true
					case *ast.CallExpr:
						if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Go" || s.Sel.Name == "AfterFunc") {
							split = true
						}
					}
					return true
				})
			})
		}
		visit(func(p string) {
			rel, _ := filepath.Rel(*repo, p)
			dst := filepath.Join(*out, "src", rel)
			if instrumentFile(p, dst, mod+"/verifsim/simrt") {
				repl[p] = dst
				n++
			}
		})
		if n == 0 {
			die("nothing instrumented")
		}
		if *native {
			// One stream of random numbers for the whole process, the same in every run:
			// hash seeds, where an iteration starts, what a pool drops.
			patch(*goroot, *out, repl, "runtime/rand.go",
				"func rand() uint64 {\n", `func rand() uint64 {
	if true {
		return simRand()
	}
`,
				"func cheaprand() uint32 {\n", `func cheaprand() uint32 {
	if true {
		return uint32(simRand() >> 20)
	}
`,
				"func cheaprandu64() uint64 {\n", `func cheaprandu64() uint64 {
	if true {
		return simRand()
	}
`,
				"func allZero(b []byte) bool {", `var simState uint64

//go:nosplit
func simRand() uint64 {
	x := atomic.Xadd64(&simState, -0x61c8864680b583eb)
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func allZero(b []byte) bool {`,
				"	\"internal/goarch\"\n", "	\"internal/goarch\"\n	\"internal/runtime/atomic\"\n")
			// A pool orders two tasks only when the one got what the other put.
			patch(*goroot, *out, repl, "sync/pool.go", "	return unsafe.Pointer(&poolRaceHash[h%uint32(len(poolRaceHash))])", `	if ptr != 0 {
		return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
	}
	return unsafe.Pointer(&poolRaceHash[h%uint32(len(poolRaceHash))])`,
				"		if runtime_randn(4) == 0 {", "		if simDrop() {",
				"var poolRaceHash [128]uint64", `var simPuts uint32

// simDrop decides from the number of puts so far; fifteen in sixteen are dropped.
func simDrop() bool {
	x := atomic.AddUint32(&simPuts, 1) * 0x9e3779b1
	x ^= x >> 15
	x *= 0x85ebca77
	return x>>28 != 0
}

var poolRaceHash [128]uint64`)
		} else {
			patch(*goroot, *out, repl, "runtime/proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = true")
			patch(*goroot, *out, repl, "internal/runtime/maps/table.go",
				"k := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots", "k := simPerm(it.entryIdx, it.entryOffset)",
				"func (it *Iter) Initialized() bool {", `// simPerm maps i to the i'th element of the permutation of 0..7 chosen by x.
func simPerm(i, x uint64) uintptr {
	p := uint32(0x76543210)
	x >>= 7
	for n := uint64(8); ; n-- {
		j := (x % n) * 4
		x /= n
		v := (p >> j) & 15
		if n == 8-i {
			return uintptr(v)
		}
		low := p & (1<<j - 1)
		high := (p >> 4) &^ (1<<j - 1)
		p = low | high
	}
}

func (it *Iter) Initialized() bool {`)
		}
	}
	d, _ := json.Marshal(dict{keys(ints), keys(idents), keys(strs), keys(envs), keys(paths)})
	write(filepath.Join(*out, "dict.json"), string(d))
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

func patch(goroot, out string, repl map[string]string, rel string, pairs ...string) {
	src := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for i := 0; i < len(pairs); i += 2 {
		if strings.Count(s, pairs[i]) != 1 {
			die("%s: patch target %q found %d times", rel, pairs[i], strings.Count(s, pairs[i]))
		}
		s = strings.Replace(s, pairs[i], pairs[i+1], 1)
	}
	dst := filepath.Join(out, "goroot", rel)
	write(dst, s)
	repl[src] = dst
}

func write(dst, s string) {
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

var split bool

// Variables whose evaluation has no effect: names, fields, elements, what pointers point to.
func path(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.SelectorExpr:
		return path(e.X)
	case *ast.StarExpr:
		return path(e.X)
	case *ast.ParenExpr:
		return path(e.X)
	case *ast.IndexExpr:
		if _, ok := e.Index.(*ast.BasicLit); ok {
			return path(e.X)
		}
		return path(e.X) && path(e.Index)
	}
	return false
}

func has(e ast.Node, f func(ast.Node) bool) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool { r = r || n != nil && f(n); return !r })
	return r
}

// taken splits "x++", "x += e" and "x = append(x, e...)" into a read and a write with
// a scheduling point between them, as they are for the processor.
func taken(s ast.Stmt, text func(ast.Node) string) string {
	isCall := func(n ast.Node) bool { _, ok := n.(*ast.CallExpr); return ok }
	if has(s, func(n ast.Node) bool { _, ok := n.(*ast.FuncLit); return ok }) {
		return ""
	}
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if path(s.X) {
			x := text(s.X)
			return "{ t__ := " + x + "; simrt__.Y(); " + x + " = t__ " + s.Tok.String()[:1] + " 1 }"
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !path(s.Lhs[0]) {
			return ""
		}
		x := text(s.Lhs[0])
		if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
			e := text(s.Rhs[0])
			pre := ""
			if has(s.Rhs[0], isCall) {
				pre, e = "e__ := "+e+"; ", "e__"
			}
			return "{ " + pre + "t__ := " + x + "; simrt__.Y(); " + x + " = t__ " + strings.TrimSuffix(s.Tok.String(), "=") + " (" + e + ") }"
		}
		c, ok := s.Rhs[0].(*ast.CallExpr)
		if !ok || s.Tok != token.ASSIGN || len(c.Args) < 2 {
			return ""
		}
		if f, ok := c.Fun.(*ast.Ident); !ok || f.Name != "append" || text(c.Args[0]) != x {
			return ""
		}
		pre, args := "", ""
		for i, a := range c.Args[1:] {
			e := text(a)
			if has(a, isCall) {
				v := "e" + strconv.Itoa(i) + "__"
				pre += v + " := " + e + "; "
				e = v
			}
			args += ", " + e
		}
		if c.Ellipsis.IsValid() {
			args += "..."
		}
		return "{ " + pre + "t__ := " + x + "; simrt__.Y(); " + x + " = append(t__" + args + ") }"
	}
	return ""
}

func instrumentFile(src, dst, simrt string) bool {
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, b, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	base := fset.File(f.Pos())
	names := map[string]string{} // what the file calls the packages below
	for _, i := range f.Imports {
		if v, _ := strconv.Unquote(i.Path.Value); v == "runtime" || v == "os" || v == "syscall" {
			names[v] = v
			if i.Name != nil {
				names[v] = i.Name.Name
			}
		}
	}
	free := map[string]string{} // questions about the platform, answered by simrt
	for _, v := range []string{"runtime.NumCPU", "runtime.GOMAXPROCS", "os.Getpid", "os.Getppid", "os.Hostname", "syscall.Getpid"} {
		pkg, sel, _ := strings.Cut(v, ".")
		if n := names[pkg]; n != "" && n != "_" && n != "." {
			free[n+"."+sel] = "simrt__." + sel
		}
	}
	if n := names["syscall"]; n != "" && n != "_" && n != "." { // what only some systems have
		for _, sel := range []string{"Flock", "LOCK_SH", "LOCK_EX", "LOCK_NB", "LOCK_UN", "Mmap", "Munmap", "Madvise", "PROT_READ", "MAP_PRIVATE", "MAP_SHARED", "MAP_POPULATE", "O_NONBLOCK", "O_DIRECT", "O_NOATIME", "EWOULDBLOCK", "ENODATA", "EREMOTEIO", "EUCLEAN", "Access", "Utime", "Utimbuf", "Utimes", "Getrlimit", "Setrlimit", "Rlimit", "RLIMIT_NOFILE"} {
			free[n+"."+sel] = "simrt__." + sel
		}
	}
	used := map[string]bool{}
	at := map[int]bool{}
	instead := map[int]string{}
	within := map[int]string{}
	ends := map[int]int{}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				at[base.Offset(s.Pos())] = true
			}
			if split {
				if t := taken(s, func(n ast.Node) string { return string(b[base.Offset(n.Pos()):base.Offset(n.End())]) }); t != "" {
					instead[base.Offset(s.Pos())] = t
					ends[base.Offset(s.Pos())] = base.Offset(s.End())
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if _, ok := n.(*ast.ImportSpec); ok {
			return false
		}
		collect(n)
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				if t := free[x.Name+"."+n.Sel.Name]; t != "" {
					o := base.Offset(n.Pos())
					if instead[o] == "" {
						within[o], ends[o] = t, base.Offset(n.End())
					}
					used[x.Name+"."+n.Sel.Name] = true
				}
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.ForStmt:
			at[base.Offset(n.Body.Lbrace)+1] = true
		case *ast.RangeStmt:
			at[base.Offset(n.Body.Lbrace)+1] = true
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	// a switch body is a BlockStmt whose list holds the case clauses: no call there
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			delete(at, base.Offset(n.Pos()))
		case *ast.CommClause:
			delete(at, base.Offset(n.Pos()))
		}
		return true
	})
	if len(at)+len(within) == 0 {
		return false
	}
	offs := make([]int, 0, len(at))
	for o := range at {
		offs = append(offs, o)
	}
	for o := range within {
		if !at[o] {
			offs = append(offs, o)
		}
	}
	sort.Ints(offs)
	var sb strings.Builder
	p := base.Offset(f.Name.End())
	sb.WriteString(string(b[:p]) + `; import simrt__ "` + simrt + `"`)
	last := p
	for _, o := range offs {
		if o < last {
			continue // inside a statement written anew
		}
		sb.Write(b[last:o])
		last = o
		if at[o] {
			sb.WriteString(" simrt__.Y(); ")
		}
		if t, ok := within[o]; ok && instead[o] == "" {
			sb.WriteString(t)
			last = ends[o]
			continue
		}
		if t, ok := instead[o]; ok {
			t += strings.Repeat("\n", max(0, strings.Count(string(b[o:ends[o]]), "\n")-strings.Count(t, "\n")))
			sb.WriteString(t)
			last = ends[o]
		}
	}
	sb.Write(b[last:])
	for v := range used {
		if pkg, _, _ := strings.Cut(v, "."); pkg == names["syscall"] {
			sb.WriteString("\nvar _ " + pkg + ".Errno\n")
			continue
		}
		sb.WriteString("\nvar _ = " + v + "\n")
	}
	write(dst, sb.String())
	return true
}
