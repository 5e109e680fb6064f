// Command instr writes an instrumented copy of a Go module's non-test sources
// and an overlay file for go build. The module itself is not touched.
//
// It inserts a scheduling point before every statement and replaces the
// sources of nondeterminism (sync, go, map iteration, channels, time,
// math/rand) by the simulator's.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	Module     *struct{ Path, Dir string }
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

const rtPath = "verifsim/rt"

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	noYield := flag.Bool("noyield", false, "no scheduling points")
	list := flag.Bool("literals", false, "only print the constants")
	race := flag.Bool("race", false, "for the race detector")
	flag.Parse()
	if *out == "" && !*list {
		die("-out is required")
	}

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Name,GoFiles,Export,Standard,Imports,Module", "./...")
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		if p.Standard {
			exports[p.ImportPath] = p.Export
			continue
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Dir == *repo {
			q := p
			pkgs = append(pkgs, &q)
		}
	}
	if len(pkgs) == 0 {
		die("no packages in %s", *repo)
	}

	overlay := map[string]string{}
	consts := map[string]int{}
	sites, globals := 0, 0
	for _, p := range pkgs {
		if p.Name == "main" {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		srcs := map[string][]byte{}
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, name)
			srcs[name] = src
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{
			Types:     map[ast.Expr]types.TypeAndValue{},
			Uses:      map[*ast.Ident]types.Object{},
			Defs:      map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, FakeImportC: true}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check: %v", err)
		}
		_ = tp
		for _, af := range files {
			lits(af, info, consts)
		}
		if *list {
			continue
		}
		for i, af := range files {
			in := &inst{fset: fset, info: info, file: af, src: srcs[names[i]], site: &sites, global: &globals, noYield: *noYield}
			outSrc := in.run()
			if _, err := parser.ParseFile(token.NewFileSet(), names[i], outSrc, 0); err != nil {
				os.WriteFile(filepath.Join(*out, "failed.go"), outSrc, 0o644)
				die("instrumented %s does not parse: %v", names[i], err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
			if err := os.WriteFile(dst, outSrc, 0o644); err != nil {
				die("%v", err)
			}
			overlay[names[i]] = dst
		}
	}
	if *list {
		var ls []string
		for v, n := range consts {
			ls = append(ls, fmt.Sprintf("%d %s", n, v))
		}
		sort.Strings(ls)
		fmt.Println(strings.Join(ls, "\n"))
		return
	}
	dictAt, dict := dictionary(consts, *out)
	overlay[dictAt] = dict
	if *race {
		if name, src := quietPool(); name != "" {
			dst := filepath.Join(*out, "std__sync__pool.go")
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				die("%v", err)
			}
			overlay[name] = dst
		}
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d files, %d scheduling points\n", len(names(overlay, *repo)), sites)
}

// names lists the files of the repository in the overlay.
func names(overlay map[string]string, repo string) (out []string) {
	for n := range overlay {
		if strings.HasPrefix(n, repo+"/") {
			out = append(out, n)
		}
	}
	return
}

// quietPool returns the standard library's sync.Pool without the order that it
// creates between its users under the race detector: that would hide races
// between tasks which just happen to print something, say. Its items aren't
// reused, so the order isn't needed.
func quietPool() (string, []byte) {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", nil
	}
	name := filepath.Join(strings.TrimSpace(string(b)), "src", "sync", "pool.go")
	src, err := os.ReadFile(name)
	if err != nil {
		return "", nil
	}
	s := string(src)
	put, get := "func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"
	if strings.Count(s, put) != 1 || strings.Count(s, get) != 1 || !strings.Contains(s, "race.Enabled") {
		return "", nil
	}
	s = strings.Replace(s, put, put+"\tif race.Enabled {\n\t\treturn\n\t}\n", 1)
	s = strings.Replace(s, get, get+"\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n", 1)
	return name, []byte(s)
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type inst struct {
	fset    *token.FileSet
	info    *types.Info
	file    *ast.File
	src     []byte
	edits   []edit
	site    *int
	noYield bool
	global  *int
	tmp     int
	tail    []string
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) insert(p token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(p), text, len(in.edits)})
}

func (in *inst) replace(p, e token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(e), text, len(in.edits)})
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) yield() string {
	*in.site++
	return fmt.Sprintf("vsimrt.Yield(%d);", *in.site)
}

// pkgOf returns the import path if e is the name of an imported package.
func (in *inst) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

var syncNames = map[string]string{
	"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "Pool": "Pool", "WaitGroup": "WaitGroup",
	"Cond": "Cond", "NewCond": "NewCond", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue",
}
var timeNames = map[string]string{
	"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After",
}
var keep = map[string]string{
	"sync": "Locker", "time": "Duration", "math/rand": "Source", "math/rand/v2": "Source",
}

func (in *inst) run() []byte {
	f := in.file
	used := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			path := in.pkgOf(n.X)
			alias := ""
			if path != "" {
				alias = n.X.(*ast.Ident).Name
			}
			switch path {
			case "sync":
				if r, ok := syncNames[n.Sel.Name]; ok {
					in.replace(n.Pos(), n.End(), "vsimrt."+r)
					used[path] = alias
				}
			case "time":
				if r, ok := timeNames[n.Sel.Name]; ok {
					in.replace(n.Pos(), n.End(), "vsimrt."+r)
					used[path] = alias
				}
			case "math/rand":
				if fn, ok := in.info.Uses[n.Sel].(*types.Func); ok && fn.Type().(*types.Signature).Recv() == nil && !strings.HasPrefix(n.Sel.Name, "New") {
					in.replace(n.Pos(), n.X.End(), "vsimrt.Rand()")
					used[path] = alias
				}
			case "math/rand/v2":
				m := map[string]string{"IntN": "Intn", "Int": "Int", "Int63": "Int63", "Uint32": "Uint32", "Uint64": "Uint64", "Float64": "Float64", "Perm": "Perm", "Shuffle": "Shuffle", "Int64": "Int63", "Int32": "Int31", "Int64N": "Int63n", "Int32N": "Int31n"}
				if r, ok := m[n.Sel.Name]; ok {
					in.replace(n.Pos(), n.End(), "vsimrt.Rand()."+r)
					used[path] = alias
				}
			}
		case *ast.BlockStmt:
			in.list(n.List)
			if len(n.List) == 0 && n.Lbrace.IsValid() && n.Rbrace.IsValid() {
				// A statement for empty bodies, so that no loop is without one.
				in.point(n.Lbrace + 1)
			}
		case *ast.CaseClause:
			in.list(n.Body)
		case *ast.CommClause:
			in.list(n.Body)
		case *ast.RangeStmt:
			in.rangeStmt(n)
		case *ast.GoStmt:
			in.goStmt(n)
		case *ast.SendStmt:
			if !in.inComm(n) {
				in.replace(n.Chan.Pos(), n.Chan.Pos(), "vsimrt.Send(")
				in.replace(n.Arrow, n.Arrow+2, ",")
				in.insert(n.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := in.info.Uses[id].(*types.Builtin); ok {
					in.replace(id.Pos(), id.End(), "vsimrt.Close")
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !in.inComm(n) {
				fn := "vsimrt.Recv("
				if tv, ok := in.info.Types[n]; ok {
					if _, ok := tv.Type.(*types.Tuple); ok {
						fn = "vsimrt.Recv2("
					}
				}
				in.replace(n.Pos(), n.Pos()+2, fn)
				in.insert(n.End(), ")")
			}
		case *ast.GenDecl:
			return true
		}
		return true
	})

	in.globals()

	// The import goes right behind the package clause; the line count stays.
	in.insert(f.Name.End(), fmt.Sprintf("; import vsimrt %q", rtPath))
	in.tail = append(in.tail, "var _ = vsimrt.Yield")
	for path, alias := range used {
		in.tail = append(in.tail, fmt.Sprintf("var _ %s.%s", alias, keep[path]))
	}

	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// Insertions come before replacements at the same place.
		ai, bi := a.pos == a.end, b.pos == b.end
		if ai != bi {
			return ai
		}
		return a.seq < b.seq
	})
	var buf bytes.Buffer
	at := 0
	for _, e := range in.edits {
		if e.pos < at {
			// Inside something that was replaced as a whole.
			continue
		}
		buf.Write(in.src[at:e.pos])
		buf.WriteString(e.text)
		at = e.end
	}
	buf.Write(in.src[at:])
	buf.WriteString("\n")
	sort.Strings(in.tail)
	for _, t := range in.tail {
		buf.WriteString(t + "\n")
	}
	return buf.Bytes()
}

func (in *inst) point(p token.Pos) {
	if in.noYield {
		return
	}
	in.insert(p, in.yield())
}

func (in *inst) list(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		in.point(s.Pos())
	}
}

// inComm reports whether the node is the communication of a select clause.
func (in *inst) inComm(n ast.Node) bool {
	found := false
	ast.Inspect(in.file, func(m ast.Node) bool {
		if cc, ok := m.(*ast.CommClause); ok && cc.Comm != nil {
			if cc.Comm.Pos() <= n.Pos() && n.End() <= cc.Comm.End() {
				found = true
			}
		}
		return !found
	})
	return found
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *inst) rangeStmt(n *ast.RangeStmt) {
	tv, ok := in.info.Types[n.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	in.tmp++
	it := fmt.Sprintf("vsimit%d", in.tmp)
	// for k, v := range X {   =>   for it := vsimrt.MapIter(X); it.Next(); { k, v := it.K, it.V; _ = ...
	in.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s := vsimrt.MapIter(", it))
	var asg string
	if n.Tok == token.DEFINE || n.Tok == token.ASSIGN {
		var l, r []string
		if !isBlank(n.Key) {
			l, r = append(l, in.text(n.Key)), append(r, it+".K")
		}
		if n.Value != nil && !isBlank(n.Value) {
			l, r = append(l, in.text(n.Value)), append(r, it+".V")
		}
		if len(l) > 0 {
			asg = strings.Join(l, ", ") + " " + n.Tok.String() + " " + strings.Join(r, ", ") + ";"
		}
	}
	in.insert(n.X.End(), fmt.Sprintf("); %s.Next(); ", it))
	in.edits = append(in.edits, edit{in.off(n.Body.Lbrace) + 1, in.off(n.Body.Lbrace) + 1, asg, -1000 + len(in.edits)})
}

func (in *inst) goStmt(n *ast.GoStmt) {
	call := n.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		in.replace(n.Go, fl.Pos(), "vsimrt.Go(")
		in.replace(fl.End(), call.End(), ")")
		return
	}
	// Arguments are evaluated now.
	var pre, names []string
	in.tmp++
	id := in.tmp
	for i, a := range call.Args {
		if tv := in.info.Types[a]; tv.Value != nil || tv.IsNil() {
			names = append(names, in.text(a))
			continue
		}
		nm := fmt.Sprintf("vsimga%d_%d", id, i)
		pre = append(pre, nm+" := "+in.text(a))
		names = append(names, nm)
	}
	fn := fmt.Sprintf("vsimgf%d", id)
	if tv := in.info.Types[call.Fun]; tv.IsBuiltin() {
		fn = in.text(call.Fun)
	} else {
		pre = append(pre, fn+" := "+in.text(call.Fun))
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	in.replace(n.Pos(), n.End(), fmt.Sprintf("{ %s; vsimrt.Go(func() { %s(%s%s) }) }",
		strings.Join(pre, "; "), fn, strings.Join(names, ", "), ell))
}

// globals registers, for every package-level variable, a function that sets it
// to its initial value, in the order in which the package initialises them:
// var x = EXPR  =>  var x = vsimrt.Init(N, func() T { return EXPR }).
func (in *inst) globals() {
	for _, d := range in.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, nm := range vs.Names {
					if nm.Name != "_" {
						in.tail = append(in.tail, fmt.Sprintf("func init() { vsimrt.OnReset(func() { vsimrt.Zero(&%s) }) }", nm.Name))
					}
				}
				continue
			}
			if len(vs.Values) != len(vs.Names) {
				continue
			}
			for i, nm := range vs.Names {
				obj := in.info.Defs[nm]
				if nm.Name == "_" || obj == nil {
					continue
				}
				t := types.TypeString(obj.Type(), in.qual)
				if strings.Contains(t, "?") {
					continue
				}
				for from, to := range syncNames {
					t = regexp.MustCompile(`\bsync\.`+from+`\b`).ReplaceAllString(t, "vsimrt."+to)
				}
				*in.global++
				id := *in.global
				v := vs.Values[i]
				in.insertFirst(v.Pos(), fmt.Sprintf("vsimrt.Init(%d, func() %s { return ", id, t))
				in.insertLast(v.End(), " })")
				in.tail = append(in.tail, fmt.Sprintf("func init() { vsimrt.OnReinit(%d, func(v interface{}) { %s, _ = v.(%s) }) }", id, nm.Name, t))
			}
		}
	}
}

func (in *inst) insertFirst(p token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(p), text, -2000})
}

func (in *inst) insertLast(p token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(p), text, 1 << 30})
}

func (in *inst) qual(p *types.Package) string {
	if p == nil {
		return ""
	}
	for _, is := range in.file.Imports {
		if strings.Trim(is.Path.Value, `"`) == p.Path() {
			if is.Name != nil {
				return is.Name.Name
			}
			return p.Name()
		}
	}
	if p.Name() == in.file.Name.Name {
		return ""
	}
	return "?"
}
