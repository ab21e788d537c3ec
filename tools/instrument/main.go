// instrument rewrites the Go sources of a copy of wampproto-go in place:
//
//   - a scheduler yield before every statement,
//   - locks, clocks, random number sources and the entropy source replaced by
//     the simulator's seams (package zzsimrt),
//   - iteration over maps in an order the simulator chooses,
//   - goroutines, channels, wait groups and conditions in the simulator's
//     scheduler instead of the run time's.
//
// It works on types, not on text, so it does not depend on how the code is
// written. Usage: instrument DIR MODULE [tasks|yields|noyields]
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
}

// replaced maps package path and identifier to the seam's identifier.
var replaced = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Map": "Map", "Once": "Once", "Pool": "Pool",
		"OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time":                  {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep"},
	"maps":                  {"Keys": "Maps_Keys", "Values": "Maps_Values", "All": "Maps_All"},
	"golang.org/x/exp/maps": {"Keys": "XMaps_Keys", "Values": "XMaps_Values"},
	"crypto/rand":           {"Read": "CR_Read", "Reader": "CR_Reader", "Int": "CR_Int", "Text": "CR_Text"},
	"math/rand": prefixed("MR_", "Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64",
		"Float64", "Float32", "NormFloat64", "ExpFloat64", "Perm", "Shuffle", "Read", "Seed"),
	"math/rand/v2": prefixed("MR2_", "Int", "IntN", "Int32", "Int32N", "Int64", "Int64N", "Uint", "UintN",
		"Uint32", "Uint32N", "Uint64", "Uint64N", "Float64", "Float32", "NormFloat64", "ExpFloat64", "Perm",
		"Shuffle", "N"),
	"golang.org/x/exp/rand": prefixed("XR_", "Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32",
		"Uint64", "Uint64n", "Float64", "Float32", "NormFloat64", "ExpFloat64", "Perm", "Shuffle", "Read", "Seed"),
}

// used holds a declaration that keeps an import in use once its names are replaced.
var used = map[string]string{
	"sync":                  "$.Mutex",
	"time":                  "= $.Now",
	"crypto/rand":           "= $.Reader",
	"math/rand":             "= $.Int",
	"math/rand/v2":          "= $.Int",
	"golang.org/x/exp/rand": "= $.Int",
	"maps":                  "= $.Keys[map[int]int]",
	"golang.org/x/exp/maps": "= $.Keys[map[int]int]",
}

func prefixed(p string, names ...string) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		m[n] = p + n
	}
	return m
}

type edit struct {
	start, end int
	text       string
	seq        int
}

// tasks tells whether goroutines and channels go to the simulator's scheduler.
var tasks bool

type counts struct {
	Files, Yields, Seams, MapRanges, Atomics, GoStmts, ChanOps, Selects int
}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", args...)
	os.Exit(1)
}

func main() {
	if len(os.Args) < 3 {
		fail("usage: instrument DIR MODULE [tasks|yields|noyields]")
	}
	dir, module := os.Args[1], os.Args[2]
	yields := len(os.Args) < 4 || os.Args[3] != "noyields"
	tasks = len(os.Args) < 4 || os.Args[3] == "tasks"
	if tasks {
		for _, name := range []string{"WaitGroup", "Cond", "NewCond"} {
			replaced["sync"][name] = name
		}
		replaced["time"]["After"] = "TimeAfter"
	}

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Standard,Error", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	exports := map[string]string{}
	var own []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/") {
			rel := strings.TrimPrefix(p.ImportPath, module)
			if strings.HasPrefix(rel, "/zzsim") {
				continue
			}
			own = append(own, p)
		}
	}
	var c counts
	for _, p := range own {
		instrumentPackage(p, module, exports, yields, &c)
	}
	b, _ := json.Marshal(c)
	fmt.Println(string(b))
}

func instrumentPackage(p listPkg, module string, exports map[string]string, yields bool, c *counts) {
	if len(p.GoFiles) == 0 {
		return
	}
	fset := token.NewFileSet()
	var files []*ast.File
	src := map[*ast.File][]byte{}
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		data, err := os.ReadFile(path)
		if err != nil {
			fail("%v", err)
		}
		f, err := parser.ParseFile(fset, path, data, parser.ParseComments)
		if err != nil {
			fail("%v", err)
		}
		files = append(files, f)
		src[f] = data
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			file, ok := exports[path]
			if !ok || file == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(file)
		}),
		Error: func(error) {},
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fail("type check %s: %v", p.ImportPath, err)
	}
	for _, f := range files {
		path := fset.Position(f.Pos()).Filename
		out, changed := rewrite(fset, f, src[f], info, module, yields, c)
		if changed {
			if err := os.WriteFile(path, out, 0o644); err != nil {
				fail("%v", err)
			}
		}
		c.Files++
	}
}

// isAtomic tells whether the call is one of an operation of sync/atomic with one result.
func isAtomic(info *types.Info, x *ast.CallExpr) bool {
	fun := ast.Unparen(x.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	sel, ok := fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	fn, ok := info.Uses[sel.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync/atomic" {
		return false
	}
	sig, ok := fn.Type().(*types.Signature)
	return ok && sig.Results().Len() == 1
}

// isFunc tells whether the expression names a function or method of a package,
// which is the same whenever it is evaluated.
func isFunc(info *types.Info, x ast.Expr) bool {
	x = ast.Unparen(x)
	switch e := x.(type) {
	case *ast.IndexExpr:
		x = ast.Unparen(e.X)
	case *ast.IndexListExpr:
		x = ast.Unparen(e.X)
	}
	var id *ast.Ident
	switch e := x.(type) {
	case *ast.Ident:
		id = e
	case *ast.SelectorExpr:
		if pkg, ok := e.X.(*ast.Ident); ok {
			if _, ok := info.Uses[pkg].(*types.PkgName); ok {
				id = e.Sel
			}
		}
	}
	if id == nil {
		return false
	}
	_, ok := info.Uses[id].(*types.Func)
	return ok
}

func rewrite(fset *token.FileSet, f *ast.File, data []byte, info *types.Info, module string, yields bool,
	c *counts) ([]byte, bool) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(start, end int, text string) {
		edits = append(edits, edit{start, end, text, len(edits)})
	}
	keep := map[string]string{} // local import name -> an exported name to keep the import used
	const rt = "zzsimrt"

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			if yields {
				add(off(s.Pos()), off(s.Pos()), rt+".Y(); ")
				c.Yields++
			}
		}
	}

	handled := map[ast.Node]bool{} // channel operations of select statements, and receives with two results
	isChan := func(x ast.Expr) bool {
		tv, ok := info.Types[x]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	builtin := func(call *ast.CallExpr) string {
		if id, ok := ast.Unparen(call.Fun).(*ast.Ident); ok {
			if b, ok := info.Uses[id].(*types.Builtin); ok {
				return b.Name()
			}
		}
		return ""
	}
	hold := func(lo, hi token.Pos) string { return fmt.Sprintf("\x00%d:%d\x00", off(lo), off(hi)) }
	recv2 := func(lhs int, rhs []ast.Expr) {
		if !tasks || lhs != 2 || len(rhs) != 1 {
			return
		}
		if u, ok := ast.Unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !handled[u] {
			handled[u] = true
			add(off(u.Pos()), off(u.X.Pos()), rt+".Recv2(")
			add(off(u.End()), off(u.End()), ")")
			c.ChanOps++
		}
	}
	goStmt := func(x *ast.GoStmt) {
		call := x.Call
		var names []string
		var values []string
		fun := hold(call.Fun.Pos(), call.Fun.End())
		if tv := info.Types[call.Fun]; !tv.IsBuiltin() && !tv.IsType() {
			if !isFunc(info, call.Fun) {
				names, values = append(names, "zzf"), append(values, fun)
				fun = "zzf"
			}
		}
		var args []string
		for i, a := range call.Args {
			text := hold(a.Pos(), a.End())
			tv := info.Types[a]
			_, tuple := tv.Type.(*types.Tuple)
			if tv.Value == nil && !tv.IsNil() && !tv.IsType() && !tuple {
				name := fmt.Sprintf("zza%d", i)
				names, values = append(names, name), append(values, text)
				text = name
			}
			args = append(args, text)
		}
		last := ""
		if call.Ellipsis.IsValid() {
			last = "..."
		}
		var b strings.Builder
		b.WriteString("{ ")
		if len(names) > 0 {
			fmt.Fprintf(&b, "%s := %s; ", strings.Join(names, ", "), strings.Join(values, ", "))
		}
		fmt.Fprintf(&b, "%s.Go(func() { %s(%s%s) }) }", rt, fun, strings.Join(args, ", "), last)
		add(off(x.Pos()), off(x.End()), b.String())
	}
	selectStmt := func(x *ast.SelectStmt) {
		var names, cases []string
		deflt := false
		i := 0
		for _, s := range x.Body.List {
			cc := s.(*ast.CommClause)
			if cc.Comm == nil {
				deflt = true
				continue
			}
			name := fmt.Sprintf("zzc%d", i)
			head := fmt.Sprintf("case %d:", i)
			i++
			names = append(names, name)
			receive := func(e ast.Expr) {
				u := ast.Unparen(e).(*ast.UnaryExpr)
				handled[u] = true
				cases = append(cases, rt+".RecvCase("+hold(u.X.Pos(), u.X.End())+")")
			}
			switch comm := cc.Comm.(type) {
			case *ast.SendStmt:
				handled[comm] = true
				cases = append(cases, rt+".SendCase("+hold(comm.Chan.Pos(), comm.Chan.End())+")("+
					hold(comm.Value.Pos(), comm.Value.End())+")")
			case *ast.ExprStmt:
				receive(comm.X)
			case *ast.AssignStmt:
				receive(comm.Rhs[0])
				head += " " + hold(comm.Lhs[0].Pos(), comm.Lhs[len(comm.Lhs)-1].End()) + " " + comm.Tok.String() + " " + name + ".V"
				if len(comm.Lhs) == 2 {
					head += ", " + name + ".OK"
				}
				head += ";"
			}
			add(off(cc.Pos()), off(cc.Colon)+1, head)
		}
		text := "switch "
		if len(names) > 0 {
			text += strings.Join(names, ", ") + " := " + strings.Join(cases, ", ") + "; "
		}
		text += fmt.Sprintf("%s.Select(%v", rt, deflt)
		for _, n := range names {
			text += ", " + n
		}
		add(off(x.Pos()), off(x.Body.Lbrace)+1, text+") {")
		if !deflt {
			add(off(x.Body.Rbrace), off(x.Body.Rbrace), "default: panic(\"no case\")\n")
		}
	}

	direct := map[*ast.CallExpr]bool{} // calls of go and defer statements, and statements of their own
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.DeferStmt:
			direct[x.Call] = true
		case *ast.ExprStmt:
			if call, ok := x.X.(*ast.CallExpr); ok {
				direct[call] = true
			}
		case *ast.CallExpr:
			// what an atomic operation returns may be out of date by the time it is used.
			if yields && !direct[x] && isAtomic(info, x) {
				add(off(x.Pos()), off(x.Pos()), rt+".After(")
				add(off(x.End()), off(x.End()), ")")
				c.Atomics++
			}
			if !tasks || len(x.Args) == 0 {
				break
			}
			switch name := builtin(x); name {
			case "close":
				add(off(x.Fun.Pos()), off(x.Fun.End()), rt+".Close")
				c.ChanOps++
			case "len", "cap":
				if isChan(x.Args[0]) {
					add(off(x.Fun.Pos()), off(x.Fun.End()), rt+".Chan"+strings.ToUpper(name[:1])+name[1:])
					c.ChanOps++
				}
			case "make":
				if !isChan(x.Args[0]) {
					break
				}
				add(off(x.Pos()), off(x.Pos()), rt+".Made(")
				if len(x.Args) == 1 {
					add(off(x.Args[0].End()), off(x.Args[0].End()), ", "+rt+".Cap(0)")
				} else {
					add(off(x.Args[1].Pos()), off(x.Args[1].Pos()), rt+".Cap(")
					add(off(x.Args[1].End()), off(x.Args[1].End()), ")")
				}
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.GoStmt:
			direct[x.Call] = true
			c.GoStmts++
			if tasks {
				goStmt(x)
			}
		case *ast.SelectStmt:
			c.Selects++
			if tasks {
				selectStmt(x)
			}
		case *ast.AssignStmt:
			recv2(len(x.Lhs), x.Rhs)
		case *ast.ValueSpec:
			recv2(len(x.Names), x.Values)
		case *ast.SendStmt:
			if tasks && !handled[x] {
				add(off(x.Chan.Pos()), off(x.Chan.Pos()), rt+".SendTo(")
				add(off(x.Chan.End()), off(x.Value.Pos()), ")(")
				add(off(x.Value.End()), off(x.Value.End()), ")")
				c.ChanOps++
			}
		case *ast.UnaryExpr:
			if tasks && x.Op == token.ARROW && !handled[x] {
				add(off(x.Pos()), off(x.X.Pos()), rt+".Recv(")
				add(off(x.End()), off(x.End()), ")")
				c.ChanOps++
			}
		case *ast.RangeStmt:
			tv, ok := info.Types[x.X]
			if !ok || tv.Type == nil {
				break
			}
			if tasks && isChan(x.X) {
				add(off(x.X.Pos()), off(x.X.Pos()), rt+".Range(")
				add(off(x.X.End()), off(x.X.End()), ")")
				c.ChanOps++
				break
			}
			if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
				break
			}
			fn := "MapIter"
			if x.Value == nil {
				fn = "MapKeysIter"
			}
			if x.Key == nil {
				// `for range m`: the order does not matter.
				break
			}
			add(off(x.X.Pos()), off(x.X.Pos()), rt+"."+fn+"(")
			add(off(x.X.End()), off(x.X.End()), ")")
			c.MapRanges++
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			names := replaced[pn.Imported().Path()]
			repl, ok := names[x.Sel.Name]
			if !ok {
				break
			}
			add(off(x.Pos()), off(x.End()), rt+"."+repl)
			keep[id.Name] = used[pn.Imported().Path()]
			c.Seams++
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false
	}
	// the import, on the package clause's line so that line numbers stay.
	nameEnd := off(f.Name.End())
	add(nameEnd, nameEnd, "; import "+rt+" \""+module+"/zzsimrt\"")

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].start != edits[j].start {
			return edits[i].start < edits[j].start
		}
		// a closing insertion goes before an opening one at the same place.
		return edits[i].seq < edits[j].seq
	})
	// an edit's text may hold places for parts of the source, with their own edits.
	var render func(lo, hi, within int) string
	render = func(lo, hi, within int) string {
		var out strings.Builder
		pos := lo
		for i, e := range edits {
			if e.start < lo || e.end > hi || i == within {
				continue
			}
			if e.end < pos || e.start < pos {
				if e.end <= pos {
					continue // inside of what another edit replaced
				}
				fail("overlapping edits in %s", fset.Position(f.Pos()).Filename)
			}
			out.Write(data[pos:e.start])
			for k, part := range strings.Split(e.text, "\x00") {
				if k%2 == 0 {
					out.WriteString(part)
					continue
				}
				var from, to int
				fmt.Sscanf(part, "%d:%d", &from, &to)
				out.WriteString(render(from, to, i))
			}
			pos = e.end
		}
		out.Write(data[pos:hi])
		return out.String()
	}
	var out bytes.Buffer
	out.WriteString(render(0, len(data), -1))
	var names []string
	for name := range keep {
		names = append(names, name)
	}
	sort.Strings(names)
	out.WriteString("\n")
	for _, name := range names {
		sel := keep[name]
		fmt.Fprintf(&out, "var _ %s\n", strings.ReplaceAll(sel, "$", name))
	}
	fmt.Fprintf(&out, "var _ = %s.Y\n", rt)
	return out.Bytes(), true
}
