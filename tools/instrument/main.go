// instrument rewrites copies of a Go module's current sources so that every
// source of nondeterminism goes through the simrt seams, and writes an overlay
// file that builds the rewritten copies together with the simulator without
// touching the module itself.
//
// usage: instrument -repo DIR -out DIR -sim DIR -simrt DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Module     *struct{ Path, Dir string }
	ImportMap  map[string]string
}

type edit struct {
	off, end int // replaced range
	text     string
	seq      int
}

var (
	repo   = flag.String("repo", "/repo", "module root")
	out    = flag.String("out", "", "build directory")
	simDir = flag.String("sim", "", "simulator sources")
	rtDir  = flag.String("simrt", "", "run-time sources")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,Module,ImportMap", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list failed: %v", err)
	}
	var pkgs []*pkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	overlay := map[string]string{}
	var modPath string
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Dir == *repo {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("no module at %s", *repo)
	}
	rtPath := modPath + "/zz_verif/simrt"
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	var resetPkgs []string
	site := 0
	var siteTable []string
	stats := map[string]int{}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Module.Dir != *repo {
			continue
		}
		rel, _ := filepath.Rel(*repo, p.Dir)
		if strings.HasPrefix(rel, "zz_verif") {
			die("unexpected package %s", rel)
		}
		tool := map[string]string{"cmd/banking": "banking", "cmd/bankdata_parser": "bankparser"}[rel]
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, full, nil, parser.ParseComments)
			if err != nil {
				die("parse %s: %v", full, err)
			}
			files = append(files, af)
			names = append(names, full)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Uses:       map[*ast.Ident]types.Object{},
			Defs:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp}
		tpkg, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		if rel == "bankinfo" {
			dst := filepath.Join(*out, "src/zz_verif/sim/zz_directory.go")
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, directory(files, info), 0o644))
			overlay[filepath.Join(*repo, "zz_verif/sim/zz_directory.go")] = dst
		}
		var resets map[*ast.File]string
		if tool == "" && p.Name != "main" && !strings.HasPrefix(rel, "generator") {
			var calls string
			resets, calls = resetVars(files, info, tpkg, fset)
			if calls != "" {
				dst := filepath.Join(*out, "src", rel, "zz_reset.go")
				must(os.MkdirAll(filepath.Dir(dst), 0o755))
				must(os.WriteFile(dst, []byte("package "+tpkg.Name()+"\n\n// ZzReset puts the package's variables back to where a new process has them.\nfunc ZzReset() {\n"+calls+"}\n\nfunc zzclear[T any](p *T) { var z T; *p = z }\n"), 0o644))
				overlay[filepath.Join(*repo, rel, "zz_reset.go")] = dst
				resetPkgs = append(resetPkgs, p.ImportPath)
			}
		}
		for i, af := range files {
			src, err := os.ReadFile(names[i])
			if err != nil {
				die("%v", err)
			}
			r := &rewriter{fset: fset, info: info, src: src, file: af, stats: stats, site: &site, table: &siteTable,
				relName: filepath.Join(rel, filepath.Base(names[i])), rtPath: rtPath}
			if tool != "" {
				r.edit(af.Name.Pos(), af.Name.End(), tool)
				r.files = tool == "bankparser"
			}
			res := r.rewrite()
			if t := resets[af]; t != "" {
				if res == nil {
					res = src
				}
				res = append(append([]byte{}, res...), ("\n" + t)...)
			}
			var dst, key string
			if tool != "" {
				key = filepath.Join(*repo, "zz_verif", tool, filepath.Base(names[i]))
				dst = filepath.Join(*out, "src/zz_verif", tool, filepath.Base(names[i]))
			} else {
				key = names[i]
				dst = filepath.Join(*out, "src", rel, filepath.Base(names[i]))
				if res == nil {
					continue
				}
			}
			if res == nil {
				res = src
			}
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, res, 0o644))
			overlay[key] = dst
		}
		if tool != "" {
			dst := filepath.Join(*out, "src/zz_verif", tool, "zz_entry.go")
			must(os.WriteFile(dst, []byte(entry(tool, tpkg, files)), 0o644))
			overlay[filepath.Join(*repo, "zz_verif", tool, "zz_entry.go")] = dst
		}
	}
	{
		var b, c strings.Builder
		b.WriteString("package main\n\nimport (\n")
		for i, p := range resetPkgs {
			fmt.Fprintf(&b, "\tzzp%d %q\n", i, p)
			fmt.Fprintf(&c, "\tzzp%d.ZzReset()\n", i)
		}
		dst := filepath.Join(*out, "src/zz_verif/sim/zz_resets.go")
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, []byte(b.String()+")\n\nfunc resetPackages() {\n"+c.String()+"}\n"), 0o644))
		overlay[filepath.Join(*repo, "zz_verif/sim/zz_resets.go")] = dst
	}
	add := func(dir, name string) {
		ents, err := os.ReadDir(dir)
		must(err)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			overlay[filepath.Join(*repo, "zz_verif", name, e.Name())] = filepath.Join(dir, e.Name())
		}
	}
	add(*simDir, "sim")
	add(*rtDir, "simrt")
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	tb, _ := json.Marshal(map[string]interface{}{"sites": siteTable, "stats": stats})
	must(os.WriteFile(filepath.Join(*out, "sites.json"), tb, 0o644))
}

// entry is a file that gives the simulator access to a command line tool: its
// main function, its commands, and a way to put its variables back to where
// they are in a new process.
func entry(tool string, p *types.Package, files []*ast.File) string {
	var b, imp strings.Builder
	b.WriteString("// Entry runs the tool.\nfunc Entry() { main() }\n\n// Reset puts the variables back.\nfunc Reset() {\n")
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					if len(vs.Values) == 0 {
						fmt.Fprintf(&b, "\tzzclear(&%s)\n", n.Name)
					} else if i < len(vs.Values) {
						switch v := vs.Values[i].(type) {
						case *ast.BasicLit:
							fmt.Fprintf(&b, "\t%s = %s\n", n.Name, v.Value)
						case *ast.Ident:
							if v.Name == "true" || v.Name == "false" || v.Name == "nil" {
								fmt.Fprintf(&b, "\t%s = %s\n", n.Name, v.Name)
							}
						}
					}
				}
			}
		}
	}
	b.WriteString("}\n\nfunc zzclear[T any](p *T) { var z T; *p = z }\n\n")
	if tool == "banking" {
		imp.WriteString("import \"github.com/spf13/cobra\"\n\n")
		b.WriteString("// Commands are the tool's commands.\nfunc Commands() []*cobra.Command {\n\treturn []*cobra.Command{")
		for _, n := range p.Scope().Names() {
			if v, ok := p.Scope().Lookup(n).(*types.Var); ok && v.Type().String() == "*github.com/spf13/cobra.Command" {
				b.WriteString(n + ", ")
			}
		}
		b.WriteString("}\n}\n")
	}
	return "package " + tool + "\n\n" + imp.String() + b.String()
}

// resetVars writes, for the variables of a package which start empty or with
// a literal, functions that put them back, and the calls in the order of
// initialisation. Variables which an init function fills stay as they are.
func resetVars(files []*ast.File, info *types.Info, p *types.Package, fset *token.FileSet) (map[*ast.File]string, string) {
	touched := map[types.Object]bool{}
	fileOf := map[types.Object]*ast.File{}
	empty := map[types.Object]bool{}
	bodies := map[types.Object]*ast.FuncDecl{}
	var work []*ast.FuncDecl
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					work = append(work, d)
				} else if d.Body != nil {
					bodies[info.Defs[d.Name]] = d
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok || d.Tok != token.VAR {
						continue
					}
					for _, n := range vs.Names {
						o := p.Scope().Lookup(n.Name)
						if n.Name == "_" || o == nil {
							continue
						}
						fileOf[o] = f
						empty[o] = len(vs.Values) == 0
					}
				}
			}
		}
	}
	// what runs before main
	visit := func(n ast.Node, init bool) {
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				o := info.Uses[id]
				if init {
					touched[o] = true
				}
				if d := bodies[o]; d != nil {
					delete(bodies, o)
					work = append(work, d)
				}
			}
			return true
		})
	}
	for _, in := range info.InitOrder {
		visit(in.Rhs, false)
	}
	for len(work) > 0 {
		d := work[0]
		work = work[1:]
		visit(d, true)
	}
	var calls strings.Builder
	for _, n := range p.Scope().Names() {
		if o := p.Scope().Lookup(n); empty[o] && !touched[o] {
			fmt.Fprintf(&calls, "\tzzclear(&%s)\n", n)
		}
	}
	out := map[*ast.File]string{}
	for _, in := range info.InitOrder {
		if len(in.Lhs) != 1 || fileOf[in.Lhs[0]] == nil || touched[in.Lhs[0]] {
			continue
		}
		x := in.Rhs
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
			x = u.X
		}
		switch x := x.(type) {
		case *ast.CompositeLit, *ast.BasicLit:
		case *ast.Ident:
			if x.Name != "true" && x.Name != "false" && x.Name != "nil" {
				continue
			}
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok || id.Name != "make" && id.Name != "new" || !info.Types[x.Fun].IsBuiltin() {
				continue
			}
		default:
			continue
		}
		plain := true
		ast.Inspect(x, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && !info.Types[c.Fun].IsType() && !info.Types[c.Fun].IsBuiltin() {
				plain = false
			}
			_, lit := n.(*ast.FuncLit)
			return !lit
		})
		a, b := fset.Position(in.Rhs.Pos()), fset.Position(in.Rhs.End())
		if !plain || b.Offset-a.Offset > 100000 {
			continue
		}
		src, err := os.ReadFile(a.Filename)
		must(err)
		name := in.Lhs[0].Name()
		out[fileOf[in.Lhs[0]]] += fmt.Sprintf("func zzreset_%s() { %s = %s }\n", name, name, src[a.Offset:b.Offset])
		fmt.Fprintf(&calls, "\tzzreset_%s()\n", name)
	}
	return out, calls.String()
}

// directory extracts the entries of the bank directory as a table of its own.
func directory(files []*ast.File, info *types.Info) []byte {
	var b bytes.Buffer
	b.WriteString("package main\n\nvar directoryTable = []map[string]string{\n")
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			cl, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			sl, ok := info.Types[cl].Type.Underlying().(*types.Slice)
			if !ok || !strings.HasSuffix(sl.Elem().String(), "bankinfo.BankInfo") || len(cl.Elts) < 100 {
				return true
			}
			for _, e := range cl.Elts {
				x, ok := e.(*ast.CompositeLit)
				if !ok {
					continue
				}
				b.WriteString("\t{")
				for _, kv := range x.Elts {
					k, ok := kv.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					if v := info.Types[k.Value].Value; v != nil {
						fmt.Fprintf(&b, "%q: %s, ", k.Key.(*ast.Ident).Name, v.ExactString())
					}
				}
				b.WriteString("},\n")
			}
			return false
		})
	}
	b.WriteString("}\n")
	return b.Bytes()
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	src     []byte
	file    *ast.File
	edits   []edit
	keep    map[string]string // import qualifier -> reference keeping it used
	stats   map[string]int
	site    *int
	table   *[]string
	relName string
	rtPath  string
	goSeq   int
	// parts of select cases
	comm     map[*ast.SendStmt]bool
	commExpr map[*ast.UnaryExpr]bool
	labels   map[ast.Stmt]string
	files    bool // file access goes through the seams, too
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) edit(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, len(r.edits)})
}

func (r *rewriter) insert(at token.Pos, text string) { r.edit(at, at, text) }

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

var selectors = map[string]map[string]string{
	"time":        {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep"},
	"crypto/rand": {"Reader": "RandReader", "Read": "RandRead"},
	"os":          {"Exit": "Exit"},
	"log":         {"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln"},
}

var fileSelectors = map[string]string{"Open": "Open", "Create": "Create", "OpenFile": "OpenFile", "ReadFile": "ReadFile",
	"WriteFile": "WriteFile", "Rename": "Rename", "Remove": "Remove", "CreateTemp": "CreateTemp", "File": "File"}

var keepRef = map[string]string{"time": "UTC", "crypto/rand": "Reader", "os": "Args", "log": "LstdFlags", "io/ioutil": "Discard"}

func (r *rewriter) rewrite() []byte {
	r.keep = map[string]string{}
	r.comm, r.commExpr, r.labels = map[*ast.SendStmt]bool{}, map[*ast.UnaryExpr]bool{}, map[ast.Stmt]string{}
	skipYield := len(r.src) > 400000
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					path := pn.Imported().Path()
					repl, ok := selectors[path][n.Sel.Name]
					if !ok && r.files && (path == "os" || path == "io/ioutil") {
						repl, ok = fileSelectors[n.Sel.Name]
					}
					if ok {
						r.edit(n.Pos(), n.End(), "zzsimrt."+repl)
						r.keep[id.Name] = keepRef[path]
						r.stats[path+"."+n.Sel.Name]++
					}
				}
			}
		case *ast.RangeStmt:
			r.rangeStmt(n)
		case *ast.FuncDecl:
			// writers are called by the standard library with its locks held:
			// no task switch inside
			if n.Recv != nil && n.Name.Name == "Write" && n.Body != nil {
				r.insert(n.Body.Lbrace+1, " defer zzsimrt.Hold()(); ")
				r.stats["hold"]++
			}
		case *ast.BlockStmt:
			if !skipYield {
				r.stmts(n.List)
			}
		case *ast.CaseClause:
			if !skipYield {
				r.stmts(n.Body)
			}
		case *ast.CommClause:
			if !skipYield {
				r.stmts(n.Body)
			}
		case *ast.ExprStmt:
			r.lockStmt(n)
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.CallExpr:
			r.makeCall(n)
			r.waitCall(n)
		case *ast.LabeledStmt:
			r.labels[n.Stmt] = n.Label.Name
		case *ast.SelectStmt:
			r.selectStmt(n)
		case *ast.SendStmt:
			r.sendStmt(n)
		case *ast.UnaryExpr:
			r.recv(n)
		}
		return true
	})
	if len(r.edits) == 0 {
		return nil
	}
	// import and references
	r.insert(r.file.Name.End(), "; import zzsimrt \""+r.rtPath+"\"")
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		// replacements of the empty range come first, in order
		zi, zj := r.edits[i].off == r.edits[i].end, r.edits[j].off == r.edits[j].end
		if zi != zj {
			return zi
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var buf bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			die("overlapping edits in %s at offset %d", r.relName, e.off)
		}
		buf.Write(r.src[pos:e.off])
		buf.WriteString(e.text)
		pos = e.end
	}
	buf.Write(r.src[pos:])
	buf.WriteString("\nvar _ = zzsimrt.Steps\n")
	var ks []string
	for k := range r.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&buf, "var _ = %s.%s\n", k, r.keep[k])
	}
	return buf.Bytes()
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue // the body of a switch or select
		}
		id := *r.site
		*r.site++
		*r.table = append(*r.table, fmt.Sprintf("%s:%d", r.relName, r.fset.Position(s.Pos()).Line))
		r.insert(s.Pos(), fmt.Sprintf("zzsimrt.Y(%d); ", id))
		r.stats["yield"]++
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	tv, ok := r.info.Types[n.X]
	if !ok {
		return
	}
	switch tv.Type.Underlying().(type) {
	case *types.Map:
	case *types.Chan:
		r.stats["chanrange"]++
		r.edit(n.For, n.X.Pos(), "for zzrg := zzsimrt.Range(")
		r.edit(n.X.End(), n.Body.Lbrace, "); zzrg.Next(); ")
		if !isBlank(n.Key) {
			r.insert(n.Body.Lbrace+1, " "+r.text(n.Key)+" "+n.Tok.String()+" zzrg.V; ")
		}
		return
	default:
		return
	}
	r.stats["maprange"]++
	kb, vb := isBlank(n.Key), isBlank(n.Value)
	var head, tail string
	if n.Tok == token.DEFINE {
		switch {
		case !kb && !vb:
			k, v := r.text(n.Key), r.text(n.Value)
			head = fmt.Sprintf("for %s, %s, zzit := zzsimrt.MapStart(", k, v)
			tail = fmt.Sprintf("); zzit.Next(&%s, &%s); ", k, v)
		case !kb:
			k := r.text(n.Key)
			head = fmt.Sprintf("for %s, zzit := zzsimrt.MapStartK(", k)
			tail = fmt.Sprintf("); zzit.NextK(&%s); ", k)
		case !vb:
			v := r.text(n.Value)
			head = fmt.Sprintf("for %s, zzit := zzsimrt.MapStartV(", v)
			tail = fmt.Sprintf("); zzit.NextV(&%s); ", v)
		default:
			head, tail = "for zzit := zzsimrt.MapStart0(", "); zzit.Next0(); "
		}
	} else {
		head = "for zzit := zzsimrt.MapStart0("
		switch {
		case !kb && !vb:
			tail = fmt.Sprintf("); zzit.Next(&%s, &%s); ", r.text(n.Key), r.text(n.Value))
		case !kb:
			tail = fmt.Sprintf("); zzit.NextK(&%s); ", r.text(n.Key))
		case !vb:
			tail = fmt.Sprintf("); zzit.NextV(&%s); ", r.text(n.Value))
		default:
			tail = "); zzit.Next0(); "
		}
	}
	r.edit(n.For, n.X.Pos(), head)
	r.edit(n.X.End(), n.Body.Lbrace, tail)
}

func (r *rewriter) methodOf(call *ast.CallExpr) (*ast.SelectorExpr, string) {
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil, ""
	}
	s, ok := r.info.Selections[sel]
	if !ok {
		return nil, ""
	}
	f, ok := s.Obj().(*types.Func)
	if !ok {
		return nil, ""
	}
	return sel, f.FullName()
}

func (r *rewriter) lockStmt(n *ast.ExprStmt) {
	call, ok := n.X.(*ast.CallExpr)
	if !ok {
		return
	}
	sel, name := r.methodOf(call)
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		x := r.text(sel.X)
		r.insert(n.Pos(), "zzsimrt.Lock("+x+".TryLock, ")
		r.edit(call.Lparen, n.End(), ")")
		r.stats["lock"]++
	case "(*sync.RWMutex).RLock":
		x := r.text(sel.X)
		r.insert(n.Pos(), "zzsimrt.Lock("+x+".TryRLock, ")
		r.edit(call.Lparen, n.End(), ")")
		r.stats["lock"]++
	case "(*sync.Once).Do":
		t := r.info.Types[sel.X].Type
		switch {
		case t.String() == "sync.Once":
			r.edit(n.Pos(), call.Args[0].Pos(), "zzsimrt.OnceDo(&"+r.text(sel.X)+", ")
			r.stats["once"]++
		case t.String() == "*sync.Once":
			r.edit(n.Pos(), call.Args[0].Pos(), "zzsimrt.OnceDo("+r.text(sel.X)+", ")
			r.stats["once"]++
		}
	}
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	if fl, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
		r.edit(n.Go, fl.Pos(), "zzsimrt.Go(")
		r.edit(fl.End(), n.End(), ")")
		r.stats["go"]++
		return
	}
	// function and arguments are evaluated now, the call is made in the new task
	r.stats["go"]++
	r.goSeq++
	c := n.Call
	pre := func(e ast.Expr, name string) (string, string) { // text before the expression, name afterwards
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsBuiltin() {
			return "", r.text(e)
		}
		var id *ast.Ident
		switch x := e.(type) {
		case *ast.Ident:
			id = x
		case *ast.SelectorExpr:
			if r.info.Selections[x] == nil {
				id = x.Sel
			}
		}
		if id != nil {
			if _, ok := r.info.Uses[id].(*types.Func); ok {
				return "", r.text(e)
			}
		}
		return "; " + name + " := ", name
	}
	head := "{ "
	last := n.Go
	var names []string
	for i, e := range append([]ast.Expr{c.Fun}, c.Args...) {
		t, name := pre(e, fmt.Sprintf("zza%d_%d", r.goSeq, i))
		names = append(names, name)
		if t == "" {
			r.edit(last, e.End(), head)
		} else {
			r.edit(last, e.Pos(), head+t[2:])
		}
		last, head = e.End(), "; "
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	r.edit(last, n.End(), fmt.Sprintf("; zzsimrt.Go(func() { %s(%s%s) }) }", names[0], strings.Join(names[1:], ", "), dots))
}

// chanOps: operations which may wait for other tasks.
func (r *rewriter) sendStmt(n *ast.SendStmt) {
	if r.comm[n] {
		return
	}
	ct, vt := r.info.Types[n.Chan].Type, r.info.Types[n.Value].Type
	c, ok := ct.Underlying().(*types.Chan)
	if !ok {
		return
	}
	r.stats["send"]++
	if types.Identical(c.Elem(), vt) {
		r.insert(n.Pos(), "zzsimrt.Send(")
		r.edit(n.Chan.End(), n.Value.Pos(), ", ")
		r.insert(n.End(), ")")
		return
	}
	r.insert(n.Pos(), "zzsimrt.SendTo(")
	r.edit(n.Chan.End(), n.Value.Pos(), ")(")
	r.insert(n.End(), ")")
}

func (r *rewriter) recv(n *ast.UnaryExpr) {
	if n.Op != token.ARROW || r.commExpr[n] {
		return
	}
	f := "zzsimrt.Recv("
	if _, ok := r.info.Types[n].Type.(*types.Tuple); ok {
		f = "zzsimrt.Recv2("
	}
	r.stats["recv"]++
	r.edit(n.OpPos, n.X.Pos(), f)
	r.insert(n.X.End(), ")")
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	wait := true
	var chans []ast.Expr
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			wait = false
			continue
		}
		var e ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			r.comm[s] = true
			chans = append(chans, s.Chan)
		case *ast.ExprStmt:
			e = s.X
		case *ast.AssignStmt:
			e = s.Rhs[0]
		}
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if u, ok := e.(*ast.UnaryExpr); ok {
			r.commExpr[u] = true
			chans = append(chans, u.X)
		}
	}
	if !wait {
		return
	}
	r.stats["select"]++
	if len(n.Body.List) == 0 {
		return
	}
	label := r.labels[n]
	if label == "" {
		r.goSeq++
		label = fmt.Sprintf("zzsel%d", r.goSeq)
		// the channels are those of the first time, also when waiting
		decl := ""
		for i, e := range chans {
			if _, ok := e.(*ast.CallExpr); !ok {
				continue
			}
			v := fmt.Sprintf("zzch%d_%d", r.goSeq, i)
			decl += v + " := zzsimrt.Box(); "
			r.insert(e.Pos(), "zzsimrt.First("+v+", ")
			r.insert(e.End(), ")")
		}
		r.insert(n.Select, decl+label+": ")
	}
	r.insert(n.Body.Rbrace, "default: zzsimrt.SelectWait(); goto "+label+"; ")
}

func (r *rewriter) waitCall(n *ast.CallExpr) {
	sel, name := r.methodOf(n)
	switch name {
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(sync.Locker).Lock":
		if len(n.Args) == 0 && sel != nil {
			r.insert(n.Pos(), "zzsimrt.Block(")
			r.edit(n.Lparen, n.End(), ")")
			r.stats["wait"]++
		}
	}
}

func (r *rewriter) makeCall(n *ast.CallExpr) {
	id, ok := n.Fun.(*ast.Ident)
	if !ok || id.Name != "make" || len(n.Args) < 2 {
		return
	}
	if _, ok := r.info.Uses[id].(*types.Builtin); !ok {
		return
	}
	for _, a := range n.Args[1:] {
		tv := r.info.Types[a]
		if tv.Value != nil {
			continue
		}
		if b, ok := tv.Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		r.insert(a.Pos(), "zzsimrt.N(")
		r.insert(a.End(), ")")
		r.stats["make"]++
	}
}
