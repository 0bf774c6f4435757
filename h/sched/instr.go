package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	_ "embed"
)

//go:embed rt/zzv.go.txt
var rtV string

//go:embed rt/zzvsync.go.txt
var rtSync string

//go:embed rt/getg_amd64.s.txt
var rtAsm string

//go:embed rt/zzclient.go.txt
var rtClient string

// edit replaces [from, to) of the source text.
type edit struct {
	from, to int
	text     string
	seq      int
}

type instr struct {
	fset  *token.FileSet
	src   []byte
	edits []edit
	sites *int
	names map[int]string
	pkgs  map[string]bool
	gvars map[string]bool
	used  bool
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) put(from, to int, text string) {
	in.edits = append(in.edits, edit{from, to, text, len(in.edits)})
}

// shared tells if a statement itself (without nested blocks) mentions anything
// that may be visible to other goroutines.
func (in *instr) shared(s ast.Stmt) bool {
	found := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && in.pkgs[id.Name] {
				return false
			}
			found = true
		case *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.GoStmt, *ast.SendStmt, *ast.RangeStmt:
			found = true
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "append" || id.Name == "copy" || id.Name == "delete") {
				found = true
			}
		case *ast.Ident:
			if in.gvars[x.Name] {
				found = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	}
	if b, ok := s.(*ast.BlockStmt); ok && b != nil {
		return false
	}
	ast.Inspect(s, visit)
	return found
}

func (in *instr) site(s ast.Stmt, what string) int {
	*in.sites++
	n := 100 + *in.sites
	if !in.shared(s) {
		n += 1000000
	}
	in.names[n] = in.fset.Position(s.Pos()).String() + what
	return n
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	}
	return false
}

func (in *instr) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.used = true
		in.put(in.off(s.Pos()), in.off(s.Pos()), fmt.Sprintf("zzv.Y(%d); ", in.site(s, "")))
		switch x := s.(type) {
		case *ast.IncDecStmt:
			if _, id := x.X.(*ast.Ident); pure(x.X) && (!id || in.gvars[in.text(x.X)]) {
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				l := in.text(x.X)
				in.put(in.off(x.Pos()), in.off(x.End()), fmt.Sprintf("{ zzt := %s; zzv.Y(%d); %s = zzt %s 1 }", l, in.site(s, " write"), l, op))
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 && pure(x.Lhs[0]) && x.Tok == token.ASSIGN {
				_, id := x.Lhs[0].(*ast.Ident)
				_, call := x.Rhs[0].(*ast.CallExpr)
				if call && (!id || in.gvars[in.text(x.Lhs[0])]) {
					in.put(in.off(x.Pos()), in.off(x.Rhs[0].Pos()), "{ zzt := ")
					in.put(in.off(x.End()), in.off(x.End()), fmt.Sprintf("; zzv.Y(%d); %s = zzt }", in.site(s, " write"), in.text(x.Lhs[0])))
				}
			}
		}
	}
}

func (in *instr) file(f *ast.File) {
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
			if x.Comm != nil {
				ast.Inspect(x.Comm, func(m ast.Node) bool {
					if m != nil {
						skip[m] = true
					}
					return true
				})
			}
		case *ast.SelectStmt:
			def := false
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					def = true
				}
			}
			if !def && len(x.Body.List) > 0 {
				in.put(in.off(x.Pos()), in.off(x.Pos()), "zzv.Ext(); ")
				for _, c := range x.Body.List {
					p := in.off(c.(*ast.CommClause).Colon) + 1
					in.put(p, p, " zzv.Back(); ")
				}
			}
		case *ast.GoStmt:
			in.put(in.off(x.Call.Fun.Pos()), in.off(x.Call.Fun.Pos()), "zzv.Wrap(")
			in.put(in.off(x.Call.Fun.End()), in.off(x.Call.Fun.End()), ")")
		case *ast.SendStmt:
			if !skip[x] {
				in.put(in.off(x.Pos()), in.off(x.Pos()), "zzv.Send(")
				in.put(in.off(x.Chan.End()), in.off(x.Value.Pos()), ", ")
				in.put(in.off(x.End()), in.off(x.End()), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && !skip[x] {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					skip[u] = true
					in.put(in.off(u.Pos()), in.off(u.X.Pos()), "zzv.Recv2(")
					in.put(in.off(u.End()), in.off(u.End()), ")")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skip[x] {
				in.put(in.off(x.Pos()), in.off(x.X.Pos()), "zzv.Recv(")
				in.put(in.off(x.End()), in.off(x.End()), ")")
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "os" && s.Sel.Name == "Exit" && id.Obj == nil {
					in.put(in.off(s.Pos()), in.off(s.End()), "zzv.Exit")
				}
			}
		}
		return true
	})
}

func (in *instr) apply() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	p := 0
	for _, e := range in.edits {
		if e.from < p {
			continue // inside of replaced text
		}
		out.Write(in.src[p:e.from])
		out.WriteString(e.text)
		p = e.to
	}
	out.Write(in.src[p:])
	return out.Bytes()
}

type builder struct {
	module string
	sites  int
	names  map[int]string
}

func (b *builder) imports(path string) (string, string) {
	switch path {
	case "sync":
		return "sync", b.module + "/zzvsync"
	case "net/rpc":
		return "rpc", b.module + "/zzrpc"
	case "net/rpc/jsonrpc":
		return "jsonrpc", b.module + "/zzrpc/jsonrpc"
	}
	return "", ""
}

// dir instruments the non-test files of a package.
func (b *builder) dir(from, to, constraint string) error {
	ents, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	type parsed struct {
		name string
		src  []byte
		f    *ast.File
	}
	fset := token.NewFileSet()
	var files []parsed
	gvars := map[string]bool{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(from, n))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, n, src, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						gvars[id.Name] = true
					}
				}
			}
		}
		files = append(files, parsed{n, src, f})
	}
	if len(files) == 0 {
		return nil
	}
	if err := os.MkdirAll(to, 0755); err != nil {
		return err
	}
	for _, p := range files {
		in := &instr{fset: fset, src: p.src, sites: &b.sites, names: b.names, pkgs: map[string]bool{}, gvars: gvars}
		for _, im := range p.f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			name := filepath.Base(path)
			if im.Name != nil {
				name = im.Name.Name
			}
			in.pkgs[name] = true
			if def, repl := b.imports(path); repl != "" {
				text := strconv.Quote(repl)
				if im.Name == nil {
					text = def + " " + text
				}
				in.put(in.off(im.Path.Pos()), in.off(im.Path.End()), text)
			}
		}
		if p.f.Name.Name == "main" {
			for _, d := range p.f.Decls {
				if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv == nil && fn.Name.Name == "main" {
					at := in.off(fn.Body.Lbrace) + 1
					in.put(at, at, " zzv.Start(); defer zzv.Finish(); ")
					in.used = true
				}
			}
		}
		in.file(p.f)
		if in.used && !in.pkgs["zzv"] {
			at := in.off(p.f.Name.End())
			in.put(at, at, "; import zzv \""+b.module+"/zzv\"")
		}
		text := in.apply()
		if constraint != "" {
			text = append([]byte("//go:build "+constraint+"\n\n"), regexp.MustCompile(`(?m)^//go:build .*$`).ReplaceAll(text, nil)...)
		}
		if err := os.WriteFile(filepath.Join(to, p.name), text, 0644); err != nil {
			return err
		}
	}
	return nil
}

// build makes instrumented programs from the current tree.
func build(repo, work, binDir string) (*builder, error) {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		return nil, fmt.Errorf("no module name in go.mod")
	}
	b := &builder{module: string(m[1]), names: map[int]string{}}
	v := regexp.MustCompile(`(?m)^go\s+1\.(\d+)\S*`)
	if g := v.FindSubmatch(mod); g != nil {
		if n, _ := strconv.Atoi(string(g[1])); n < 21 {
			mod = v.ReplaceAll(mod, []byte("go 1.21"))
		}
	} else {
		mod = append(mod, "\ngo 1.21\n"...)
	}
	if err := os.MkdirAll(work, 0755); err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(work, "go.mod"), mod, 0644)
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(work, "go.sum"), sum, 0644)
	}
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	std := filepath.Join(strings.TrimSpace(string(goroot)), "src/net/rpc")
	if err := b.dir(std, filepath.Join(work, "zzrpc"), "go1.26"); err != nil {
		return nil, err
	}
	if err := b.dir(filepath.Join(std, "jsonrpc"), filepath.Join(work, "zzrpc/jsonrpc"), "go1.26"); err != nil {
		return nil, err
	}
	err = filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if info.IsDir() {
			if rel != "." && (strings.HasPrefix(info.Name(), ".") || info.Name() == "examples" || info.Name() == "testdata") {
				return filepath.SkipDir
			}
			return b.dir(p, filepath.Join(work, rel), "")
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for name, text := range map[string]string{"zzv/zzv.go": rtV, "zzv/getg_amd64.s": rtAsm, "zzvsync/zzvsync.go": rtSync, "zzsrc/zzclient.go": rtClient} {
		p := filepath.Join(work, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(strings.ReplaceAll(text, "MODULE", b.module)), 0644); err != nil {
			return nil, err
		}
	}
	if err := b.dir(filepath.Join(work, "zzsrc"), filepath.Join(work, "cmd/zzclient"), ""); err != nil {
		return nil, err
	}
	os.RemoveAll(filepath.Join(work, "zzsrc"))
	for _, t := range []string{"./cmd/burl_backend", "./cmd/zzclient"} {
		cmd := exec.Command("go", "build", "-o", binDir+"/inst_"+filepath.Base(t), t)
		cmd.Dir = work
		if out, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("build of instrumented %s: %v\n%s", t, err, out)
		}
	}
	return b, nil
}
