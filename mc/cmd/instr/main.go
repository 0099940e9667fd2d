// instr writes an instrumented copy of the package in a directory: instr SRC OUT. Every
// statement gets a scheduling point, sync and sync/atomic are replaced, go statements start
// threads of the scheduler, and VerifReset sets all package variables back to their initial
// values. OUT/overlay.json maps the originals to the copies.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder
}

func (f *file) at(off, del int, text string) {
	f.edits = append(f.edits, edit{off, del, text, len(f.edits)})
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported")
}

func main() {
	src, out := os.Args[1], os.Args[2]
	p, err := build.ImportDir(src, 0)
	check(err)
	fset := token.NewFileSet()
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(src, n))
		check(err)
		a, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		check(err)
		files = append(files, &file{name: n, src: b, ast: a})
		asts = append(asts, a)
	}
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }

	points := 0
	inits := 0
	for k, f := range files {
		text := func(n ast.Node) string { return string(f.src[off(n.Pos()):off(n.End())]) }
		// packages
		f.at(off(f.ast.Name.End()), 0, `; import verifsched "verif/mc/sched"`)
		for _, im := range f.ast.Imports {
			repl := map[string]string{`"sync"`: "vsync", `"sync/atomic"`: "vatomic"}[im.Path.Value]
			if repl == "" {
				continue
			}
			name := ""
			if im.Name == nil {
				name = strings.Trim(im.Path.Value, `"`)
				name = name[strings.LastIndex(name, "/")+1:] + " "
			}
			f.at(off(im.Path.Pos()), len(im.Path.Value), name+`"verif/mc/sched/`+repl+`"`)
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				line := fset.Position(s.Pos()).Line
				points++
				f.at(off(s.Pos()), 0, fmt.Sprintf("verifsched.Point(%d); ", (k+1)<<16|line&0xffff))
			}
		}
		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil {
					f.at(off(x.Name.Pos()), 4, fmt.Sprintf("verifInit%d", inits))
					inits++
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.GoStmt:
				var pre, post strings.Builder
				var names []string
				for i, a := range x.Call.Args {
					id, isId := a.(*ast.Ident)
					_, lit := a.(*ast.BasicLit)
					_, fn := a.(*ast.FuncLit)
					if lit || fn || isId && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
						continue
					}
					name := fmt.Sprintf("verifArg%d", i)
					fmt.Fprintf(&pre, "%s := %s; ", name, text(a))
					names = append(names, name)
					f.at(off(a.Pos()), off(a.End())-off(a.Pos()), name)
				}
				_ = names
				post.WriteString(" }) }")
				f.at(off(x.Go), 2, "{ "+pre.String()+"verifsched.Go(func() {")
				f.at(off(x.End()), 0, post.String())
			}
			return true
		})
	}

	// initial values of package variables, in the order of initialization
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: noImports{}, Error: func(error) {}, FakeImportC: true}
	conf.Check("value", fset, asts, info)
	byName := map[string]*file{}
	for _, f := range files {
		byName[f.name] = f
	}
	var calls []string
	n := 0
	add := func(f *file, stmt string) {
		fmt.Fprintf(&f.tail, "\nfunc verifReset%d() { %s }\n", n, stmt)
		calls = append(calls, fmt.Sprintf("verifReset%d()", n))
		n++
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					continue
				}
				t := string(f.src[off(vs.Type.Pos()):off(vs.Type.End())])
				for _, id := range vs.Names {
					if id.Name != "_" {
						add(f, fmt.Sprintf("%s = *new(%s)", id.Name, t))
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		f := byName[fset.Position(in.Rhs.Pos()).Filename]
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			blank = blank && v.Name() == "_"
		}
		if blank {
			continue
		}
		add(f, strings.Join(lhs, ", ")+" = "+string(f.src[off(in.Rhs.Pos()):off(in.Rhs.End())]))
	}

	overlay := map[string]string{}
	abs, err := filepath.Abs(src)
	check(err)
	check(os.MkdirAll(out, 0755))
	for _, f := range files {
		sort.SliceStable(f.edits, func(i, j int) bool {
			a, b := f.edits[i], f.edits[j]
			if a.off != b.off {
				return a.off < b.off
			}
			if a.del != b.del { // insertions before replacements
				return a.del < b.del
			}
			return a.seq < b.seq
		})
		var b strings.Builder
		last := 0
		for _, e := range f.edits {
			if e.off < last {
				continue // inside of a replaced argument
			}
			b.Write(f.src[last:e.off])
			b.WriteString(e.text)
			last = e.off + e.del
		}
		b.Write(f.src[last:])
		b.WriteString("\nconst _ = verifsched.Race\n")
		b.WriteString(f.tail.String())
		path := filepath.Join(out, f.name)
		check(os.WriteFile(path, []byte(b.String()), 0644))
		overlay[filepath.Join(abs, f.name)] = path
	}
	var r strings.Builder
	fmt.Fprintf(&r, "package %s\n\nimport verifsched \"verif/mc/sched\"\n\n", p.Name)
	r.WriteString("// VerifReset sets all package variables to their initial values.\nfunc VerifReset() {\n")
	for _, c := range calls {
		r.WriteString("\t" + c + "\n")
	}
	for i := 0; i < inits; i++ {
		fmt.Fprintf(&r, "\tverifInit%d()\n", i)
	}
	r.WriteString("}\n\nfunc init() {\n\tverifsched.Files = []string{")
	for _, f := range files {
		fmt.Fprintf(&r, "%q, ", f.name)
	}
	r.WriteString("}\n")
	for i := 0; i < inits; i++ {
		fmt.Fprintf(&r, "\tverifInit%d()\n", i)
	}
	r.WriteString("}\n")
	path := filepath.Join(out, "zz_verif_reset.go")
	check(os.WriteFile(path, []byte(r.String()), 0644))
	overlay[filepath.Join(abs, "zz_verif_reset.go")] = path
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
	fmt.Printf("%d files, %d points, %d variables\n", len(files), points, n)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
