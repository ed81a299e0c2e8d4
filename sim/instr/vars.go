package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// Package level variables are the only state that code working on different transactions shares.
// Their accesses are reported to the scheduler, which recognises those that are not ordered by any
// synchronisation, and they are set back to their initial values before every run.

type pkgVars struct {
	name   string
	specs  map[*ast.ValueSpec]bool
	vars   map[string]*ast.ValueSpec
	races  bool
	coarse bool // goroutines of the package cannot be scheduled
	reset  map[string]bool
	parsed map[string]*ast.File // by path
}

// collect parses the files of a package and finds its variables.
func collect(fset *token.FileSet, dir string, files []string, src map[string][]byte) *pkgVars {
	v := &pkgVars{name: filepath.Base(dir), specs: map[*ast.ValueSpec]bool{}, vars: map[string]*ast.ValueSpec{}, races: true,
		reset: map[string]bool{}, parsed: map[string]*ast.File{}}
	for _, path := range files {
		b, err := os.ReadFile(path)
		if err != nil {
			fatal("read %s: %s", path, err)
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			fatal("parse %s: %s", path, err)
		}
		src[path] = b
		v.parsed[path] = f
		for _, im := range f.Imports {
			if im.Path.Value == `"sync/atomic"` || im.Path.Value == `"unsafe"` {
				v.races = false
			}
			if strings.HasPrefix(im.Path.Value, `"golang.org/x/sync/`) {
				v.races, v.coarse = false, true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
				v.races, v.coarse = false, true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					v.races, v.coarse = false, true
				}
			case *ast.GoStmt:
				if !schedulable(x) {
					v.races, v.coarse = false, true
				}
			}
			return true
		})
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				spec := s.(*ast.ValueSpec)
				if directive(g.Doc) || directive(spec.Doc) {
					continue
				}
				v.specs[spec] = true
				for _, n := range spec.Names {
					if n.Name != "_" {
						v.vars[n.Name] = spec
					}
				}
			}
		}
	}
	return v
}

// schedulable reports whether a go statement can be redirected to the scheduler.
func schedulable(x *ast.GoStmt) bool {
	if x.Call.Ellipsis.IsValid() {
		return false
	}
	for _, a := range x.Call.Args {
		if id, ok := a.(*ast.Ident); ok && id.Name == "nil" {
			return false
		}
	}
	return true
}

func directive(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:") {
			return true
		}
	}
	return false
}

// is reports whether the identifier names a variable of the package.
func (v *pkgVars) is(id *ast.Ident) bool {
	if v.vars[id.Name] == nil {
		return false
	}
	if id.Obj == nil {
		return true
	}
	s, ok := id.Obj.Decl.(*ast.ValueSpec)
	return ok && v.specs[s]
}

func (v *pkgVars) rootVar(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			if v.is(x) {
				return x
			}
			return nil
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

type access struct {
	place string
	write bool
}

type walker struct {
	v   *pkgVars
	out []access
}

func (w *walker) emit(id *ast.Ident, part string, write bool) {
	a := access{w.v.name + "." + id.Name + part, write}
	for i, o := range w.out {
		if o.place == a.place {
			w.out[i].write = o.write || write
			return
		}
	}
	w.out = append(w.out, a)
	if write {
		w.v.reset[id.Name] = true
	}
}

func (w *walker) content(e ast.Expr, write bool) {
	if id, ok := e.(*ast.Ident); ok {
		if w.v.is(id) {
			w.emit(id, "", false)
			w.emit(id, "[]", write)
			if write {
				w.v.reset[id.Name] = true
			}
		}
		return
	}
	if s, ok := e.(*ast.SliceExpr); ok {
		w.content(s.X, write)
		return
	}
	w.expr(e, write)
}

func (w *walker) expr(e ast.Expr, write bool) {
	switch x := e.(type) {
	case nil:
	case *ast.Ident:
		if w.v.is(x) {
			w.emit(x, "", write)
			w.v.reset[x.Name] = true
		}
	case *ast.ParenExpr:
		w.expr(x.X, write)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if w.v.is(id) {
				w.emit(id, "", false)
				w.emit(id, "."+x.Sel.Name, write)
				if write {
					w.v.reset[id.Name] = true
				}
			}
			return
		}
		w.expr(x.X, write)
	case *ast.IndexExpr:
		w.expr(x.Index, false)
		w.content(x.X, write)
	case *ast.SliceExpr:
		w.expr(x.Low, false)
		w.expr(x.High, false)
		w.expr(x.Max, false)
		w.content(x.X, write)
		if id := w.v.rootVar(x.X); id != nil {
			w.v.reset[id.Name] = true
		}
	case *ast.StarExpr:
		w.content(x.X, write)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if id := w.v.rootVar(x.X); id != nil {
				w.v.reset[id.Name] = true
				return
			}
		}
		w.expr(x.X, false)
	case *ast.BinaryExpr:
		w.expr(x.X, false)
		w.expr(x.Y, false)
	case *ast.TypeAssertExpr:
		w.expr(x.X, false)
	case *ast.CompositeLit:
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if _, ok := kv.Key.(*ast.Ident); !ok {
					w.expr(kv.Key, false)
				}
				el = kv.Value
			}
			w.expr(el, false)
		}
	case *ast.CallExpr:
		args := x.Args
		switch f := x.Fun.(type) {
		case *ast.Ident:
			if f.Obj == nil && len(args) > 0 {
				switch f.Name {
				case "len", "cap", "append":
					w.content(args[0], false)
					args = args[1:]
				case "delete", "clear", "copy":
					w.content(args[0], true)
					args = args[1:]
				}
			}
			if w.v.is(f) {
				w.emit(f, "", false)
			}
		case *ast.SelectorExpr:
			if id := w.v.rootVar(f.X); id != nil {
				w.v.reset[id.Name] = true
				if mutating(w.v.vars[id.Name], id.Name) {
					w.emit(id, "[]", true)
				}
			} else {
				w.expr(f.X, false)
				if strings.HasPrefix(f.Sel.Name, "PutUint") && len(args) > 0 {
					w.content(args[0], true)
					args = args[1:]
				}
			}
		default:
			w.expr(x.Fun, false)
		}
		for _, a := range args {
			w.expr(a, false)
		}
	}
}

// mutating reports whether every use of a method of the variable changes it.
func mutating(spec *ast.ValueSpec, name string) bool {
	text := ""
	if spec.Type != nil {
		text = typeText(spec.Type)
	}
	for i, n := range spec.Names {
		if n.Name == name && i < len(spec.Values) {
			text += " " + typeText(spec.Values[i])
		}
	}
	for _, s := range []string{"bytes.Buffer", "bytes.NewBuffer", "strings.Builder", "sha256.New", "ripemd160.New", "hash.Hash", "bufio.", "big.Int", "list.List", "list.New"} {
		if strings.Contains(text, s) {
			return true
		}
	}
	return false
}

func typeText(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return typeText(x.X) + "." + x.Sel.Name
	case *ast.StarExpr:
		return typeText(x.X)
	case *ast.UnaryExpr:
		return typeText(x.X)
	case *ast.CompositeLit:
		return typeText(x.Type)
	case *ast.CallExpr:
		t := typeText(x.Fun)
		for _, a := range x.Args {
			t += " " + typeText(a)
		}
		return t
	}
	return ""
}

// accesses lists the accesses a statement makes itself, without those in nested blocks.
func (v *pkgVars) accesses(s ast.Stmt) []access {
	w := &walker{v: v}
	w.stmt(s)
	return w.out
}

func (w *walker) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case nil:
	case *ast.ExprStmt:
		w.expr(x.X, false)
	case *ast.SendStmt:
		w.expr(x.Value, false)
	case *ast.IncDecStmt:
		w.expr(x.X, true)
	case *ast.AssignStmt:
		for _, e := range x.Rhs {
			w.expr(e, false)
		}
		if x.Tok != token.DEFINE {
			for _, e := range x.Lhs {
				w.expr(e, true)
			}
		}
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			w.expr(e, false)
		}
	case *ast.GoStmt:
		w.expr(x.Call, false)
	case *ast.DeferStmt:
		w.expr(x.Call, false)
	case *ast.LabeledStmt:
		w.stmt(x.Stmt)
	case *ast.IfStmt:
		w.stmt(x.Init)
		w.expr(x.Cond, false)
		if e, ok := x.Else.(*ast.IfStmt); ok {
			w.stmt(e)
		}
	case *ast.ForStmt:
		w.stmt(x.Init)
		w.expr(x.Cond, false)
		w.stmt(x.Post)
	case *ast.RangeStmt:
		w.content(x.X, false)
		if x.Tok == token.ASSIGN {
			w.expr(x.Key, true)
			w.expr(x.Value, true)
		}
	case *ast.SwitchStmt:
		w.stmt(x.Init)
		w.expr(x.Tag, false)
	case *ast.TypeSwitchStmt:
		w.stmt(x.Init)
		w.stmt(x.Assign)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					for _, e := range vs.Values {
						w.expr(e, false)
					}
				}
			}
		}
	}
}

// scan finds the variables that have to be set back, which are those that are not only read.
func (v *pkgVars) scan() {
	for _, f := range v.parsed {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(ast.Stmt); ok {
				switch s.(type) {
				case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt:
				default:
					v.accesses(s)
				}
			}
			return true
		})
	}
}

// resets is the code that sets the variables declared in a file back.
func (v *pkgVars) resets(fset *token.FileSet, f *ast.File, src []byte) string {
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var b strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			spec := s.(*ast.ValueSpec)
			if !v.specs[spec] {
				continue
			}
			need := false
			var names []string
			for _, n := range spec.Names {
				names = append(names, n.Name)
				need = need || v.reset[n.Name]
			}
			if !need {
				continue
			}
			if len(spec.Values) == 0 {
				for _, n := range names {
					if n != "_" {
						fmt.Fprintf(&b, "\t{\n\t\tvar verifzero %s\n\t\t%s = verifzero\n\t}\n", text(spec.Type), n)
					}
				}
				continue
			}
			var values []string
			skip := false
			for _, e := range spec.Values {
				t := text(e)
				values = append(values, t)
				skip = skip || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "fmt.Errorf") || strings.Contains(t, "flag.")
			}
			if !skip {
				fmt.Fprintf(&b, "\t%s = %s\n", strings.Join(names, ", "), strings.Join(values, ", "))
			}
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return "\nfunc init() { verifsimrt.OnReset(func() {\n" + b.String() + "}) }\n"
}
