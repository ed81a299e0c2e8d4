// Command instr prepares the build overlay of a check. It reads the sources of the repository's
// packages and writes instrumented copies into a scratch directory:
//
//   - a yield call before every statement,
//   - the imports of the clock, the random sources and sync redirected to simulated ones,
//   - go statements redirected to the scheduler,
//   - accesses to package level variables reported to the scheduler, and code that sets these
//     variables back.
//
// With -cmd it also overlays the standard library's dialer and exit and adds the harness test file to the
// command line tool's package. Nothing in the repository is changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"math/rand":    "verifsim/simrand",
	"math/rand/v2": "verifsim/simrandv2",
	"crypto/rand":  "verifsim/simcrand",
	"time":         "verifsim/simtime",
	"sync":         "verifsim/simsync",
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "scratch directory")
	cmdTest := flag.String("cmd", "", "harness test file for the command package")
	flag.Parse()
	if *out == "" {
		fatal("missing -out")
	}
	overlay := map[string]string{}
	var sites []site
	yields := *cmdTest == ""
	dirs := map[string]bool{}
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != *repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata" || n == "cmd" && yields) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	sort.Strings(list)
	n := 0
	for _, d := range list {
		fis, err := os.ReadDir(d)
		if err != nil {
			fatal("read %s: %s", d, err)
		}
		var files []string
		for _, fi := range fis {
			name := fi.Name()
			if fi.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(d, name); err != nil || !ok {
				continue
			}
			files = append(files, filepath.Join(d, name))
		}
		fset := token.NewFileSet()
		srcs := map[string][]byte{}
		vars := collect(fset, d, files, srcs)
		vars.scan()
		for _, src := range files {
			res, ok := instrument(fset, src, srcs[src], vars, yields, &sites)
			if !ok {
				continue
			}
			dst := filepath.Join(*out, fmt.Sprintf("i%03d_%s", n, filepath.Base(src)))
			n++
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal("write: %s", err)
			}
			overlay[src] = dst
		}
	}
	if !yields {
		goroot := build.Default.GOROOT
		if r := os.Getenv("VERIF_GOROOT"); r != "" {
			goroot = r
		}
		src := filepath.Join(goroot, "src", "net", "dial.go")
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("read dialer: %s", err)
		}
		dst := filepath.Join(*out, "dial.go")
		if err := os.WriteFile(dst, dialer(src, b), 0o644); err != nil {
			fatal("write: %s", err)
		}
		put := func(src, dst string) {
			overlay[src] = dst
			if real, err := filepath.EvalSymlinks(src); err == nil {
				overlay[real] = dst
			}
		}
		put(src, dst)
		src = filepath.Join(goroot, "src", "os", "proc.go")
		if b, err = os.ReadFile(src); err != nil {
			fatal("read exit: %s", err)
		}
		dst = filepath.Join(*out, "proc.go")
		if err := os.WriteFile(dst, exiter(src, b), 0o644); err != nil {
			fatal("write: %s", err)
		}
		put(src, dst)
		overlay[filepath.Join(*repo, "cmd", "zz_verif_test.go")] = *cmdTest
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("write: %s", err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		fatal("write: %s", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

// dialer adds a replaceable dial function to the standard library's dialer.
func dialer(name string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		fatal("parse dialer: %s", err)
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "DialContext" || fd.Recv == nil {
			continue
		}
		t, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
		if !ok {
			continue
		}
		if id, ok := t.X.(*ast.Ident); !ok || id.Name != "Dialer" {
			continue
		}
		recv := fd.Recv.List[0].Names[0].Name
		p := fd.Type.Params.List
		if len(p) != 2 || len(p[0].Names) != 1 || len(p[1].Names) != 2 {
			fatal("dialer has unexpected parameters")
		}
		ctx, netw, addr := p[0].Names[0].Name, p[1].Names[0].Name, p[1].Names[1].Name
		off := fset.Position(fd.Body.Lbrace).Offset + 1
		code := fmt.Sprintf(`
	if VerifSimDial != nil {
		var deadline time.Time
		if %[1]s.Timeout > 0 {
			deadline = time.Now().Add(%[1]s.Timeout)
		}
		if !%[1]s.Deadline.IsZero() && (deadline.IsZero() || %[1]s.Deadline.Before(deadline)) {
			deadline = %[1]s.Deadline
		}
		if !deadline.IsZero() {
			c, cancel := context.WithDeadline(%[2]s, deadline)
			defer cancel()
			%[2]s = c
		}
		return VerifSimDial(%[2]s, %[3]s, %[4]s)
	}
`, recv, ctx, netw, addr)
		res := string(src[:off]) + code + string(src[off:]) + `
// VerifSimDial, when set, replaces every outgoing connection.
var VerifSimDial func(ctx context.Context, network, address string) (Conn, error)
`
		return []byte(res)
	}
	fatal("dialer not found")
	return nil
}

// exiter adds a replaceable exit function to the standard library.
func exiter(name string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		fatal("parse exit: %s", err)
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "Exit" || fd.Recv != nil {
			continue
		}
		off := fset.Position(fd.Body.Lbrace).Offset + 1
		code := fmt.Sprintf("\n\tif VerifSimExit != nil {\n\t\tVerifSimExit(%s)\n\t}\n", fd.Type.Params.List[0].Names[0].Name)
		return []byte(string(src[:off]) + code + string(src[off:]) + `
// VerifSimExit, when set, is called instead of ending the process and does not return.
var VerifSimExit func(code int)
`)
	}
	fatal("exit not found")
	return nil
}

func instrument(fset *token.FileSet, name string, src []byte, vars *pkgVars, yields bool, sites *[]site) ([]byte, bool) {
	f := vars.parsed[name]
	resets := vars.resets(fset, f, src)
	if !yields {
		if resets == "" {
			return nil, false
		}
		off := fset.Position(f.Name.End()).Offset
		return []byte(string(src[:off]) + `; import verifsimrt "verifsim/simrt"` + string(src[off:]) + resets), true
	}
	if f.Name.Name == "main" {
		return nil, false
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, false
		}
	}
	var edits []edit
	add := func(off, end int, text string) {
		edits = append(edits, edit{off, end, text, len(edits)})
	}
	offset := func(p token.Pos) int { return fset.Position(p).Offset }
	yield := func(s ast.Stmt) {
		p := s.Pos()
		n := len(*sites)
		*sites = append(*sites, site{filepath.Base(name), fset.Position(p).Line})
		text := fmt.Sprintf("verifsimrt.Y(%d); ", n)
		if vars.races {
			for _, a := range vars.accesses(s) {
				text += fmt.Sprintf("verifsimrt.A(%q, %v); ", a.place, a.write)
			}
		}
		add(offset(p), offset(p), text)
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := redirect[path]; ok {
			add(offset(im.Path.Pos()), offset(im.Path.End()), strconv.Quote(to))
		}
	}
	add(offset(f.Name.End()), offset(f.Name.End()), `; import verifsimrt "verifsim/simrt"`)
	if vars.coarse {
		resets += "\nfunc init() { verifsimrt.Coarse = true }\n"
	}
	add(len(src), len(src), "\nvar _ = verifsimrt.Y\n"+resets)
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			yield(s)
		}
	}
	gotmp := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				p := offset(x.Body.Lbrace) + 1
				add(p, p, "verifsimrt.Y(0);")
			}
		case *ast.GoStmt:
			c := x.Call
			if !schedulable(x) {
				break
			}
			gotmp++
			var pre strings.Builder
			pre.WriteString("verifsimrt.Go(func() func() { ")
			var names []string
			for i := range c.Args {
				names = append(names, fmt.Sprintf("verifgo%d_%d", gotmp, i))
			}
			fn := fmt.Sprintf("verifgo%d_f", gotmp)
			pre.WriteString(fn + " := ")
			add(offset(x.Pos()), offset(c.Fun.Pos()), pre.String())
			// after the function expression: bind the arguments, then return the closure
			if len(c.Args) == 0 {
				add(offset(c.Lparen), offset(c.Rparen)+1, fmt.Sprintf("; return func() { %s() } }())", fn))
			} else {
				add(offset(c.Lparen), offset(c.Lparen)+1, fmt.Sprintf("; %s := ", strings.Join(names, ", ")))
				add(offset(c.Rparen), offset(c.Rparen)+1, fmt.Sprintf("; return func() { %s(%s) } }())", fn, strings.Join(names, ", ")))
			}
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions before replacements at the same place
		ii, ij := edits[i].end == edits[i].off, edits[j].end == edits[j].off
		if ii != ij {
			return ii
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			fatal("overlapping edits in %s", name)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	return []byte(b.String()), true
}
