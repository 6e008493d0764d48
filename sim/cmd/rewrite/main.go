// Command rewrite produces a Go build overlay that puts the repository's own
// non-test source files behind the simulator's seams.  It edits text at AST
// positions, keeping line numbers, and never touches the repository.
//
//	rewrite -repo /repo -out DIR   writes DIR/overlay.json and DIR/src/...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	seq      int
}

var importMap = map[string][2]string{ // path -> default name, replacement
	"sync":                                  {"sync", "verif.local/sim/vsync"},
	"sync/atomic":                           {"atomic", "verif.local/sim/vatomic"},
	"github.com/chronos-tachyon/bufferpool": {"bufferpool", "verif.local/sim/vbufpool"},
}

// selectors redirected to the simulator: import path -> name -> replacement
var selMap = map[string]map[string]string{
	"time": {"Sleep": "Sleep", "Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil",
		"After": "After", "AfterFunc": "AfterFunc", "Tick": "Tick",
		"NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker"},
	"runtime": {"Gosched": "Gosched"},
}

var cliSel = map[string]map[string]string{
	"os": {"Stdin": "Stdin", "Stdout": "Stdout", "Exit": "Exit",
		"File": "File", "OpenFile": "OpenFile", "Open": "Open", "Create": "Create"},
}

const simName = "vsim__"
const vosName = "vos__"

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	out := flag.String("out", "", "output directory")
	noSteps := flag.Bool("nosteps", false, "do not insert step counters")
	flag.Parse()
	if *out == "" {
		fmt.Fprintln(os.Stderr, "rewrite: -out required")
		os.Exit(2)
	}
	overlay := map[string]string{}
	chanRanges = map[string]map[int]bool{}
	err := filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if info.IsDir() {
			if path != *repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			findChanRanges(path)
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, path)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res, err := rewrite(path, src, strings.HasPrefix(rel, "cmd/"), !*noSteps)
		if err != nil {
			return fmt.Errorf("%s: %w", path, err)
		}
		dst := filepath.Join(*out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		overlay[path] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(2)
	}
	// entry point for the simulated command
	mainPath := filepath.Join(*repo, "cmd", "gzip", "zz_verif_main.go")
	dst := filepath.Join(*out, "src", "cmd", "gzip", "zz_verif_main.go")
	if _, err := os.Stat(filepath.Join(*repo, "cmd", "gzip")); err == nil {
		_ = os.MkdirAll(filepath.Dir(dst), 0o755)
		_ = os.WriteFile(dst, []byte("package main\n\nimport vos__ \"verif.local/sim/vos\"\n\nfunc main() { vos__.Main(simMain__) }\n"), 0o644)
		overlay[mainPath] = dst
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(2)
	}
}

// chanRanges: file -> offset of range statements over channels.
var chanRanges map[string]map[int]bool

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported")
}

// findChanRanges type-checks one package as far as that is possible without its
// imports, which is enough to tell channels from other things.
func findChanRanges(dir string) {
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	found := false
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			return
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if _, ok := x.(*ast.ChanType); ok {
				found = true
			}
			return true
		})
		files = append(files, f)
	}
	if !found {
		return
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	cfg := types.Config{Importer: noImporter{}, Error: func(error) {}}
	_, _ = cfg.Check(dir, fset, files, info)
	for _, f := range files {
		ast.Inspect(f, func(x ast.Node) bool {
			if r, ok := x.(*ast.RangeStmt); ok {
				if t, ok := info.Types[r.X]; ok && t.Type != nil {
					if _, ok := t.Type.Underlying().(*types.Chan); ok {
						p := fset.Position(r.Pos())
						if chanRanges[p.Filename] == nil {
							chanRanges[p.Filename] = map[int]bool{}
						}
						chanRanges[p.Filename][p.Offset] = true
					}
				}
			}
			return true
		})
	}
}

// apply performs the edits on src[from:to].
func apply(src []byte, from, to int, edits []edit) (string, error) {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].seq < edits[j].seq
	})
	var sb strings.Builder
	at := from
	for _, e := range edits {
		if e.pos < at {
			return "", fmt.Errorf("overlapping edits at offset %d", e.pos)
		}
		sb.Write(src[at:e.pos])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(src[at:to])
	return sb.String(), nil
}

func isRecv(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// constant arguments of a go statement are passed as written
func isPlain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "true" || x.Name == "false"
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && x.Op != token.AND && isPlain(x.X)
	case *ast.ParenExpr:
		return isPlain(x.X)
	case *ast.BinaryExpr:
		return isPlain(x.X) && isPlain(x.Y)
	}
	return false
}

func rewrite(path string, src []byte, isCmd bool, steps bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(a, b int, text string) { edits = append(edits, edit{a, b, text, len(edits)}) }

	names := map[string]string{} // local name -> import path
	keep := map[string]bool{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		if r, ok := importMap[p]; ok {
			if name == "" {
				name = r[0]
			}
			if im.Name != nil {
				add(off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(r[1]))
			} else {
				add(off(im.Path.Pos()), off(im.Path.End()), name+" "+strconv.Quote(r[1]))
			}
			continue
		}
		if name == "" {
			name = p[strings.LastIndex(p, "/")+1:]
		}
		names[name] = p
	}

	usesSim, usesVos, generics := false, false, false
	var walk func(n ast.Node) bool
	// render rewrites a subtree on its own and returns its text.
	var renderErr error
	render := func(n ast.Node) string {
		save := edits
		edits = nil
		ast.Inspect(n, walk)
		out, err := apply(src, off(n.Pos()), off(n.End()), edits)
		if err != nil {
			renderErr = err
		}
		edits = save
		return out
	}
	two := map[*ast.UnaryExpr]bool{} // receives in comma-ok form
	nsel := 0
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := isRecv(x.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := isRecv(x.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.SendStmt:
			usesSim, generics = true, true
			add(off(x.Pos()), off(x.Pos()), simName+".Send(")
			ast.Inspect(x.Chan, walk)
			add(off(x.Chan.End()), off(x.Value.Pos()), ")(")
			ast.Inspect(x.Value, walk)
			add(off(x.End()), off(x.End()), ")")
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				usesSim, generics = true, true
				fn := ".Recv("
				if two[x] {
					fn = ".Recv2("
				}
				add(off(x.Pos()), off(x.Pos())+2, simName+fn)
				ast.Inspect(x.X, walk)
				add(off(x.End()), off(x.End()), ")")
				return false
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				usesSim, generics = true, true
				add(off(id.Pos()), off(id.End()), simName+".Close")
			}
		case *ast.SelectStmt:
			usesSim, generics = true, true
			if len(x.Body.List) == 0 {
				add(off(x.Pos()), off(x.End()), "for { "+simName+".Forever() }")
				return false
			}
			nsel++
			var vars, inits []string
			hasDefault := false
			type clause struct {
				cc   *ast.CommClause
				head string
			}
			var cls []clause
			for i, st := range x.Body.List {
				cc := st.(*ast.CommClause)
				v := fmt.Sprintf("__sel%d_%d", nsel, i)
				recv := func(u *ast.UnaryExpr) {
					vars = append(vars, v)
					inits = append(inits, simName+".R("+render(u.X)+")")
				}
				idx := len(vars)
				head := fmt.Sprintf("case %d:", idx)
				switch c := cc.Comm.(type) {
				case nil:
					hasDefault = true
					head = "default:"
				case *ast.SendStmt:
					vars = append(vars, v)
					inits = append(inits, simName+".W("+render(c.Chan)+")("+render(c.Value)+")")
				case *ast.ExprStmt:
					recv(isRecv(c.X))
				case *ast.AssignStmt:
					recv(isRecv(c.Rhs[0]))
					var l []string
					for _, e := range c.Lhs {
						l = append(l, render(e))
					}
					r := v + ".V"
					if len(l) == 2 {
						r += ", " + v + ".OK"
					}
					head += " " + strings.Join(l, ", ") + " " + c.Tok.String() + " " + r + ";"
				}
				cls = append(cls, clause{cc, head})
			}
			sw := "switch "
			if len(vars) > 0 {
				sw += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
			}
			sw += fmt.Sprintf("%s.Select(%v", simName, hasDefault)
			for _, v := range vars {
				sw += ", " + v
			}
			add(off(x.Pos()), off(x.Body.Lbrace), sw+") ")
			for _, c := range cls {
				add(off(c.cc.Pos()), off(c.cc.Colon)+1, c.head)
				for _, st := range c.cc.Body {
					ast.Inspect(st, walk)
				}
			}
			if !hasDefault {
				add(off(x.Body.Rbrace), off(x.Body.Rbrace), " default: panic(\"unreachable\"); ")
			}
			return false
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil {
				p := names[id.Name]
				if r, ok := selMap[p][x.Sel.Name]; ok {
					add(off(x.Pos()), off(x.End()), simName+"."+r)
					usesSim = true
					keep[id.Name] = true
				}
				if isCmd {
					if r, ok := cliSel[p][x.Sel.Name]; ok {
						add(off(x.Pos()), off(x.End()), vosName+"."+r)
						usesVos = true
						keep[id.Name] = true
					}
				}
			}
		case *ast.GoStmt:
			usesSim = true
			call := x.Call
			plain := true
			for _, a := range call.Args {
				plain = plain && isPlain(a)
			}
			if _, isLit := call.Fun.(*ast.FuncLit); isLit && plain {
				// go func(){...}()  =>  vsim.Go(func(){ func(){...}() })
				add(off(x.Pos()), off(call.Pos()), simName+".Go(func() { ")
				add(off(x.End()), off(x.End()), " })")
			} else {
				// evaluate function value and arguments now, run later
				h := "{ __vf := " + render(call.Fun)
				var args []string
				for i, a := range call.Args {
					v := fmt.Sprintf("__va%d", i)
					if isPlain(a) {
						v = render(a)
					} else {
						h += "; " + v + " := " + render(a)
					}
					if call.Ellipsis.IsValid() && i == len(call.Args)-1 {
						v += "..."
					}
					args = append(args, v)
				}
				add(off(x.Pos()), off(x.End()), h+"; "+simName+".Go(func() { __vf("+strings.Join(args, ", ")+") }) }")
				return false
			}
		case *ast.ForStmt:
			if steps {
				usesSim = true
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, " "+simName+".Step(); ")
			}
		case *ast.RangeStmt:
			if chanRanges[path][off(x.Pos())] {
				usesSim, generics = true, true
				h := "for __rc := " + render(x.X) + "; ; { "
				switch {
				case x.Key == nil:
					h += "_, __rok := "
				case x.Tok == token.DEFINE:
					h += render(x.Key) + ", __rok := "
				default:
					h += "__rv, __rok := "
				}
				h += simName + ".Recv2(__rc); if !__rok { break }; "
				if x.Key != nil && x.Tok == token.ASSIGN {
					h += render(x.Key) + " = __rv; "
				}
				if steps {
					h += simName + ".Step(); "
				}
				add(off(x.Pos()), off(x.Body.Lbrace)+1, h)
				ast.Inspect(x.Body, walk)
				return false
			}
			if steps {
				usesSim = true
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, " "+simName+".Step(); ")
			}
		case *ast.FuncDecl:
			if isCmd && x.Recv == nil && x.Name.Name == "main" && f.Name.Name == "main" {
				add(off(x.Name.Pos()), off(x.Name.End()), "simMain__")
			}
			if steps && x.Body != nil && x.Name.Name != "init" {
				usesSim = true
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, " "+simName+".Step(); ")
			}
		}
		return true
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, walk)
	}
	head := ""
	if usesSim {
		head += "; import " + simName + " \"verif.local/sim/vsync\""
	}
	if usesVos {
		head += "; import " + vosName + " \"verif.local/sim/vos\""
	}
	if head != "" {
		add(off(f.Name.End()), off(f.Name.End()), head)
	}
	tail := ""
	ks := make([]string, 0, len(keep))
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch names[k] {
		case "time":
			tail += "\nvar _ = " + k + ".Nanosecond\n"
		case "os":
			tail += "\nvar _ = " + k + ".O_RDONLY\n"
		case "runtime":
			tail += "\nvar _ = " + k + ".GOOS\n"
		}
	}

	if renderErr != nil {
		return nil, renderErr
	}
	out, err := apply(src, 0, len(src), edits)
	if err != nil {
		return nil, err
	}
	if generics {
		// channel helpers are generic; the module may be older than that
		out = "//go:build go1.21\n\n//line " + path + ":1\n" + out
	}
	return []byte(out + tail), nil
}
