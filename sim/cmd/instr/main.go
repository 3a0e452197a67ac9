// instr rewrites the current working tree of the repository under test for
// simulation, without touching it: it writes rewritten copies of the non-test
// source files to an output directory, and a go build overlay that puts them
// in place of the originals.
//
// The rewriting is purely textual insertion driven by the parsed syntax, so it
// follows whatever the tree contains now (no site is named by hand):
//
//   - a yield call before every statement and at the head of every loop body:
//     the simulator may switch the running task there, and counts steps;
//   - "range" over a map visits keys in an order the simulator picks, and so
//     do reflect's MapKeys and MapRange;
//   - os.Exit in library packages goes to the simulator;
//   - the sync package is replaced by a cooperative one;
//
// With a third argument, the directory of the system call seam, a second
// overlay for building the commands also routes the file operations of the
// standard library's syscall package through the simulator.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	end  int // replaced range [off,end); off==end for insertion
	text string
	seq  int
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
}

const rt = "zzsimrt"

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(3)
}

func main() {
	if len(os.Args) != 3 && len(os.Args) != 4 {
		fatal("usage: instr REPO OUTDIR [SYSSEAM]")
	}
	repo, out := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Imports", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output:", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && strings.HasPrefix(p.Dir, repo) {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	site := 0
	var sites []string
	stats := map[string]int{}
	for _, p := range pkgs {
		var files []*ast.File
		var srcs [][]byte
		for _, name := range p.GoFiles {
			fn := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(fn)
			if err != nil {
				fatal(err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tpkg, _ := conf.Check(p.ImportPath, fset, files, info)
		isMain := p.Name == "main"
		for i, f := range files {
			fn := fset.Position(f.Package).Filename
			base := fset.File(f.Package).Base()
			off := func(pos token.Pos) int { return int(pos) - base }
			var edits []edit
			add := func(o, e int, text string) {
				edits = append(edits, edit{o, e, text, len(edits)})
			}
			usesRT := false
			rel, _ := filepath.Rel(repo, fn)
			yield := func(pos token.Pos) string {
				usesRT = true
				site++
				sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(pos).Line))
				stats["yields"]++
				return fmt.Sprintf("%s.Y(%d);", rt, site)
			}
			stmts := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					add(off(s.Pos()), off(s.Pos()), yield(s.Pos()))
				}
			}
			tail := ""
			namer := typeNamer(f, info, tpkg)
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
				case *ast.CommClause:
					stmts(n.Body)
				case *ast.ForStmt:
					o := off(n.Body.Lbrace) + 1
					add(o, o, yield(n.Body.Lbrace))
				case *ast.RangeStmt:
					o := off(n.Body.Lbrace) + 1
					if txt, ok := mapRange(n, info, srcs[i], off, namer); ok {
						stats["map_ranges"]++
						usesRT = true
						add(off(n.For), off(n.Body.Lbrace)+1, txt+yield(n.For))
					} else {
						add(o, o, yield(n.Body.Lbrace))
					}
				case *ast.CallExpr:
					if sel, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 && (sel.Sel.Name == "MapKeys" || sel.Sel.Name == "MapRange") {
						if tv, ok := info.Types[sel.X]; ok && tv.Type.String() == "reflect.Value" {
							stats["reflect_maps"]++
							usesRT = true
							add(off(sel.X.Pos()), off(sel.X.Pos()), rt+".Refl"+sel.Sel.Name+"(")
							add(off(sel.X.End()), off(n.End()), ")")
						}
					}
				case *ast.SelectorExpr:
					if id, ok := n.X.(*ast.Ident); ok && !isMain && n.Sel.Name == "Exit" {
						if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "os" {
							stats["exits"]++
							usesRT = true
							add(off(n.Pos()), off(n.End()), rt+".Exit")
							tail = "\nvar _ = " + id.Name + ".Exit\n"
						}
					}
				}
				return true
			})
			// a switch body is a BlockStmt whose list holds clauses: no yield there
			edits = dropClauseEdits(f, off, edits)
			for _, s := range f.Imports {
				path, _ := strconv.Unquote(s.Path.Value)
				to := ""
				switch {
				case path == "sync":
					to = "verif.local/sim/simsync"
				}
				if to != "" {
					name := path[strings.LastIndex(path, "/")+1:]
					if s.Name != nil {
						name = s.Name.Name
						add(off(s.Name.Pos()), off(s.Path.End()), name+" "+strconv.Quote(to))
					} else {
						add(off(s.Path.Pos()), off(s.Path.End()), name+" "+strconv.Quote(to))
					}
					stats["import_"+path]++
				}
			}
			if usesRT {
				o := off(f.Name.End())
				add(o, o, "; import "+rt+" \"verif.local/sim/simrt\"")
			}
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(a, b int) bool {
				if edits[a].off != edits[b].off {
					return edits[a].off < edits[b].off
				}
				return edits[a].seq < edits[b].seq
			})
			var buf bytes.Buffer
			cur := 0
			for _, e := range edits {
				if e.off < cur {
					// inside a replaced range (a map range header): keep order sane
					continue
				}
				buf.Write(srcs[i][cur:e.off])
				buf.WriteString(e.text)
				cur = e.end
			}
			buf.Write(srcs[i][cur:])
			buf.WriteString(tail)
			dst := filepath.Join(out, "src", rel)
			os.MkdirAll(filepath.Dir(dst), 0755)
			if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
				fatal(err)
			}
			if _, err := parser.ParseFile(token.NewFileSet(), dst, nil, 0); err != nil {
				fatal("instrumented file does not parse:", err)
			}
			overlay[fn] = dst
			stats["files"]++
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0644); err != nil {
		fatal(err)
	}
	if len(os.Args) == 4 {
		sysSeam(os.Args[3], out, overlay)
	}
	if err := os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0644); err != nil {
		fatal(err)
	}
	js, _ = json.Marshal(stats)
	os.WriteFile(filepath.Join(out, "stats.json"), js, 0644)
	fmt.Fprintln(os.Stderr, "instr:", string(js))
}

// sysSeam writes the overlay for the commands: the repository's plus the seam.
func sysSeam(dir, out string, overlay map[string]string) {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal("go env:", err)
	}
	sys := filepath.Join(strings.TrimSpace(string(b)), "src", "syscall")
	fn := filepath.Join(sys, "zsyscall_linux_amd64.go")
	src, err := os.ReadFile(fn)
	if err != nil {
		fatal(err)
	}
	s := string(src)
	for _, f := range []string{"openat", "read", "write", "pread", "pwrite", "Close", "Fsync", "Ftruncate", "Getdents", "unlinkat", "Renameat"} {
		if strings.Count(s, "\nfunc "+f+"(") != 1 {
			fatal("system call wrapper not found:", f)
		}
		s = strings.Replace(s, "\nfunc "+f+"(", "\nfunc vsim_"+f+"(", 1)
	}
	dst := filepath.Join(out, "zsyscall.go")
	if err := os.WriteFile(dst, []byte(s), 0644); err != nil {
		fatal(err)
	}
	seam, err := os.ReadFile(filepath.Join(dir, "vsim.go.txt"))
	if err != nil {
		fatal(err)
	}
	dst2 := filepath.Join(out, "vsim.go")
	if err := os.WriteFile(dst2, seam, 0644); err != nil {
		fatal(err)
	}
	m := map[string]string{fn: dst, filepath.Join(sys, "vsim.go"): dst2}
	for k, v := range overlay {
		m[k] = v
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay_cmd.json"), js, 0644); err != nil {
		fatal(err)
	}
}

// dropClauseEdits removes the yields that landed in front of case clauses.
func dropClauseEdits(f *ast.File, off func(token.Pos) int, edits []edit) []edit {
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			bad[off(n.Pos())] = true
		case *ast.CommClause:
			bad[off(n.Pos())] = true
		}
		return true
	})
	var out []edit
	for _, e := range edits {
		if bad[e.off] && e.off == e.end {
			continue
		}
		out = append(out, e)
	}
	return out
}

// mapRange renders the header of a range over a map as a loop over
// simulator-ordered keys; ok is false when it must stay as it is.
func mapRange(n *ast.RangeStmt, info *types.Info, src []byte, off func(token.Pos) int, name func(types.Type) (string, bool)) (string, bool) {
	tv, ok := info.Types[n.X]
	if !ok || n.Key == nil {
		return "", false
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return "", false
	}
	ok = true
	ast.Inspect(n.X, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	if !ok {
		return "", false
	}
	txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	vars, vals, body := "zzi", rt+".NewIter("+txt(n.X)+")", ""
	for i, e := range []ast.Expr{n.Key, n.Value} {
		if isBlank(e) {
			continue
		}
		t, get := m.Key(), "Key"
		if i == 1 {
			t, get = m.Elem(), "Value"
		}
		if n.Tok == token.DEFINE {
			tn, ok := name(t)
			if !ok {
				return "", false
			}
			vars += ", " + txt(e)
			vals += ", *new(" + tn + ")"
			body += txt(e) + ", _ = zzi." + get + "().(" + tn + ");"
		} else {
			tn, ok := name(t)
			if !ok {
				return "", false
			}
			body += txt(e) + ", _ = zzi." + get + "().(" + tn + ");"
		}
	}
	return "for " + vars + " := " + vals + "; zzi.Next(); {" + body, true
}

// typeNamer gives the name of a type in the text of a file.
func typeNamer(f *ast.File, info *types.Info, pkg *types.Package) func(types.Type) (string, bool) {
	names := map[string]string{}
	for _, s := range f.Imports {
		var pn *types.PkgName
		if s.Name != nil {
			pn, _ = info.Defs[s.Name].(*types.PkgName)
		} else {
			pn, _ = info.Implicits[s].(*types.PkgName)
		}
		if pn != nil && pn.Name() != "_" && pn.Name() != "." {
			names[pn.Imported().Path()] = pn.Name()
		}
	}
	return func(t types.Type) (string, bool) {
		ok := true
		s := types.TypeString(t, func(p *types.Package) string {
			if p == pkg || p.Path() == pkg.Path() {
				return ""
			}
			n, has := names[p.Path()]
			if !has {
				ok = false
			}
			return n
		})
		// Unexported names of other packages, and what cannot be written.
		for i := 1; i < len(s)-1; i++ {
			if s[i] == '.' && s[i-1] != '.' && s[i+1] >= 'a' && s[i+1] <= 'z' {
				ok = false
			}
		}
		return s, ok
	}
}
