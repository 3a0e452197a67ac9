package main

// World "gen": sequences of tplgen invocations over generated packages, with
// failing file operations, crashes, and permuted map orders.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"text/template"

	"github.com/qiniu/text/tpl/generator"
)

type gnDecl struct {
	Kind int `json:"kind"`
	Gram int `json:"gram"` // which grammar
	Name int `json:"name"` // which name
}

type gnFile struct {
	Name  string   `json:"name"`
	Pkg   string   `json:"pkg"`
	Decls []gnDecl `json:"decls"`
	Bad   bool     `json:"bad,omitempty"` // does not parse
}

type gnGram struct {
	Rules []gRule `json:"rules,omitempty"`
	Bad   string  `json:"bad,omitempty"`
}

type gnRun struct {
	G      int       `json:"g"`
	Def    bool      `json:"def,omitempty"` // leave options out where they are the default
	Out    string    `json:"out,omitempty"`
	Intp   bool      `json:"intp,omitempty"`
	Junk   int       `json:"junk,omitempty"`
	JKind  int       `json:"jkind,omitempty"`
	Faults []osFault `json:"faults,omitempty"`
	Seeds  []uint64  `json:"seeds,omitempty"` // map orders
}

type genPlanT struct {
	Grams []gnGram `json:"grams"`
	Files []gnFile `json:"files"`
	Runs  []gnRun  `json:"runs"`
}

var gnNames = []string{"grammar", "gram2", "other"}

func (g *gnGram) text() string {
	if g.Bad != "" {
		return g.Bad
	}
	return (&gEngine{Rules: g.Rules}).text()
}

// decl renders a declaration; lit says whether it holds the grammar as a string.
func (d *gnDecl) render(i int, text string) (src string, lit bool) {
	n := gnNames[((d.Name%3)+3)%3]
	raw := "`" + text + "`"
	if strings.Contains(text, "`") {
		raw = strconv.Quote(text)
	}
	quo := strconv.Quote(text)
	f := fmt.Sprintf("f%d", i)
	switch ((d.Kind % 20) + 20) % 20 {
	case 0:
		return "const " + n + " = " + raw, true
	case 1:
		return "var " + n + " = " + quo, true
	case 2:
		return "// c\nconst (\n\ta" + f + " = 1\n\t" + n + " = " + raw + "\n)", true
	case 3:
		return "var a" + f + ", " + n + ", b" + f + " = \"doc = INT;\", " + raw + ", `doc = FLOAT;`", true
	case 4:
		return "func " + f + "() string {\n\tconst " + n + " = " + raw + "\n\treturn " + n + "\n}", true
	case 5:
		return "func " + f + "() string {\n\tx := 1\n\t_ = x\n\t" + n + " := " + quo + "\n\treturn " + n + "\n}", true
	case 6:
		return "func (p *T) " + f + "() string {\n\ta, " + n + ", b := 1, " + raw + ", \"doc = CHAR;\"\n\t_, _ = a, b\n\treturn " + n + "\n}", true
	case 7:
		return "func " + f + "() {\n\tvar " + n + " string\n\t" + n + " = " + raw + "\n\t_ = " + n + "\n}", true
	// nothing to be found in these
	case 8:
		return "var " + n + " string", false
	case 9:
		return "func " + f + "() {\n\tx, " + n + " := g" + f + "()\n\t_, _ = x, " + n + "\n}", false
	case 10:
		return "func " + f + "() string", false
	case 11:
		return "const " + n + " = 5", false
	case 12:
		return "const " + n + " = 'x'", false
	case 13:
		return "const " + n + " = " + raw + " + \"\"", false
	case 14:
		return "const not" + n + " = " + raw, false
	case 15:
		return "type T" + f + " struct { " + n + " string `" + n + "` }", false
	case 16:
		return "// " + n + " = nothing\nfunc " + f + "() { g(" + quo + ") }", false
	case 17:
		return "var _ = func() string { " + n + " := " + raw + "; return " + n + " }", false
	case 18:
		return "func " + n + "() string { return " + raw + " }", false
	}
	return "import _ " + quo[:1] + "fmt" + quo[:1] + "\nvar " + f + " = map[string]string{\"" + n + "\": " + raw + "}", false
}

func (p *genPlanT) gram(i int) string {
	if i < 0 || i >= len(p.Grams) {
		return "doc = INT;"
	}
	return p.Grams[i].text()
}

func (f *gnFile) text(p *genPlanT) string {
	var b strings.Builder
	b.WriteString("package " + f.Pkg + "\n\n")
	var imports, rest []string
	for i := range f.Decls {
		s, _ := f.Decls[i].render(i, p.gram(f.Decls[i].Gram))
		if strings.HasPrefix(s, "import") {
			imports = append(imports, s)
		} else {
			rest = append(rest, s)
		}
	}
	for i, s := range imports {
		l := strings.SplitN(s, "\n", 2)
		imports[i] = l[0]
		rest = append(rest, l[1])
	}
	b.WriteString(strings.Join(append(imports, rest...), "\n\n"))
	if f.Bad {
		b.WriteString("\nfunc {\n")
	}
	return b.String() + "\n"
}

// found lists the definitions of a name, in the order of packages, files and
// declarations.
type gnDef struct {
	pkg, text string
	g         *gnGram // nil: a small grammar of the world's own
}

func (p *genPlanT) found(name string) (defs []gnDef) {
	fs := append([]gnFile{}, p.Files...)
	sort.SliceStable(fs, func(i, j int) bool {
		if fs[i].Pkg != fs[j].Pkg {
			return fs[i].Pkg < fs[j].Pkg
		}
		return fs[i].Name < fs[j].Name
	})
	for _, f := range fs {
		for i := range f.Decls {
			d := &f.Decls[i]
			if gnNames[((d.Name%3)+3)%3] != name {
				continue
			}
			if _, lit := d.render(i, ""); lit {
				def := gnDef{f.Pkg, p.gram(d.Gram), nil}
				if d.Gram >= 0 && d.Gram < len(p.Grams) {
					def.g = &p.Grams[d.Gram]
				}
				defs = append(defs, def)
			}
		}
	}
	return
}

func ident(s string) bool {
	return s != "" && strings.IndexFunc(s, func(r rune) bool { return !(r >= 'a' && r <= 'z') }) < 0
}

// genCode is the library's result for a grammar.
func genCode(text string) (code string, fail string) {
	defer func() {
		if e := recover(); e != nil {
			fail = fmt.Sprint(e)
		}
	}()
	code, err := generator.GenStaticCode(text)
	if err != nil {
		return "", err.Error()
	}
	return code, ""
}

func (p *genPlanT) render(tmpl string, d gnDef, intp bool) (text, fail string) {
	code, fail := genCode(d.text)
	if fail != "" {
		return
	}
	t, err := template.New("t").Parse(tmpl)
	if err != nil {
		return "", "template: " + err.Error()
	}
	var buf bytes.Buffer
	if err := t.Execute(&buf, map[string]interface{}{"packageName": d.pkg, "genInterpreter": intp, "code": code}); err != nil {
		return "", "template: " + err.Error()
	}
	return buf.String(), ""
}

func runGen(c *Ctx, pl interface{}) {
	p := pl.(*genPlanT)
	names := map[string]bool{}
	badDir := false
	for i := range p.Files {
		f := &p.Files[i]
		if !okName(f.Name) || strings.Contains(f.Name, "/") || !strings.HasSuffix(f.Name, ".go") || names[f.Name] || !ident(f.Pkg) || f.Pkg == "import" || f.Pkg == "const" {
			return
		}
		names[f.Name] = true
		badDir = badDir || f.Bad
	}
	for i := range p.Grams {
		if g := &p.Grams[i]; g.Bad == "" {
			if in := (&gEngine{Kind: "host", Rules: g.Rules}).info(); !in.ok {
				return
			}
		}
	}
	tb, err := os.ReadFile(filepath.Join(os.Getenv("VSIM_REPO"), "tpl/cmd/tplgen/output.tpl"))
	if err != nil {
		die(err)
	}
	tmpl := string(tb)
	dir, aux, done := cmdDirs()
	defer done()
	for i := range p.Files {
		writeFile(filepath.Join(dir, "p", p.Files[i].Name), p.Files[i].text(p))
	}
	writeFile(filepath.Join(dir, "p/notes.txt"), "package notes")
	writeFile(filepath.Join(dir, "p/sub/a.go"), "package sub\n\nconst grammar = `doc = FLOAT;`\n")
	outs := map[string]bool{}
	for ri := range p.Runs {
		run := &p.Runs[ri]
		if len(p.Files) == 0 {
			break
		}
		out := run.Out
		if out == "" {
			out = "static_compiler.go"
		}
		if !okName(strings.TrimPrefix(out, "../")) || names[out] || strings.Contains(out, "notes") || strings.Contains(out, "a.go") {
			continue
		}
		name := gnNames[((run.G%3)+3)%3]
		var args []string
		if !(run.Def && name == "grammar") {
			args = append(args, "-g", name)
		}
		if !(run.Def && out == "static_compiler.go") {
			args = append(args, "-f", out)
		}
		if run.Intp {
			args = append(args, "-i")
		}
		outKey := filepath.Join("p", out)
		outPath := filepath.Join(dir, outKey)
		for o := range outs { // what another output left behind is not part of the package
			if o != outPath {
				os.Remove(o)
			}
		}
		outs[outPath] = true
		junk := strings.Repeat("// what was there before, line by line\n", run.Junk)
		switch run.JKind {
		case 1:
			junk = "package " + p.Files[0].Pkg + "\n\n" + junk + "var old = 1\n"
		case 2:
			junk = "package zz\n" + junk + "var (\n"
		}
		if run.Junk > 0 {
			writeFile(outPath, junk)
		}
		defs := p.found(name)
		fail := ""
		var texts []string
		switch {
		case badDir:
			fail = "package does not parse"
		case len(defs) == 0:
			fail = "not found"
		default:
			for i, d := range defs {
				t, f := p.render(tmpl, d, run.Intp)
				if bad := d.g != nil && d.g.Bad != ""; bad && f == "" {
					c.Viol("accepted", "run %d: code is generated for the grammar %q", ri, d.text)
					return
				} else if !bad && f != "" {
					c.Viol("refused", "run %d: no code is generated for the grammar %q: %s", ri, d.text, f)
					return
				}
				if f == "" {
					texts = append(texts, t)
				} else if i == 0 {
					fail = "grammar: " + f
				}
			}
		}
		seeds := run.Seeds
		if len(seeds) == 0 {
			seeds = []uint64{0}
		}
		var first *proc
		firstOut := ""
		for si, seed := range seeds {
			if si > 0 {
				os.Remove(outPath)
				if run.Junk > 0 {
					writeFile(outPath, junk)
				}
			}
			before := treeOf(dir)
			ps := runProc(c, "tplgen", filepath.Join(dir, "p"), aux, nil, args, run.Faults, seed)
			after := treeOf(dir)
			ps.err = strings.ReplaceAll(ps.err, dir, "")
			c.Logf("%d %v -> %s %d bytes", ri, args, ps.desc(), len(after[outKey]))
			c.State("gen", ps.opsDigest(), ps.code)
			what := fmt.Sprintf("run %d: tplgen %s (faults %v, map order %d): exit %d, stderr %q", ri, strings.Join(args, " "), ps.fired, seed, ps.code, short(ps.err, 160))
			if len(ps.fired) > 0 || fail != "" || seed != 0 {
				c.NonTriv = true
			}
			if fail != "" {
				c.Inc("fault_input_" + strings.TrimSuffix(strings.Fields(fail)[0], ":"))
			}
			if ps.code == 97 {
				c.Viol("no-progress", "%s", what)
				return
			}
			if d := treeDiff(before, after, map[string]bool{outKey: true}); d != "" && !(ps.killed && strings.HasSuffix(d, " appeared")) {
				c.Viol("file-changed", "%s: %s", what, d)
				return
			}
			res := after[outKey]
			if _, ok := after[outKey]; !ok {
				res = "<none>"
			}
			if si == 0 {
				first, firstOut = ps, res
			} else if ps.code != first.code || ps.err != first.err && !strings.Contains(ps.err, "panic:") || res != firstOut {
				c.Viol("order", "%s, output %s; with map order %d exit %d, stderr %q, output %s", what, short(res, 80), seeds[0], first.code, short(first.err, 160), short(firstOut, 80))
				return
			}
			if ps.killed {
				c.Inc("killed")
				continue
			}
			if ps.code != 0 {
				if strings.TrimSpace(ps.err) == "" {
					c.Viol("silent-failure", "%s: nothing on standard error", what)
					return
				}
				if fail == "" && len(ps.fired) == 0 && len(texts) == len(defs) {
					c.Viol("refused", "%s: nothing is wrong with the package", what)
					return
				}
				c.Inc("reported_failures")
				continue
			}
			if len(texts) == 0 {
				c.Viol("accepted", "%s: it should have failed: %s", what, fail)
				return
			}
			c.Inc("successes")
			if len(ps.fired) > 0 {
				c.Inc("successes_in_spite_of_faults")
			}
			good := false
			for _, t := range texts {
				good = good || t == res
			}
			if !good {
				t := texts[0]
				i := 0
				for i < len(t) && i < len(res) && t[i] == res[i] {
					i++
				}
				c.Viol("wrong-output", "%s: the output should be %d bytes, is %d bytes, different at byte %d: %q, not %q", what, len(t), len(res), i, short(res[i:], 60), short(t[i:], 60))
				return
			}
			got, err := codeShape(res)
			if _, unknown := err.(errUnknownCode); unknown {
				c.Inc("code_not_understood")
				continue
			}
			if err != nil {
				c.Viol("wrong-output", "%s: %v", what, err)
				return
			}
			good = false
			want := ""
			for _, d := range defs {
				if d.g == nil || d.g.Bad != "" {
					good = good || d.g == nil
					continue
				}
				s, ok := ruleShape(d.g.Rules)
				good = good || !ok || s == got
				want = s
			}
			if !good {
				c.Viol("wrong-output", "%s: the file builds the grammar %s, which should be %s", what, short(got, 400), short(want, 400))
				return
			}
			c.Inc("code_read_back")
		}
	}
}

func genGen(r *R, o GenOpt) interface{} {
	p := &genPlanT{}
	ng := r.In(1, 3)
	for i := 0; i < ng; i++ {
		g := gnGram{}
		if r.P(5) {
			g.Bad = r.Str("doc = (INT;", "aa = INT;", "doc = INT; doc = CHAR;", "doc = INT/;", "doc = NOSUCH;", " ", "doc = 2;", "doc = aa;", "doc = INT aa | CHAR; bb = aa;", "doc = aa; aa = INT; aa = CHAR;", "aa = bb; bb = INT; doc = aa bb; bb = CHAR;")
		} else {
			g.Rules = genGEngine(r, o, false).Rules
		}
		p.Grams = append(p.Grams, g)
	}
	pkgs := []string{r.Str("main", "calc", "zed")}
	if r.P(40) {
		pkgs = append(pkgs, r.Str("aaa", "tool"))
	}
	nf := r.In(1, 4)
	perm := []string{"a.go", "m_b.go", "z.go", "zz9.go"}
	many := r.P(30) || o.Prop == "P11"
	var def []bool = make([]bool, 3)
	for i := 0; i < nf; i++ {
		f := gnFile{Name: perm[i], Pkg: pkgs[r.N(len(pkgs))]}
		for k := r.N(4); k > 0; k-- {
			d := gnDecl{Kind: 8 + r.N(12), Gram: r.N(ng), Name: r.N(3)}
			f.Decls = append(f.Decls, d)
		}
		for k := r.N(3); k > 0; k-- {
			d := gnDecl{Kind: r.N(8), Gram: r.N(ng), Name: r.W(60, 30, 10)}
			if def[d.Name] && !many {
				continue
			}
			def[d.Name] = true
			at := r.N(len(f.Decls) + 1)
			f.Decls = append(f.Decls[:at:at], append([]gnDecl{d}, f.Decls[at:]...)...)
		}
		f.Bad = r.P(1)
		p.Files = append(p.Files, f)
	}
	nr := r.In(1, 4)
	if o.Big {
		nr = r.In(1, 8)
	}
	faulty := []int{20, 60, 90}[r.N(3)]
	for i := 0; i < nr; i++ {
		run := gnRun{G: r.N(3), Def: r.P(60), Intp: r.P(50)}
		if !def[run.G] && r.P(90) {
			for k := range def {
				if def[k] {
					run.G = k
				}
			}
		}
		if r.P(30) {
			run.Out = r.Str("out.go", "gen.txt", "sub/gen.go", "../gen.go")
		}
		if r.P(50) {
			run.Junk, run.JKind = []int{1, 20, 600}[r.N(3)], r.N(3)
		}
		if o.Prop == "P11" {
			run.Seeds = []uint64{1 + r.U64()%1e6, 1 + r.U64()%1e6, 1 + r.U64()%1e6}
		} else if r.P(faulty) {
			run.Faults = genOsFaults(r, nf+3, 1, 2*nf+6, []int{2, 8, 30}[r.N(3)])
			if r.P(15) {
				run.Faults[0] = osFault{r.Str("g", "u"), r.N(2), "errno", osErrnos[r.N(len(osErrnos))]}
			}
		}
		p.Runs = append(p.Runs, run)
	}
	return p
}

var genWorld = regWorld(&World{Name: "gen", Gen: genGen, New: func() interface{} { return new(genPlanT) }, Run: runGen, Limit: 40000000})
