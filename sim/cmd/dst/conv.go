package main

// World "conv": sequences of tplconv invocations over generated grammars,
// inputs and templates, with failing file operations and crashes.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/qiniu/text/tpl/extractor"
)

type cvExt struct {
	Name string `json:"name"`
	Eng  exEng  `json:"eng"`
	Bad  string `json:"bad,omitempty"` // this text instead of the grammar
	None bool   `json:"none,omitempty"`
}

type cvTmpl struct {
	Name string `json:"name"`
	Kind int    `json:"kind"`
	Size int    `json:"size,omitempty"`
}

type cvFile struct {
	Name string   `json:"name"`
	Ext  int      `json:"ext"` // -1: the name is all there is
	Toks []string `json:"toks"`
	Lay  int      `json:"lay,omitempty"`
	Bad  string   `json:"bad,omitempty"`
	None bool     `json:"none,omitempty"`
}

type cvRun struct {
	Fmt    string    `json:"fmt,omitempty"`
	Ext    string    `json:"ext,omitempty"`
	Args   []int     `json:"args"`
	Junk   int       `json:"junk,omitempty"` // what the outputs held before
	Faults []osFault `json:"faults,omitempty"`
	Env    int       `json:"env,omitempty"`
}

type convPlan struct {
	Exts  []cvExt  `json:"exts"`
	Tmpls []cvTmpl `json:"tmpls"`
	Files []cvFile `json:"files"`
	Runs  []cvRun  `json:"runs"`
}

func (t *cvTmpl) text() string {
	pad := strings.Repeat("0123456789abcdef <b>x</b> padding\n", t.Size)
	return pad + []string{
		`<pre>{{json .}}</pre>`,
		`<ul>{{range $k, $v := .}}<li>{{$k}}: {{$v}}</li>
{{end}}</ul>`,
		`<script>var doc = {{.}};</script>`,
		`{{with .p}}<a href="{{.}}" title='{{.}}'>p</a>{{else}}none{{end}}{{len .}}`,
		`{{range $k, $v := .}}{{range $v}}<i>{{.}}</i>{{end}}{{end}}`, // fails on plain items
		`{{json .}} {{index .nosuch 3}}`,                              // fails when executed
		`{{.x`,                                                        // does not parse
		`{{nofunc .}}`,
		`{{if .p}}<a href="{{end}}{{.}}`, // cannot be escaped
		`{{define "t"}}<td>{{.}}</td>{{end}}<table>{{template "t" .}}{{template "t" (json .)}}</table>`,
		``,
	}[((t.Kind%11)+11)%11] + strings.Repeat(" tail", t.Size/2)
}

func (f *cvFile) path(p *convPlan) string {
	if f.Ext < 0 || f.Ext >= len(p.Exts) {
		return f.Name
	}
	return f.Name + "." + p.Exts[f.Ext].Name
}

func okName(s string) bool {
	if s == "" || strings.HasPrefix(s, "/") || strings.HasPrefix(s, "-") || strings.HasPrefix(s, "home") || strings.Contains(s, "..") {
		return false
	}
	return strings.IndexFunc(s, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '/' || r == '.' || r == '_' || r == ' ' || r == '-' || r == 'é')
	}) < 0 && filepath.Clean(s) == s
}

// cvDoc is what converting one input must give: a document, or a failure.
type cvDoc struct {
	doc  map[string]interface{}
	fail string
	skip bool
	bad  string // the library itself is wrong
}

func (p *convPlan) docOf(fi int) (d cvDoc) {
	f := &p.Files[fi]
	if f.None {
		return cvDoc{fail: "no such file"}
	}
	if f.Ext < 0 || f.Ext >= len(p.Exts) {
		return cvDoc{fail: "no format"}
	}
	x := &p.Exts[f.Ext]
	if x.None {
		return cvDoc{fail: "unknown format"}
	}
	if x.Bad != "" {
		return cvDoc{fail: "bad grammar"}
	}
	in := x.Eng.info()
	if !in.ok || !exMarksOK(x.Eng.Rules) {
		return cvDoc{skip: true}
	}
	t := newGText(f.Toks, f.Lay, "")
	m := &exModel{in: in, w: gWin{t, 0, len(t.toks)}}
	o := m.eval("doc")
	if o.kind == "budget" {
		return cvDoc{skip: true}
	}
	if f.Bad != "" {
		return cvDoc{fail: "no tokens"}
	}
	if o.kind != "ok" {
		return cvDoc{fail: o.kind}
	}
	e, err := extractor.New((&gEngine{Rules: x.Eng.Rules}).text(), nil)
	if err != nil {
		return cvDoc{bad: fmt.Sprint("extractor.New: ", err)}
	}
	doc, err := e.SafeParse([]byte(t.src), f.path(p))
	if err != nil {
		return cvDoc{bad: fmt.Sprintf("parsing %q: %v", t.src, err)}
	}
	if s := m.root.diff(doc, ""); s != "" {
		return cvDoc{bad: fmt.Sprintf("parsing %q: %s", t.src, s)}
	}
	return cvDoc{doc: doc}
}

func (p *convPlan) text(fi int) string {
	f := &p.Files[fi]
	s := newGText(f.Toks, f.Lay, "").src
	if f.Bad != "" {
		s += " " + f.Bad
	}
	return s
}

func canonJSON(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint("json: ", err)
	}
	var x interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		return fmt.Sprint("json: ", err)
	}
	return x
}

// want is the text of one output. JSON may be laid out in any way, so there it
// is the value.
type cvWant struct {
	html string
	json interface{}
	is   bool // JSON
}

// convert says what an output must hold, or why there must be none.
func (p *convPlan) convert(run *cvRun, d cvDoc) (w cvWant, fail string) {
	if d.fail != "" {
		return w, d.fail
	}
	f := run.Fmt
	if f == "" {
		f = "json"
	}
	switch filepath.Ext(f) {
	case "":
		if f != "json" {
			return w, "unknown output format"
		}
		return cvWant{json: canonJSON(d.doc), is: true}, ""
	case ".html", ".htm":
		for i := range p.Tmpls {
			if p.Tmpls[i].Name != f {
				continue
			}
			t, err := template.New(f).Funcs(template.FuncMap{"json": func(v interface{}) string {
				b, err := json.MarshalIndent(v, "", "  ")
				if err != nil {
					return err.Error()
				}
				return string(b)
			}}).Parse(p.Tmpls[i].text())
			if err != nil {
				return w, "template: " + err.Error()
			}
			var buf bytes.Buffer
			if err := t.Execute(&buf, d.doc); err != nil {
				return w, "template: " + err.Error()
			}
			return cvWant{html: buf.String()}, ""
		}
		return w, "no template"
	}
	return w, "unknown output format"
}

func checkOutputs(text string, ws []cvWant) string {
	if len(ws) > 0 && ws[0].is {
		d := json.NewDecoder(strings.NewReader(text))
		d.UseNumber()
		for i, w := range ws {
			var v interface{}
			if err := d.Decode(&v); err != nil {
				return fmt.Sprintf("document %d of %d cannot be read: %v: %q", i, len(ws), err, short(text, 200))
			}
			if !reflect.DeepEqual(v, w.json) {
				return fmt.Sprintf("document %d should be %v, is %v", i, w.json, v)
			}
		}
		var v interface{}
		if err := d.Decode(&v); err != io.EOF {
			return fmt.Sprintf("more than %d documents: %q", len(ws), short(text, 200))
		}
		return ""
	}
	var all string
	for _, w := range ws {
		all += w.html
	}
	if text != all {
		i := 0
		for i < len(text) && i < len(all) && text[i] == all[i] {
			i++
		}
		return fmt.Sprintf("should be %d bytes, is %d bytes, different at byte %d: %q, not %q", len(all), len(text), i, short(text[i:], 60), short(all[i:], 60))
	}
	return ""
}

func runConv(c *Ctx, pl interface{}) {
	p := pl.(*convPlan)
	names := map[string]bool{}
	exts := map[string]bool{}
	for _, x := range p.Exts {
		if !okName(x.Name) || strings.Contains(x.Name, "/") || strings.Contains(x.Name, ".") || exts[x.Name] {
			return
		}
		exts[x.Name] = true
	}
	for i := range p.Files {
		n := p.Files[i].path(p)
		if !okName(n) || names[n] {
			return
		}
		names[n] = true
	}
	for i := range p.Tmpls {
		if !okName(p.Tmpls[i].Name) || strings.Contains(p.Tmpls[i].Name, "/") || names["/"+p.Tmpls[i].Name] {
			return
		}
		names["/"+p.Tmpls[i].Name] = true
	}
	docs := make([]cvDoc, len(p.Files))
	for i := range p.Files {
		docs[i] = p.docOf(i)
		if docs[i].skip {
			c.Inc("skipped")
			return
		}
		if docs[i].bad != "" {
			c.Viol("wrong-output", "%s", docs[i].bad)
			return
		}
	}
	dir, aux, done := cmdDirs()
	defer done()
	for i := range p.Files {
		if !p.Files[i].None {
			writeFile(filepath.Join(dir, p.Files[i].path(p)), p.text(i))
		}
	}
	writeFile(filepath.Join(dir, "home/.tplconv/input/keep"), "keep")
	writeFile(filepath.Join(dir, "home/.tplconv/output/keep"), "keep")
	for _, x := range p.Exts {
		g := (&gEngine{Rules: x.Eng.Rules}).text()
		if x.Bad != "" {
			g = x.Bad
		}
		if !x.None {
			writeFile(filepath.Join(dir, "home/.tplconv/input", x.Name+".tpl"), g)
		}
	}
	for i := range p.Tmpls {
		writeFile(filepath.Join(dir, "home/.tplconv/output", p.Tmpls[i].Name), p.Tmpls[i].text())
	}
	for ri := range p.Runs {
		run := &p.Runs[ri]
		if strings.ContainsAny(run.Ext, "./ -") || strings.ContainsAny(run.Fmt, "/ -") || exts[run.Ext] {
			continue
		}
		var args []string
		if run.Fmt != "" {
			args = append(args, "-o", run.Fmt)
		}
		if run.Ext != "" {
			args = append(args, "-ext", run.Ext)
		}
		may := map[string]bool{} // files it may write
		wants := map[string]cvWant{}
		var std []cvWant
		fail := ""
		clash := false
		for _, fi := range run.Args {
			if fi < 0 || fi >= len(p.Files) {
				continue
			}
			in := p.Files[fi].path(p)
			args = append(args, in)
			w, f := p.convert(run, docs[fi])
			if f != "" && fail == "" {
				fail = f
			}
			if run.Ext != "" {
				out := in + "." + run.Ext
				if names[out] || docs[fi].fail == "no such file" && strings.Contains(in, "/") {
					clash = clash || names[out]
				}
				may[out] = true
				wants[out] = w
			} else {
				std = append(std, w)
			}
		}
		if clash {
			continue
		}
		if len(args) == 0 || len(may) == 0 && len(std) == 0 {
			fail = "no arguments"
		}
		if run.Junk > 0 {
			for _, n := range sortedSet(may) {
				if len(names) > 0 && !strings.Contains(n, "nodir") {
					writeFile(filepath.Join(dir, n), strings.Repeat("old contents. ", run.Junk))
				}
			}
		}
		before := treeOf(dir)
		ps := runProc(c, "tplconv", dir, aux, []string{"HOME=" + filepath.Join(dir, "home")}, args, run.Faults, 0)
		after := treeOf(dir)
		c.Logf("%d %v -> %s stdout %d bytes", ri, args, ps.desc(), len(ps.out))
		c.State("conv", ps.opsDigest(), ps.code)
		what := fmt.Sprintf("run %d: tplconv %s (faults %v): exit %d, stderr %q", ri, strings.Join(args, " "), ps.fired, ps.code, short(strings.ReplaceAll(ps.err, dir, ""), 160))
		if len(ps.fired) > 0 || fail != "" {
			c.NonTriv = true
		}
		if fail != "" {
			c.Inc("fault_input_" + strings.Fields(strings.ReplaceAll(fail, ":", ""))[0])
		}
		if ps.code == 97 {
			c.Viol("no-progress", "%s", what)
			break
		}
		if d := treeDiff(before, after, may); d != "" && !(ps.killed && strings.HasSuffix(d, " appeared")) {
			c.Viol("file-changed", "%s: %s", what, d)
			break
		}
		if ps.killed {
			c.Inc("killed")
			continue
		}
		if ps.code != 0 {
			if strings.TrimSpace(ps.err) == "" {
				c.Viol("silent-failure", "%s: nothing on standard error", what)
				break
			}
			if fail == "" && len(ps.fired) == 0 {
				c.Viol("refused", "%s: nothing is wrong with its input", what)
				break
			}
			c.Inc("reported_failures")
			continue
		}
		if fail != "" {
			c.Viol("accepted", "%s: it should have failed: %s", what, fail)
			break
		}
		c.Inc("successes")
		if len(ps.fired) > 0 {
			c.Inc("successes_in_spite_of_faults")
		}
		if run.Ext == "" {
			if d := checkOutputs(ps.out, std); d != "" {
				c.Viol("wrong-output", "%s: standard output %s", what, d)
				break
			}
			continue
		}
		if ps.out != "" {
			c.Viol("wrong-output", "%s: unexpected standard output %q", what, short(ps.out, 80))
		}
		for _, n := range sortedSet(may) {
			text, ok := after[n]
			if !ok {
				c.Viol("wrong-output", "%s: %s does not exist", what, n)
			} else if d := checkOutputs(text, []cvWant{wants[n]}); d != "" {
				c.Viol("wrong-output", "%s: %s %s", what, n, d)
			}
		}
		if len(c.Viols) > 0 {
			break
		}
	}
}

func modelOK(in *gInfo, toks []string) bool {
	t := newGText(toks, 0, "")
	m := &exModel{in: in, w: gWin{t, 0, len(t.toks)}}
	return m.eval("doc").kind == "ok"
}

func genConv(r *R, o GenOpt) interface{} {
	p := &convPlan{}
	nx := r.In(1, 3)
	n := 0
	extNames := []string{"aa", "b2", "cee"}
	if r.P(20) { // kinds of input that differ in their case only
		extNames = []string{"aa", "AA", "Aa"}
	}
	for i := 0; i < nx; i++ {
		x := cvExt{Name: extNames[i]}
		for try := 0; try < 30; try++ { // most grammars should have documents
			x.Eng = genExEng(r)
			x.Eng.Hook = false
			in := x.Eng.info()
			if modelOK(in, uniq(r, in, genToks(r, in, "doc", 0), &n)) {
				break
			}
		}
		if r.P(3) {
			x.Bad = r.Str("doc = ", "doc = (INT;", "aa = INT;", "doc = INT/x;", "doc = bb;", "doc = INT/a_Int; doc = CHAR;", "\"", " ")
		}
		x.None = r.P(2)
		p.Exts = append(p.Exts, x)
	}
	nt := r.N(3)
	for i := 0; i < nt; i++ {
		t := cvTmpl{Name: []string{"page.html", "p.htm"}[i], Kind: r.W(14, 14, 8, 8, 2, 2, 1, 1, 1, 8, 3)}
		if r.P(30) {
			t.Size = []int{3, 40, 2000}[r.N(3)]
		}
		p.Tmpls = append(p.Tmpls, t)
	}
	nf := r.In(1, 5)
	corrupt := []int{0, 5, 30}[r.N(3)]
	for i := 0; i < nf; i++ {
		f := cvFile{Name: r.Str("f", "f", "in/f", "d é/f", "f.b2.x", ".f") + fmt.Sprint(i), Ext: r.N(nx)}
		if r.P(4) {
			f.Ext = -1
		}
		ext := f.Ext
		if ext < 0 {
			ext = 0
		}
		in := p.Exts[ext].Eng.info()
		bad := r.P(corrupt)
		for try := 0; try < 30; try++ {
			f.Toks = uniq(r, in, genToks(r, in, "doc", corrupt), &n)
			if bad || modelOK(in, f.Toks) {
				break
			}
		}
		if r.P(40) {
			f.Lay = r.In(1, 1000)
		}
		if r.P(2) {
			f.Bad = r.Str("\"unterminated", "'", "`open", "/* open", "$")
		}
		if r.P(2) {
			f.None = true
		}
		p.Files = append(p.Files, f)
	}
	nr := r.In(2, 5)
	if o.Big {
		nr = r.In(2, 9)
	}
	var good []int
	for i := range p.Files {
		if f := &p.Files[i]; !f.None && f.Ext >= 0 && f.Bad == "" && modelOK(p.Exts[f.Ext].Eng.info(), f.Toks) {
			good = append(good, i)
		}
	}
	faulty := []int{15, 50, 80}[r.N(3)]
	for i := 0; i < nr; i++ {
		run := cvRun{}
		if r.P(65) {
			run.Ext = r.Str("out", "out", "json", "o2")
		}
		switch r.W(30, 20, 10+20*nt, 3) {
		case 1:
			run.Fmt = "json"
		case 2:
			run.Fmt = r.Str("page.html", "p.htm", "none.html")
			if nt > 0 && r.P(95) {
				run.Fmt = p.Tmpls[r.N(nt)].Name
			}
		case 3:
			run.Fmt = r.Str("xml", "page.php", "js", "html", ".", "JSON", "page.HTML", "json.x")
		}
		k := r.W(4, 40, 30, 20, 10)
		if r.P(4) {
			k = r.In(5, 20)
		}
		for j := 0; j < k; j++ {
			if len(good) > 0 && r.P(92) {
				run.Args = append(run.Args, good[r.N(len(good))])
			} else {
				run.Args = append(run.Args, r.N(nf))
			}
		}
		if r.P(35) {
			run.Junk = []int{1, 20, 9000}[r.N(3)]
		}
		if r.P(faulty) {
			run.Faults = genOsFaults(r, 3*k+1, k+1, 6*k+1, k*[]int{1, 1, 8}[r.N(3)]+1)
		}
		p.Runs = append(p.Runs, run)
	}
	return p
}

var convWorld = regWorld(&World{Name: "conv", Gen: genConv, New: func() interface{} { return new(convPlan) }, Run: runConv, Limit: 40000000})
