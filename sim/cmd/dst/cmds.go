package main

// Commands run as real processes whose file operations pass the simulated
// operating system (see sysseam), in a directory of their own.

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// osFault is one entry of the plan of the simulated operating system.
type osFault struct {
	Cls  string `json:"cls,omitempty"` // which operations are counted; "": all
	At   int    `json:"at"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

var osKinds = map[string]bool{"errno": true, "short": true, "torn": true, "full": true, "lost": true, "kill": true, "tkill": true}

func osPlan(fs []osFault) string {
	var out []string
	for _, f := range fs {
		if len(f.Cls) > 1 || !osKinds[f.Kind] || f.At < 0 {
			continue
		}
		if f.Kind == "errno" && f.Arg <= 0 {
			f.Arg = 5
		}
		out = append(out, fmt.Sprintf("%s%d:%s:%d", f.Cls, f.At, f.Kind, f.Arg))
	}
	return strings.Join(out, ",")
}

var osErrnos = []int{5, 28, 13, 2, 24, 23, 4, 122, 27, 30, 12, 11}

// genOsFaults makes the faults of one process that does about so many
// operations of each class.
func genOsFaults(r *R, nOpen, nCreate, nRead, nWrite int) (out []osFault) {
	n := r.W(55, 30, 15) + 1
	for ; n > 0; n-- {
		f := osFault{}
		switch r.W(14, 12, 12, 14, 14, 8, 8, 8, 5, 5) {
		case 0:
			f = osFault{"o", r.N(nOpen), "errno", osErrnos[r.N(len(osErrnos))]}
		case 1:
			f = osFault{"x", r.N(nCreate), "errno", osErrnos[r.N(len(osErrnos))]}
		case 2:
			f = osFault{"r", r.N(nRead), r.Str("errno", "short", "short"), 0}
			if f.Kind == "short" {
				f.Arg = r.In(1, 40)
				if r.P(50) { // and then the medium fails
					out = append(out, osFault{"r", f.At + 1, "errno", osErrnos[r.N(len(osErrnos))]})
				}
			} else {
				f.Arg = osErrnos[r.N(len(osErrnos))]
			}
		case 3:
			f = osFault{"w", r.N(nWrite), "errno", osErrnos[r.N(len(osErrnos))]}
		case 4:
			f = osFault{"w", r.N(nWrite), r.Str("torn", "full", "full"), r.In(0, 60)}
		case 5:
			f = osFault{"w", r.N(nWrite), "short", r.In(1, 60)}
		case 6:
			f = osFault{"f", r.N(nCreate), "lost", []int{1, 7, 4096}[r.N(3)]}
		case 7:
			f = osFault{r.Str("f", "f", "c"), r.N(nCreate + 2), "errno", osErrnos[r.N(len(osErrnos))]}
		case 8:
			f = osFault{"", r.N(3*nOpen + 2*nCreate + 2*nWrite), "kill", 0}
		default:
			f = osFault{"w", r.N(nWrite), "tkill", r.In(0, 60)}
		}
		out = append(out, f)
	}
	return
}

// proc is one finished process.
type proc struct {
	code   int // 137: killed by the plan
	out    string
	err    string
	ops    []string
	fired  []string // operations that failed, as in the log
	killed bool
}

func writeFile(name, text string) {
	if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
		die(err)
	}
	if err := os.WriteFile(name, []byte(text), 0644); err != nil {
		die(err)
	}
}

// treeOf is the contents of all files of a directory.
func treeOf(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			m[rel+"/"] = ""
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] = string(b)
		default:
			m[rel] = fi.Mode().String()
		}
		return nil
	})
	if err != nil {
		die(err)
	}
	return m
}

// treeDiff names what changed, except for the files in skip.
func treeDiff(a, b map[string]string, skip map[string]bool) string {
	ks := map[string]int{}
	for k := range a {
		ks[k]++
	}
	for k := range b {
		ks[k]++
	}
	for _, k := range sortedKeys(ks) {
		x, ok := a[k]
		y, ok2 := b[k]
		switch {
		case skip[k]:
		case !ok:
			return k + " appeared"
		case !ok2:
			return k + " is gone"
		case x != y:
			return fmt.Sprintf("%s changed from %q to %q", k, short(x, 60), short(y, 60))
		}
	}
	return ""
}

const procSteps = 20000000

// runProc runs a command of the repository in dir, with its files outside in aux.
func runProc(c *Ctx, bin, dir, aux string, env []string, args []string, faults []osFault, mapSeed uint64) *proc {
	ctx, cancel := context.WithTimeout(context.Background(), 45*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VSIM_BIN"), bin), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"VSIM_PLAN=" + osPlan(faults), "VSIM_LOG=3", fmt.Sprintf("VSIM_STEPS=%d", procSteps), fmt.Sprintf("VSIM_MAPSEED=%d", mapSeed), "GOMAXPROCS=1", "PWD=" + dir}, env...)
	var fs []*os.File
	for _, n := range []string{"out", "err", "log"} {
		f, err := os.Create(filepath.Join(aux, n))
		if err != nil {
			die(err)
		}
		fs = append(fs, f)
	}
	cmd.Stdout, cmd.Stderr, cmd.ExtraFiles = fs[0], fs[1], fs[2:3]
	err := cmd.Run()
	for _, f := range fs {
		f.Close()
	}
	if cmd.ProcessState == nil {
		die("cannot run", bin, err)
	}
	if ctx.Err() != nil {
		die(bin, "did not end")
	}
	p := &proc{code: cmd.ProcessState.ExitCode()}
	rd := func(n string) string {
		b, err := os.ReadFile(filepath.Join(aux, n))
		if err != nil {
			die(err)
		}
		return string(b)
	}
	p.out, p.err = rd("out"), rd("err")
	for _, l := range strings.Split(strings.TrimSuffix(rd("log"), "\n"), "\n") {
		l = strings.ReplaceAll(l, dir, "")
		if l == "" {
			continue
		}
		p.ops = append(p.ops, l)
		if i := strings.Index(l, " FAULT "); i > 0 {
			p.fired = append(p.fired, l)
			k := strings.Fields(l[i+7:])[0]
			op := strings.Fields(l)[1]
			c.Inc("fault_" + op + "_" + k)
			if k == "kill" || k == "tkill" {
				p.killed = true
			}
		}
	}
	c.Inc("processes")
	c.Cnt["file_operations"] += len(p.ops)
	return p
}

// desc describes how a process ended, without anything that differs between runs.
func (p *proc) desc() string {
	return fmt.Sprintf("exit %d, faults %v", p.code, p.fired)
}

func (p *proc) opsDigest() uint64 {
	var l []string
	for _, o := range p.ops {
		if f := strings.Fields(o); len(f) > 1 {
			s := f[1]
			if i := strings.Index(o, " FAULT "); i > 0 {
				s += o[i:]
			}
			l = append(l, s)
		}
	}
	return hash(l)
}

// sandbox makes the directory of a run, and one beside it for its records.
func cmdDirs() (dir, aux string, done func()) {
	base := os.Getenv("VSIM_SCRATCH")
	if base == "" {
		die("VSIM_SCRATCH not set")
	}
	top, err := os.MkdirTemp(base, "cmd")
	if err != nil {
		die(err)
	}
	dir, aux = filepath.Join(top, "d"), filepath.Join(top, "aux")
	for _, d := range []string{dir, aux} {
		if err := os.Mkdir(d, 0755); err != nil {
			die(err)
		}
	}
	return dir, aux, func() { os.RemoveAll(top) }
}

func sortedSet(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
