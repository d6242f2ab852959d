package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/adapt"
	"verif/core"
	"verif/ref"
	"verif/rtx"

	gotok "go/token"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// An opSet is a set of operations on documents of one size.
type opSet struct {
	name string
	ops  []op
	doc  string
	bad  string
	doc2 string
}

var opSets = []*opSet{
	{name: "small", doc: `@a{k,author={A B and {C} D},title={T {\'e}\&~$x$ \url{h}},x=n#"y"}`,
		doc2: `@b{l,title={U "q" \_},author={X Y}}`},
	{name: "tiny", doc: `@a{k,author={A and B},title="\&",x=n}`,
		doc2: `@b{l,title="q",author={X}}`},
	{name: "huge", doc: "@a{k,title={t}}", doc2: "@b{l}", bad: "@", ops: hugeOps},
	{name: "wide", doc: "@a{k,title={t}}", doc2: "@b{l}", bad: "@", ops: wideOps},
}

func init() {
	for _, s := range opSets {
		if s.ops != nil {
			all := s.ops
			s.ops = nil
			for _, o := range all {
				if !o.hist {
					s.ops = append(s.ops, o)
				}
			}
			continue
		}
		doc3 := strings.NewReplacer("X", "Z", "q", "p").Replace(s.doc2)
		s.bad = "@a{k}@b{j,x=\"} }"
		errs := 3
		deep := "@a{k,x={a{b{\\&}}}}"
		if s.name == "tiny" {
			errs, deep = 2, "@a{k,x={{{}}}}"
		}
		for _, o := range makeOps(s.doc, s.doc2, doc3, deep, errs) {
			if !o.slow && !o.hist && o.name != "parse-many-errors" && o.name != "authors-many" {
				s.ops = append(s.ops, o)
			}
		}
		doc2 := s.doc2
		s.ops = append(s.ops, op{name: "parse-shared-set", run: func(e *opEnv) func() string {
			f, err := parser.ParseFile(e.fset, "set.bib", doc2, parsed)
			return func() string {
				if f == nil {
					return errText(err)
				}
				g := e.fset.File(f.Entries[0].Pos())
				if g == nil {
					return "the position of the file is in no file"
				}
				p := e.fset.Position(f.Entries[0].Pos())
				c := adapt.Conv{Base: g.Base()}
				return fmt.Sprint(g.Name(), g.Size(), p.Line, p.Column, string(ref.AppendDoc(nil, c.File(f), ref.DPos|ref.DRaw|ref.DDoc))) + errText(err)
			}
		}})
	}
}

// some are operations that use most of the library, for the deeper searches.
var someOps = []string{"parse", "parse-2", "resolve", "resolve-full", "render", "render-own", "text", "accents", "authors", "expr", "scan", "parse-shared-set"}

func (s *opSet) index(name string) int {
	for i, o := range s.ops {
		if o.name == name {
			return i
		}
	}
	panic(name)
}

func setByName(n string) *opSet {
	for _, s := range opSets {
		if s.name == n {
			return s
		}
	}
	panic(n)
}

// quoteAll quotes strings, which may be invalid UTF-8.
func quoteAll(ss []string) (qs []string) {
	for _, s := range ss {
		qs = append(qs, strconv.Quote(s))
	}
	return
}

// alone runs one operation on fresh values.
func (s *opSet) alone(i int, dir string) string {
	own, _ := os.MkdirTemp(dir, "own")
	defer os.RemoveAll(own)
	return runOp(s.ops[i], newEnv(filepath.Join(dir, s.name), own, s.doc))()
}

// A job is what the child processes do.
type job struct {
	Set    string
	Ops    []int // an operation for each thread
	Step   bool  // points at calls and iterations only, not at every statement
	Bound  int
	Picked int     // only that many points, spread over the run
	Only   []int64 `json:",omitempty"` // run only this schedule
	One    bool
}

type jobResult struct {
	Tick      bool
	Schedules int64
	Points    int64
	Taken     int
	Fail      string
}

type jobFiles struct{ dir string }

func (f jobFiles) base(set string) string { return filepath.Join(f.dir, "base-"+set+".json") }

// schedMain runs jobs from the standard input.
func schedMain(args []string) int {
	dir := args[0]
	out := json.NewEncoder(os.Stdout)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		null.Close()
		os.Stdout = null
	}
	runtime.GOMAXPROCS(1)
	base := map[string][]string{}
	for _, s := range opSets {
		var b []string
		data, err := os.ReadFile(jobFiles{dir}.base(s.name))
		if err == nil {
			err = json.Unmarshal(data, &b)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for i := range b {
			b[i], _ = strconv.Unquote(b[i])
		}
		base[s.name] = b
	}
	s2, s3 := newScheduler(2), newScheduler(3)
	var owns [3]string
	for i := range owns {
		owns[i], _ = os.MkdirTemp(dir, "own")
		defer os.RemoveAll(owns[i])
	}
	in := json.NewDecoder(os.Stdin)
	for {
		var j job
		if err := in.Decode(&j); err != nil {
			return 0
		}
		set := setByName(j.Set)
		sch := s2
		if len(j.Ops) == 3 {
			sch = s3
		}
		sch.stepOnly = j.Step
		sch.fair = fairness
		if set.name == "huge" {
			sch.fair = 1 << 33
		}
		tree := false
		for _, o := range j.Ops {
			tree = tree || needsTree(set, o)
		}
		fs := make([]func(), len(j.Ops))
		shows := make([]func() string, len(j.Ops))
		body := func() ([]func(), func() string) {
			doc := ""
			if tree {
				doc = set.doc
			}
			e := newEnv(filepath.Join(dir, set.name), owns[0], doc)
			for i, o := range j.Ops {
				i, o := i, o
				x := *e
				x.own = owns[i]
				if i > 0 && tree { // trees aren't shared
					x.tree = newTree(doc)
				}
				shows[i] = nil
				fs[i] = func() { shows[i] = runOp(set.ops[o], &x) }
			}
			return fs, func() string {
				for i, o := range j.Ops {
					if shows[i] == nil {
						return bad("thread %d (%s) didn't end", i, set.ops[o].name)
					}
					if got := shows[i](); got != base[set.name][o] {
						return bad("thread %d (%s) gives\n%s\nalone it gives\n%s", i, set.ops[o].name, clipStr(got), clipStr(base[set.name][o]))
					}
				}
				return ""
			}
		}
		var res jobResult
		if j.One {
			fs, check := body()
			sch.run(j.Only, fs)
			res.Schedules, res.Points, res.Taken = 1, sch.points, sch.taken
			if res.Fail = check(); res.Fail == "" {
				res.Fail = sch.dead
			}
			if res.Fail != "" {
				res.Fail = fmt.Sprintf("schedule %v: %s", j.Only, res.Fail)
			}
		} else if j.Picked > 0 {
			res.Schedules, res.Points, res.Fail = sch.explorePicked(j.Picked, body, func(n, p int64) {
				out.Encode(jobResult{Tick: true, Schedules: n, Points: p})
			})
		} else {
			res.Schedules, res.Points, res.Fail = sch.explore(j.Bound, body, func(n, p int64) {
				out.Encode(jobResult{Tick: true, Schedules: n, Points: p})
			})
		}
		if out.Encode(res) != nil {
			return 0
		}
	}
}

func needsTree(s *opSet, i int) bool {
	n := s.ops[i].name
	return strings.HasPrefix(n, "render") || strings.HasPrefix(n, "text") || n == "authors" || n == "walk-stop" || n == "resolve-shared"
}

// A schedProc is a child process that explores schedules.
type schedProc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	w   io.Closer
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startSched(dir string) (*schedProc, error) {
	p := &schedProc{cmd: exec.Command(os.Args[0], "aux", "sched", dir), err: &tail{}}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.cmd.Stderr = p.err
	w, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.in, p.w, p.out = json.NewEncoder(w), w, bufio.NewReader(r)
	return p, p.cmd.Start()
}

func (p *schedProc) stop() {
	p.w.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// do runs a job. Schedules are counted even if the job is cut short.
func (p *schedProc) do(w *core.W, j job) (jobResult, string) {
	if err := p.in.Encode(j); err != nil {
		p.cmd.Wait()
		return jobResult{}, fmt.Sprintf("the process ended: %s", p.err)
	}
	var last jobResult
	for {
		l, err := p.out.ReadBytes('\n')
		var r jobResult
		if err == nil {
			err = json.Unmarshal(l, &r)
		}
		if err != nil {
			p.cmd.Wait()
			return last, fmt.Sprintf("the process ended (%v) after %d schedules:\n%s", p.cmd.ProcessState, last.Schedules, p.err)
		}
		if !r.Tick {
			return r, r.Fail
		}
		last = r
		w.Tick()
		if w.Stopped() {
			last.Fail = "stopped"
			return last, ""
		}
	}
}

type c23 struct {
	dir   string
	procs [64]*schedProc
	cut   atomic.Int64
}

func (c *c23) evalJob(w *core.W, aux string, _ []byte) string {
	var j job
	if err := json.Unmarshal([]byte(aux), &j); err != nil {
		return err.Error()
	}
	p := c.procs[w.ID]
	if p == nil {
		var err error
		if p, err = startSched(c.dir); err != nil {
			fmt.Fprintln(os.Stderr, "can't start a process:", err)
			os.Exit(3)
		}
		c.procs[w.ID] = p
	}
	r, fail := p.do(w, j)
	w.Trace += r.Schedules
	w.Trans += r.Points
	w.Count("schedules", r.Schedules)
	w.Outcome([]byte(aux))
	if fail != "" || r.Fail != "" || j.One {
		p.stop()
		c.procs[w.ID] = nil
	}
	if r.Fail == "stopped" {
		c.cut.Add(1)
		return ""
	}
	if fail != "" {
		return fmt.Sprintf("threads %s: %s", jobNames(j), fail)
	}
	return ""
}

// evalFirst explores the schedules of a pair with one preemption, each in a
// process in which nothing ran before.
func (c *c23) evalFirst(w *core.W, aux string, _ []byte) string {
	var j job
	if err := json.Unmarshal([]byte(aux), &j); err != nil {
		return err.Error()
	}
	j.One = true
	for p := int64(0); ; p++ {
		j.Only = nil
		if p > 0 {
			j.Only = []int64{p}
		}
		sp, err := startSched(c.dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, "can't start a process:", err)
			os.Exit(3)
		}
		w.Tick()
		r, fail := sp.do(w, j)
		sp.stop()
		w.Trace += r.Schedules
		w.Trans += r.Points
		w.Count("schedules", r.Schedules)
		w.Count("processes", 1)
		if fail != "" {
			return fmt.Sprintf("in a fresh process, threads %s: %s", jobNames(j), fail)
		}
		if p > 0 && r.Taken == 0 {
			w.Outcome([]byte(aux))
			return ""
		}
		if w.Stopped() {
			c.cut.Add(1)
			return ""
		}
	}
}

func jobNames(j job) string {
	var s []string
	for _, i := range j.Ops {
		s = append(s, setByName(j.Set).ops[i].name)
	}
	return strings.Join(s, ", ")
}

// raceMain runs two operations on two threads, in a binary with the race
// detector: one after the other in time, without telling the detector so, and
// at the same time.
func raceMain(args []string) int {
	if len(args) == 0 {
		return 0
	}
	var j job
	if err := json.Unmarshal([]byte(args[1]), &j); err != nil {
		return 2
	}
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		null.Close()
		os.Stdout = null
	}
	dir := args[0]
	set := setByName(j.Set)
	var owns [2]string
	for i := range owns {
		owns[i], _ = os.MkdirTemp(dir, "own")
		defer os.RemoveAll(owns[i])
	}
	var res []string
	for round := 0; round < 3; round++ {
		e := newEnv(filepath.Join(dir, set.name), owns[0], set.doc)
		f := *e
		f.own, f.tree = owns[1], newTree(set.doc)
		es := []*opEnv{e, &f}
		shows := make([]func() string, 2)
		var wg sync.WaitGroup
		turn = 0
		for i := range j.Ops {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				runtime.LockOSThread()
				if round == 0 && i == 1 {
					waitTurn()
				}
				shows[i] = runOp(set.ops[j.Ops[i]], es[i])
				if i == 0 {
					giveTurn()
				}
			}()
		}
		wg.Wait()
		for _, s := range shows {
			res = append(res, fmt.Sprintf("%q", s()))
		}
	}
	json.NewEncoder(out).Encode(res)
	return 0
}

var turn int

// waitTurn and giveTurn order two threads in time only.
//
//go:norace
func waitTurn() {
	for turn == 0 {
		time.Sleep(20 * time.Microsecond)
	}
}

//go:norace
func giveTurn() { turn = 1 }

func newTree(doc string) *ast.File {
	f, _ := parser.ParseFile(gotok.NewFileSet(), "shared.bib", doc, parsed|parser.ParseComments)
	return f
}

func (c *c23) evalRace(base map[string][]string, bin string) func(w *core.W, aux string, _ []byte) string {
	return func(w *core.W, aux string, _ []byte) string {
		var j job
		if err := json.Unmarshal([]byte(aux), &j); err != nil {
			return err.Error()
		}
		cmd := exec.Command(bin, "aux", "race", c.dir, aux)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		w.Count("race_executions", 3)
		w.Trace += 3
		w.Outcome([]byte("race" + aux))
		if err != nil {
			return bad("threads %s: %v\n%s", jobNames(j), err, clipStr(errb.String()))
		}
		var res []string
		if err := json.Unmarshal(out.Bytes(), &res); err != nil {
			return bad("threads %s: %v\n%s", jobNames(j), err, clipStr(errb.String()))
		}
		for i, got := range res {
			if o := j.Ops[i%2]; got != fmt.Sprintf("%q", base[j.Set][o]) {
				return bad("threads %s: at the same time, %s gives\n%s\nalone it gives\n%s", jobNames(j), setByName(j.Set).ops[o].name, clipStr(got), clipStr(base[j.Set][o]))
			}
		}
		return ""
	}
}

func init() {
	auxMains["sched"] = schedMain
	auxMains["race"] = raceMain
	auxMains["op23"] = func(args []string) int {
		out := os.Stdout
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			null.Close()
			os.Stdout = null
		}
		var i int
		fmt.Sscan(args[2], &i)
		io.WriteString(out, setByName(args[1]).alone(i, args[0]))
		return 0
	}
	reg(&core.Check{
		ID:   "C23",
		Rule: "every pair (ordered) of some 50 operations on two threads that share a Biber, resolvers, a renderer and a file set; preemption possible before every statement of the library (instrumented copy), one thread running at a time; every schedule with one preemption; with two preemptions on smaller documents and at calls and loop iterations; for some pairs every schedule in a process of its own; every result compared with that of the operation alone in a fresh process. In addition every pair in a fresh process under the race detector, ordered in time without a synchronising edge, and at the same time",
		Assumptions: []string{
			"scheduling points are before statements and in package sync; a statement of the library is taken to be indivisible, which the race detector's runs make up for",
			"the standard library's own synchronisation is trusted",
		},
		Run: func(r *core.Run) {
			c := &c23{dir: filepath.Join(r.Scratch, "ops")}
			defer func() {
				for _, p := range c.procs {
					if p != nil {
						p.stop()
					}
				}
			}()
			base := map[string][]string{}
			for _, s := range opSets {
				opFiles(filepath.Join(c.dir, s.name), s.doc, s.doc2, s.bad)
				res := make([]string, len(s.ops))
				var wg sync.WaitGroup
				sem := make(chan bool, runtime.NumCPU())
				for i := range s.ops {
					i := i
					wg.Add(1)
					sem <- true
					go func() {
						defer func() { <-sem; wg.Done() }()
						b, err := exec.Command(os.Args[0], "aux", "op23", c.dir, s.name, fmt.Sprint(i)).Output()
						if err != nil {
							fmt.Fprintln(os.Stderr, "fresh process:", s.ops[i].name, err)
						}
						res[i] = string(b)
					}()
				}
				wg.Wait()
				base[s.name] = res
				b, _ := json.Marshal(quoteAll(res))
				if err := os.WriteFile(jobFiles{c.dir}.base(s.name), b, 0o644); err != nil {
					panic(err)
				}
			}
			if os.Getenv("VERIF_SHOW") != "" {
				for i, o := range opSets[0].ops {
					fmt.Fprintf(os.Stderr, "%d %s: %s\n", i, o.name, clipStr(base["small"][i]))
				}
			}
			all := func(s *opSet) (ns []int) {
				for i := range s.ops {
					ns = append(ns, i)
				}
				return
			}
			some := func(s *opSet, names []string) (ns []int) {
				for _, n := range names {
					ns = append(ns, s.index(n))
				}
				return
			}
			pairs := func(s *opSet, ns, ms []int, step bool, bound int) func(w *core.W) {
				return func(w *core.W) {
					for _, i := range ns {
						for _, k := range ms {
							b, _ := json.Marshal(job{Set: s.name, Ops: []int{i, k}, Step: step, Bound: bound})
							if !w.Emit(string(b), nil) {
								return
							}
						}
					}
				}
			}
			small, tiny, huge, wide := opSets[0], opSets[1], opSets[2], opSets[3]
			// Two operations of one kind with other texts; and two neighbours.
			wides := func(sched bool) func(w *core.W) {
				return func(w *core.W) {
					n := len(wide.ops)
					for i := 0; i < n; i++ {
						for _, k := range []int{i ^ 1, (i + 3) % n, (i + 25) % n} {
							j := job{Set: wide.name, Ops: []int{i, k}, Bound: 1}
							if sched && k != i^1 && !r.Thorough() {
								j.Step = true
							}
							b, _ := json.Marshal(j)
							if !w.Emit(string(b), nil) {
								return
							}
						}
					}
				}
			}
			if bin := os.Getenv("VERIF_RACE_BIN"); bin != "" {
				if err := exec.Command(bin, "aux", "race").Run(); err != nil {
					fmt.Fprintln(os.Stderr, "warning: no race detector:", err)
				} else {
					r.ParChunk("race-wide", 1, wides(false), c.evalRace(base, bin))
					r.ParChunk("race-detector", 1, pairs(small, all(small), all(small), false, 0), c.evalRace(base, bin))
				}
			}
			if !rtx.Available {
				fmt.Fprintln(os.Stderr, "warning: the library couldn't be instrumented")
				r.NotExh = true
				return
			}
			r.ParChunk("fresh-processes", 1, pairs(tiny, some(tiny, someOps[:r.Pick(8, len(someOps))]), some(tiny, someOps[:r.Pick(8, len(someOps))]), !r.Thorough(), 1), c.evalFirst)
			r.ParChunk("one-preemption", 1, pairs(small, all(small), all(small), false, 1), c.evalJob)
			r.ParChunk("one-preemption-wide", 1, wides(true), c.evalJob)
			r.ParChunk("two-preemptions-some", 1, pairs(tiny, some(tiny, someOps), some(tiny, someOps), !r.Thorough(), 2), c.evalJob)
			r.ParChunk("huge", 1, func(w *core.W) {
				for i := range huge.ops {
					for k := range huge.ops {
						if !r.Thorough() && i != k && (i+k)%6 != 0 {
							continue
						}
						b, _ := json.Marshal(job{Set: huge.name, Ops: []int{i, k}, Step: true, Picked: r.Pick(2, 4)})
						if !w.Emit(string(b), nil) {
							return
						}
					}
				}
			}, c.evalJob)
			if r.Thorough() {
				r.ParChunk("three-threads", 1, func(w *core.W) {
					ns := some(tiny, someOps)
					for _, i := range ns {
						for _, k := range ns {
							for _, l := range ns {
								b, _ := json.Marshal(job{Set: tiny.name, Ops: []int{i, k, l}, Step: true, Bound: 1})
								if !w.Emit(string(b), nil) {
									return
								}
							}
						}
					}
				}, c.evalJob)
				r.ParChunk("two-preemptions", 1, pairs(tiny, all(tiny), all(tiny), true, 2), c.evalJob)
				r.ParChunk("three-preemptions", 1, pairs(tiny, some(tiny, someOps[:8]), some(tiny, someOps[:8]), true, 3), c.evalJob)
			}
			if c.cut.Load() > 0 {
				r.NotExh = true
			}
			r.Note("cut_short", c.cut.Load())
		},
	})
}
