package checks

import (
	"bytes"
	"fmt"
	gotok "go/token"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
	"time"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/rtx"

	"github.com/jschaf/bibtex/parser"
)

// The bound on the work: function calls and loop iterations. The largest number
// seen on any enumerated source is about a twentieth of it.
const (
	stepsPerByte = 160
	stepsConst   = 3000
)

var c01Modes = []parser.Mode{
	raw, parsed,
	parser.AllErrors | parser.ParseComments, parsed | parser.AllErrors,
	parser.DeclarationErrors | parser.Trace, parsed | parser.ParseComments | parser.DeclarationErrors | parser.Trace | parser.AllErrors,
}

var allModes = func() (ms []parser.Mode) {
	for m := parser.Mode(0); m < 32; m++ {
		ms = append(ms, m)
	}
	return
}()

type c01 struct {
	slot  [64]int // by worker; 0 if none
	ratio [64]int64
}

func (c *c01) reset() {
	rtx.Unregister()
	c.slot = [64]int{}
}

// enter registers the worker's goroutine for counting.
func (c *c01) enter(w *core.W) int {
	if c.slot[w.ID] == 0 {
		c.slot[w.ID] = rtx.Register() + 1
	}
	return c.slot[w.ID] - 1
}

func (c *c01) eval(modes []parser.Mode, w *core.W, src []byte) string {
	s := c.enter(w)
	limit := int64(stepsPerByte)*int64(len(src)) + stepsConst
	do := func(what string, limit int64, f func() string) string {
		var bad1 string
		rtx.Limit(s, limit)
		p := adapt.Guard(func() { bad1 = f() })
		n := rtx.Steps(s)
		rtx.Limit(s, 1<<60)
		w.Trace++
		w.Trans += n
		if p != nil {
			if rtx.Exceeded(p.V) {
				return bad("%s: more than %d steps for %d bytes", what, limit, len(src))
			}
			return bad("%s: %v", what, p)
		}
		if x := n * 1000 / limit; x > c.ratio[w.ID] {
			c.ratio[w.ID] = x
		}
		if bad1 != "" {
			return what + ": " + bad1
		}
		return ""
	}
	for _, m := range modes {
		m := m
		tl := limit
		if m&parser.Trace != 0 { // it indents every line by the depth
			tl += int64(len(src)) * int64(len(src)) / 8
		}
		if s := do("ParseFile in mode "+modeName(m), tl, func() string {
			f, err := parser.ParseFile(gotok.NewFileSet(), "", src, m)
			if f == nil {
				return bad("no tree (error: %v)", err)
			}
			var h [2]byte
			if err != nil {
				h[0] = 1
				if l, ok := adapt.ErrList(err); ok && len(l) < 256 {
					h[1] = byte(len(l))
				}
			} else if len(f.Entries) < 256 {
				h[1] = byte(len(f.Entries))
			}
			w.Outcome(h[:])
			return ""
		}); s != "" {
			return s
		}
	}
	if s := do("ParseExpr", limit, func() string {
		x, err := parser.ParseExpr(string(src))
		if x == nil && err == nil {
			return "neither an expression nor an error"
		}
		return ""
	}); s != "" {
		return s
	}
	if i := bytes.IndexByte(src, '='); i >= 0 && bytes.HasSuffix(src, []byte("}")) {
		if s := do("ParseExpr of the value", limit, func() string {
			x, err := parser.ParseExpr(string(src[i+1 : max(i+1, len(src)-1)]))
			if x == nil && err == nil {
				return "neither an expression nor an error"
			}
			return ""
		}); s != "" {
			return s
		}
	}
	for i, b := range bibers {
		b := b
		if s := do("Biber in mode "+modeName(bothModes[i]), limit, func() string {
			f, err := b.Parse(bytes.NewReader(src))
			if f == nil && err == nil {
				return "neither a file nor an error"
			}
			return ""
		}); s != "" {
			return s
		}
	}
	return ""
}

// deep are nests and chains around and far beyond any limit on nesting.

func deepFam(counts []int, chains int) gen.Fam {
	return gen.Fam{Name: "deep", Gen: func(f gen.F) bool {
		for _, n := range counts {
			for _, x := range gen.Nests {
				if !f(x.Do(n)) {
					return false
				}
				x.Close = ""
				if !f(x.Do(n)) {
					return false
				}
			}
			if n > chains {
				continue
			}
			for _, p := range gen.Pumps {
				switch p.Name {
				case "concats", "concat-strings", "hashes", "open-braces", "groups", "closers", "bad-entries", "accent-braces", "url-args":
					if !f(p.Do(n)) {
						return false
					}
				}
			}
		}
		return true
	}}
}

// work is the processor time of f and how much it allocates.
func work(f func()) (cpu time.Duration, alloc int64) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var m0, m1 runtime.MemStats
	var u0, u1 syscall.Rusage
	runtime.ReadMemStats(&m0)
	syscall.Getrusage(1, &u0) // this thread's
	f()
	syscall.Getrusage(1, &u1)
	runtime.ReadMemStats(&m1)
	t := func(u syscall.Rusage) time.Duration { return time.Duration(u.Utime.Nano() + u.Stime.Nano()) }
	return t(u1) - t(u0), int64(m1.TotalAlloc - m0.TotalAlloc)
}

var workMu sync.Mutex

// evalWork: aux is the number of a pump (or of a nest, from 1000). The work that
// steps don't count, within calls of the standard library: with eight times
// as much of the source the time and the memory are about eight times as much,
// and may be 24 times; quadratic ones are 64 times.
func (c *c01) evalWork(w *core.W, aux string, _ []byte) string {
	i := 0
	fmt.Sscan(aux, &i)
	gen1 := func(n int) []byte {
		if i >= 1000 {
			return gen.Nests[i-1000].Do(n)
		}
		return gen.Pumps[i].Do(n)
	}
	unit := max(1, (len(gen1(1100))-len(gen1(1000)))/100)
	n := (1 << 19) / unit
	if i >= 1000 {
		n = 96000 // deeper ones are errors
	}
	small, large := gen1(n/8), gen1(n)
	workMu.Lock()
	defer workMu.Unlock()
	s := c.enter(w)
	rtx.Limit(s, 1<<60)
	for _, e := range []struct {
		name string
		do   func(src []byte)
	}{
		{"ParseFile", func(src []byte) { parser.ParseFile(gotok.NewFileSet(), "", src, raw) }},
		{"ParseFile of everything", func(src []byte) {
			parser.ParseFile(gotok.NewFileSet(), "", src, parsed|parser.ParseComments|parser.AllErrors|parser.DeclarationErrors)
		}},
		{"ParseExpr", func(src []byte) {
			if i := bytes.IndexByte(src, '='); i >= 0 {
				src = bytes.TrimSuffix(src[i+1:], []byte("}"))
			}
			parser.ParseExpr(string(src))
		}},
		{"Biber.Parse", func(src []byte) { bibers[1].Parse(bytes.NewReader(src)) }},
	} {
		what := ""
		for try := 0; try < 4; try++ {
			var p *adapt.Panic
			run := func(src []byte) func() { return func() { p = adapt.Guard(func() { e.do(src) }) } }
			t1, a1 := work(run(small))
			t2, a2 := work(run(large))
			if p != nil {
				return bad("%s: %v", e.name, p)
			}
			w.Trace++
			w.Trans += 2
			what = ""
			if a2 > 24*a1+64<<20 {
				what = bad("%s allocates %d bytes for %d bytes of source, and %d for %d", e.name, a1, len(small), a2, len(large))
			}
			if t2 > 24*t1+500*time.Millisecond {
				what = bad("%s takes %v for %d bytes of source, and %v for %d", e.name, t1, len(small), t2, len(large))
			}
			if os.Getenv("VERIF_SHOW") != "" {
				fmt.Fprintf(os.Stderr, "work %s %s: %v %v, %d %d\n", aux, e.name, t1, t2, a1/int64(len(small)), a2/int64(len(large)))
			}
			if what == "" {
				break
			}
		}
		if what != "" {
			return what
		}
	}
	w.Outcome([]byte(aux))
	return ""
}

// exprFams enumerates expressions.
func exprFams(n int) []gen.Fam { return gen.Lexical(exprContexts, n) }

// sample returns the repository's large real bibliography, if it is there.
func sampleBib() []byte {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "parser/testdata/vldb.bib"))
	return b
}

// realFam has every run of lines of the sample between two entries, and every
// truncation of the first ones.
func realFam(entries, cut int) gen.Fam {
	return gen.Fam{Name: "real-bibliography", Gen: func(f gen.F) bool {
		b := sampleBib()
		if len(b) == 0 {
			return f([]byte("@a{k}"))
		}
		if !f(b) {
			return false
		}
		parts := bytes.Split(b, []byte("\n@"))
		for i, p := range parts {
			if i >= entries {
				break
			}
			e := append([]byte("@"), p...)
			if !f(e) {
				return false
			}
			if i < cut {
				for j := range e {
					if !f(e[:j:j]) {
						return false
					}
				}
				for j := range e {
					x := append([]byte{}, e...)
					for _, c := range []byte{'{', '}', '"', '\\', '$', ',', '%', '@', '#', '(', 0, 0xff} {
						x[j] = c
						if !f(x) {
							return false
						}
					}
				}
			}
		}
		return true
	}}
}

func init() {
	reg(&core.Check{
		ID:   "C01",
		Rule: "every source of the families, in several modes, through ParseFile, ParseExpr and Biber.Parse: no panic, a tree whenever the source could be read, and at most 160 steps (calls and loop iterations, counted by instrumentation) per byte plus 3000 (tracing, which indents by depth, also an eighth of a step per square byte); time and memory for every repeatable and nestable construct, of which eight times as much may take 24 times as much",
		Assumptions: []string{
			"work is counted as function calls and loop iterations of the library; the standard library's work per call is measured as time and memory, for the family \"work\" alone",
			"sources beyond 30 MB aren't tried",
		},
		Run: func(r *core.Run) {
			c := &c01{}
			run := func(fams []gen.Fam, modes []parser.Mode) {
				for _, f := range fams {
					c.reset()
					runFams(r, []gen.Fam{f}, func(w *core.W, _ string, src []byte) string { return c.eval(modes, w, src) })
					for _, x := range c.ratio {
						if x > r.Counts["max_permille_of_bound"] {
							r.Counts["max_permille_of_bound"] = x
						}
					}
				}
			}
			run([]gen.Fam{gen.Bytes(gen.Contexts)}, allModes)
			run([]gen.Fam{gen.PumpFam(r.Thorough())}, c01Modes)
			c.reset()
			counts := []int{99999, 100000, 100001, 4000000}
			if r.Thorough() {
				counts = []int{99998, 99999, 100000, 100001, 100002, 300000, 1000000, 4000000, 8000000}
			}
			for _, f := range []gen.Fam{deepFam(counts, r.Pick(100001, 1000000))} {
				r.ParChunk(f.Name, 1, func(w *core.W) { f.Gen(func(src []byte) bool { return w.Emit("", src) }) },
					func(w *core.W, _ string, src []byte) string { return c.eval(bothModes, w, src) })
			}
			c.reset()
			r.ParChunk("work", 1, func(w *core.W) {
				for i := range gen.Pumps {
					w.Emit(fmt.Sprint(i), nil)
				}
				for i := range gen.Nests {
					w.Emit(fmt.Sprint(1000+i), nil)
				}
			}, c.evalWork)
			run([]gen.Fam{gen.Mutations(1)}, c01Modes)
			run([]gen.Fam{gen.Docs(1), gen.ValueDocs(1), gen.URLDocs(1), gen.Broken(1, 1)}, allModes)
			run([]gen.Fam{gen.Docs(2), gen.ValueDocs(2), gen.Layouts(1, 1), gen.Broken(1, 2)}, bothModes)
			run(gen.Comments(r.Pick(3, 4)), bothModes)
			run([]gen.Fam{realFam(r.Pick(200, 100000), r.Pick(4, 40))}, bothModes)
			run(gen.Lexical(gen.Contexts, 2), allModes)
			run(exprFams(r.Pick(3, 4)), bothModes)
			run(gen.Sequences(r.Pick(3, 4)), c01Modes)
			run(gen.Lexical(gen.Contexts, 3), c01Modes)
			run([]gen.Fam{gen.OddWords(gen.Contexts, true), gen.BytePairs(gen.Contexts)}, bothModes)
			if r.Thorough() {
				run(gen.Sequences(5), bothModes)
				run([]gen.Fam{gen.Mutations(2)}, bothModes)
				run(gen.Lexical(gen.Contexts, 4), bothModes)
			}
		},
	})
}
