package checks

import (
	"bytes"
	"fmt"
	gotok "go/token"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"verif/adapt"
	"verif/core"
	"verif/gen"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// stdout captures the standard output of one call at a time.
var stdout struct {
	sync.Mutex
	f *os.File
}

// capture is what f writes to os.Stdout.
func capture(dir string, f func()) []byte {
	stdout.Lock()
	defer stdout.Unlock()
	if stdout.f == nil {
		var err error
		if stdout.f, err = os.Create(filepath.Join(dir, "stdout")); err != nil {
			panic(err)
		}
	}
	if _, err := stdout.f.Seek(0, io.SeekStart); err != nil {
		panic(err)
	}
	real := os.Stdout
	os.Stdout = stdout.f
	f()
	os.Stdout = real
	n, err := stdout.f.Seek(0, io.SeekCurrent)
	if err != nil {
		panic(err)
	}
	b := make([]byte, n)
	if _, err := stdout.f.ReadAt(b, 0); err != nil && n > 0 {
		panic(err)
	}
	return b
}

// scanned is a token of the scanner with where the parser shows it.
type scanned struct {
	off  int
	tok  token.Token
	lit  string
	line string // line and column, as in the trace
}

// scanFor gives the tokens that the parser reads in a mode.
func scanFor(src []byte, m parser.Mode) (ts []scanned) {
	file := gotok.NewFileSet().AddFile("n.bib", -1, len(src))
	var sm scanner.Mode
	if m&parser.ParseComments != 0 {
		sm |= scanner.ScanComments
	}
	if m&parser.ParseStrings != 0 {
		sm |= scanner.ScanStrings
	}
	var s scanner.Scanner
	s.Init(file, src, nil, sm)
	for {
		pos, tok, lit := s.Scan()
		p := file.Position(pos)
		ts = append(ts, scanned{file.Offset(pos), tok, lit, fmt.Sprintf("%5d:%3d: ", p.Line, p.Column)})
		if tok == token.EOF || len(ts) > 2*len(src)+2 {
			return ts
		}
	}
}

// production is one of a trace: the tokens that are ahead where it starts and
// where it ends.
type production struct{ depth, from, to int }

// readTrace checks a trace against the tokens; done reports whether everything
// was read.
func readTrace(out []byte, ts []scanned) (ps []production, done bool, what string) {
	next := 0
	var open []int
	closed := false
	for n := 1; len(out) > 0; n++ {
		show := func(f string, a ...interface{}) string {
			return bad("line %d of the trace: %s\n%s", n, fmt.Sprintf(f, a...), clip(out))
		}
		if next >= len(ts) {
			next = len(ts) - 1 // the end of the file again
		}
		t := ts[next]
		if !bytes.HasPrefix(out, []byte(t.line)) {
			return nil, false, show("the next token, %s %q, is at %q", t.tok, t.lit, t.line)
		}
		rest := out[len(t.line):]
		dots := 0
		for bytes.HasPrefix(rest, []byte(". ")) {
			rest = rest[2:]
			dots++
		}
		if bytes.HasPrefix(rest, []byte(")\n")) {
			if len(open) == 0 {
				return nil, false, show("no production is open")
			}
			ps[open[len(open)-1]].to = next
			open = open[:len(open)-1]
			if dots != len(open) {
				return nil, false, show("indented by %d, but %d productions are open", dots, len(open))
			}
			closed = len(open) == 0
			out = rest[2:]
			continue
		}
		if dots != len(open) {
			return nil, false, show("indented by %d, but %d productions are open", dots, len(open))
		}
		if closed {
			return nil, false, show("the first production is closed")
		}
		name := t.tok.String()
		ok := false
		for _, form := range []string{name, strconv.Quote(name), name + " " + t.lit, name + ` "` + t.lit + `"`, name + " "} {
			shows := t.lit == "" || strings.Contains(form[min(len(name), len(form)):], t.lit) || !(t.tok.IsLiteral() || t.tok.IsStringLiteral())
			if shows && bytes.HasPrefix(rest, []byte(form+"\n")) {
				out = rest[len(form)+1:]
				ok = true
				break
			}
		}
		if ok {
			next++
			continue
		}
		if i := bytes.IndexByte(rest, '\n'); i > 2 && bytes.HasSuffix(rest[:i], []byte(" (")) && bytes.IndexByte(rest[:i-2], ' ') < 0 {
			open = append(open, len(ps))
			ps = append(ps, production{dots, next, -1})
			out = rest[i+1:]
			continue
		}
		return nil, false, show("want the token %s %q", name, t.lit)
	}
	if len(open) > 0 {
		return nil, false, bad("%d productions of the trace are open at its end", len(open))
	}
	return ps, next >= len(ts)-1, ""
}

// needed calls f for everything of a tree that a production reads.
func needed(f *ast.File, emit func(depth int, n ast.Node)) {
	var val func(x ast.Expr)
	val = func(x ast.Expr) {
		if c, ok := x.(*ast.ConcatExpr); ok {
			val(c.X)
			val(c.Y)
			return
		}
		emit(-1, x)
	}
	emit(0, f)
	for _, d := range f.Entries {
		emit(1, d)
		switch d := d.(type) {
		case *ast.AbbrevDecl:
			val(d.Tag.Value)
		case *ast.BibDecl:
			for _, t := range d.Tags {
				if !strings.EqualFold(t.RawName, "url") { // these have no production
					val(t.Value)
				}
			}
		case *ast.PreambleDecl:
			val(d.Text)
		}
	}
}

var traceModes = []parser.Mode{raw | parser.ParseComments, parsed, parsed | parser.ParseComments | parser.AllErrors}

func evalTrace(w *core.W, _ string, src []byte) string {
	for _, m := range traceModes {
		var f, g *ast.File
		var err, err2 error
		var p *adapt.Panic
		if quiet := capture(w.R.Scratch, func() {
			p = adapt.Guard(func() { f, err = parser.ParseFile(gotok.NewFileSet(), "n.bib", src, m) })
		}); p == nil && len(quiet) > 0 {
			return bad("mode %s: parsing without a trace prints %q", modeName(m), clip(quiet))
		}
		if p != nil {
			return "" // another property
		}
		out := capture(w.R.Scratch, func() {
			p = adapt.Guard(func() { g, err2 = parser.ParseFile(gotok.NewFileSet(), "n.bib", src, m|parser.Trace) })
		})
		if p != nil {
			return bad("mode %s: with a trace: %v", modeName(m), p)
		}
		w.Trace++
		if x, y := outcome(f, err), outcome(g, err2); x != y {
			return bad("mode %s: with a trace:\ngot  %s\nwant %s", modeName(m), clipStr(y), clipStr(x))
		}
		ts := scanFor(src, m)
		w.Trans += int64(len(ts))
		ps, done, what := readTrace(out, ts)
		if what != "" {
			return bad("mode %s: %s", modeName(m), what)
		}
		w.Outcome(out)
		if err != nil {
			continue
		}
		if !done {
			return bad("mode %s: the trace ends before the source:\n%s", modeName(m), clip(out))
		}
		type at struct{ depth, off int }
		starts := map[at]int{} // where the last one ends
		tops := 0
		for _, q := range ps {
			if q.depth == 1 {
				tops++
			}
			for _, d := range []int{-1, q.depth} {
				k := at{d, ts[q.from].off}
				starts[k] = max(starts[k], ts[min(q.to, len(ts)-1)].off)
			}
		}
		if tops != len(f.Entries) {
			return bad("mode %s: %d declarations, but the trace has %d:\n%s", modeName(m), len(f.Entries), tops, clip(out))
		}
		const base = 1
		needed(f, func(depth int, n ast.Node) {
			if depth == 0 || what != "" {
				return
			}
			end, ok := starts[at{depth, int(n.Pos()) - base}]
			if !ok || end < int(n.End())-base {
				what = bad("mode %s: no production of the trace reads the %T at %d..%d:\n%s", modeName(m), n, int(n.Pos())-base, int(n.End())-base, clip(out))
			}
		})
		if what != "" {
			return what
		}
	}
	return ""
}

// evalQuiet: aux is the numbers of two operations; the second prints nothing.
func evalQuiet(w *core.W, aux string, _ []byte) string {
	i, j := 0, 0
	fmt.Sscan(aux, &i, &j)
	own := filepath.Join(w.R.Scratch, fmt.Sprintf("own%d", w.ID))
	os.MkdirAll(own, 0o755)
	e := newEnv(filepath.Join(w.R.Scratch, "ops"), own, opDoc+opDoc2)
	capture(w.R.Scratch, func() { runOp(ops[i], e) })
	out := capture(w.R.Scratch, func() { runOp(ops[j], e)() })
	w.Trace++
	w.Trans += 2
	if len(out) > 0 {
		return bad("after %s, %s prints %q", ops[i].name, ops[j].name, clip(out))
	}
	return ""
}

func init() {
	reg(&core.Check{ID: "C29", Rule: "every source of the families in 3 modes with and without Trace, with standard output captured: the trace is read back and compared with the tokens of the scanner and with the tree; and every operation of C24, which has to print nothing",
		Run: func(r *core.Run) {
			fams := []gen.Fam{gen.Docs(r.Pick(2, 3)), gen.ValueDocs(1), gen.Vocab(), gen.URLDocs(1), gen.Layouts(1, 1), gen.Broken(1, 1), gen.Mutations(1)}
			fams = append(fams, gen.Comments(r.Pick(3, 4))...)
			fams = append(fams, gen.Lexical(gen.Contexts, r.Pick(2, 3))...)
			fams = append(fams, gen.Sequences(r.Pick(3, 4))...)
			runFams(r, fams, evalTrace)
			r.Par("deep", func(w *core.W) {
				for n := 1; n <= r.Pick(60, 200); n++ {
					w.Emit("", []byte("@a{k,x="+strings.Repeat("n # ", n)+"{a{b}}"+"}"))
					w.Emit("", []byte("@preamble{"+strings.Repeat("\"p\" # ", n)+"\n1}%c"))
					w.Emit("", []byte(strings.Repeat("\n", n*60)+strings.Repeat(" ", n*20)+"@string(s"+strings.Repeat("é", n)+"=1)"))
					w.Emit("", []byte(strings.Repeat("@a{k,x}\n", n)))
					for _, d := range []string{"@a{k,x=1}", "@a{k,1=2}", "@a{k,x=", "@a{k,x=}", "@a{k,x={\x00}}", "@string{}", "@string{s=", "@preamble{", "@preamble", "@comment{}", "x", "@a{k)", "@a{k,x=1 # \"\xff\" # "} {
						w.Emit("", []byte(strings.Repeat(d+"\n", n)))
					}
				}
			}, evalTrace)
			r.Par("long-literals", func(w *core.W) {
				for _, n := range []int{50, 255, 256, 257, 300, 1000, 1025, 4096, r.Pick(5000, 100000)} {
					for _, u := range []string{"a", "é", "1", " ", "%", "\\", "a b", "\"", "'", "{}"} {
						s := strings.Repeat(u, n)
						for _, c := range [][2]string{{"@", "{k}"}, {"@a{", ",x=1}"}, {"@a{k,", "=1}"}, {"@a{k,x=", "}"}, {"@a{k,x={", "}}"}, {"@a{k,x=\"", "\"}"}, {"@a{k,x={\\", "}}"}, {"@a{k,x={$", "$}}"}, {"@a{k,x={\\url{", "}}}"}, {"%", "\n@a{k}"}, {"", "@a{k}"}, {"@a{k}", ""}, {"@string{", "=1}"}, {"@preamble{{", "}}"}, {"@comment{", "}"}, {"@a{k,x=1 # ", " # 2}"}, {"@a{k,x={", ""}} {
							w.Emit("", []byte(c[0]+s+c[1]))
						}
					}
				}
			}, evalTrace)
			opFiles(filepath.Join(r.Scratch, "ops"), opDoc, opDoc2, opBad)
			r.ParChunk("quiet", 1, func(w *core.W) {
				for i, o := range ops {
					for j, x := range ops {
						if x.name != "parse-trace" && !strings.HasPrefix(x.name, "wide-trace") && !x.huge && !o.huge && (!o.slow && !x.slow || i == j) {
							w.Emit(fmt.Sprint(i, j), nil)
						}
					}
				}
			}, evalQuiet)
		}})
}
