package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// walkRoots are all sorts of nodes that can be walked.
const walkRoots = adapt.SExpr + "lLKUVWXt" + adapt.SDecl + adapt.SFile + "p"

var deviations = []answer{{st: ast.WalkStop}, {st: ast.WalkSkipChildren}, {ast.WalkContinue, true, nil}, {ast.WalkStop, true, nil}, {ast.WalkSkipChildren, true, nil}}

// explore runs a walk with every sequence of answers that deviates from
// 'continue' at most dev times, compared with the model. do runs the
// implementation with an answering walker, and returns its error.
func explore(w *core.W, root ast.Node, dev int, do func(walker func(n ast.Node, enter bool) answer) error) string {
	return exploreAt(w, root, dev, func(i, n int) bool { return true }, rotate, false, do)
}

// rotate chooses the error of call i.
func rotate(i int) error { return failErrs[(i*7+i/3)%len(failErrs)] }

// someCalls chooses calls of a long walk: all of a short one.
func someCalls(i, n int) bool {
	return n < 200 || i < 8 || i >= n-8 || i >= n/2-2 && i <= n/2+2 || i&(i-1) == 0
}

// exploreAt is explore with deviations only at some of the n calls. The error
// that is the answer to call i is pick(i); asIs means that it must be returned
// as it is.
func exploreAt(w *core.W, root ast.Node, dev int, at func(i, n int) bool, pick func(i int) error, asIs bool, do func(walker func(n ast.Node, enter bool) answer) error) string {
	dev1 := map[int]answer{}
	var want, got []call
	var run func(from, left int) string
	run = func(from, left int) string {
		ans := func(i int) answer {
			if a, ok := dev1[i]; ok {
				return a
			}
			return answer{st: ast.WalkContinue}
		}
		var failed bool
		want, _, failed = walkModel(root, ans, want[:0])
		got = got[:0]
		var err, gave error
		if p := adapt.Guard(func() {
			err = do(func(n ast.Node, enter bool) answer {
				i := len(got)
				got = append(got, mkCall(n, enter))
				a := ans(i)
				if a.err {
					a.e = pick(i)
					gave = a.e
				}
				return a
			})
		}); p != nil {
			return bad("answers %v: %v", dev1, p)
		}
		w.Trace++
		w.Trans += int64(len(want))
		if left == dev {
			var b []byte
			for _, c := range got {
				b = append(b, c.typ...)
			}
			w.Outcome(b)
		}
		if s := sameCalls(want, got); s != "" {
			return bad("answers %v: %s", dev1, s)
		}
		if failed && (asIs && err != gave || !isErr(err, gave)) || !failed && err != nil {
			return bad("answers %v, error %T %v: result is %T %v", dev1, gave, gave, err, err)
		}
		if left == 0 {
			return ""
		}
		n := len(want)
		for i := from; i < n; i++ {
			if !at(i, n) {
				continue
			}
			for _, a := range deviations {
				dev1[i] = a
				s := run(i+1, left-1)
				delete(dev1, i)
				if s != "" {
					return s
				}
			}
		}
		return ""
	}
	return run(0, dev)
}

// everyAnswer runs walks that always answer the same on entering, on leaving.
func everyAnswer(w *core.W, root ast.Node, do func(walker func(n ast.Node, enter bool) answer) error) string {
	for _, e := range []ast.WalkStatus{ast.WalkContinue, ast.WalkSkipChildren} {
		for _, l := range []ast.WalkStatus{ast.WalkContinue, ast.WalkSkipChildren} {
			var got []call
			var model func(n ast.Node, cs []call) []call
			model = func(n ast.Node, cs []call) []call {
				cs = append(cs, mkCall(n, true))
				if e != ast.WalkSkipChildren {
					for _, k := range kids(n) {
						cs = model(k, cs)
					}
				}
				return append(cs, mkCall(n, false))
			}
			err := do(func(n ast.Node, enter bool) answer {
				got = append(got, mkCall(n, enter))
				if enter {
					return answer{st: e}
				}
				return answer{st: l}
			})
			w.Trace++
			if err != nil {
				return err.Error()
			}
			if s := sameCalls(model(root, nil), got); s != "" {
				return bad("always %v on entering, %v on leaving: %s", e, l, s)
			}
		}
	}
	return ""
}

func walkWith(root ast.Node, exact bool) func(func(n ast.Node, enter bool) answer) error {
	return func(f func(n ast.Node, enter bool) answer) error {
		return ast.Walk(root, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
			a := f(n, enter)
			if a.err {
				return a.st, a.e
			}
			return a.st, nil
		})
	}
}

func evalC20(dev int) func(w *core.W, aux string, code []byte) string {
	return func(w *core.W, _ string, code []byte) string { return checkWalk(w, adapt.Tree(code), dev) }
}

func checkWalk(w *core.W, root ast.Node, dev int) string {
	return checkWalkAt(w, root, dev, func(i, n int) bool { return true })
}

func checkWalkAt(w *core.W, root ast.Node, dev int, at func(i, n int) bool) string {
	do := walkWith(root, true)
	if s := everyAnswer(w, root, do); s != "" {
		return s
	}
	return exploreAt(w, root, dev, at, rotate, true, do)
}

// nKinds is the number of node kinds.
const nKinds = int(ast.KindPackage) + 1

// recorders are options that make f the renderer of every kind.
func recorders(f func(w io.Writer, kind ast.NodeKind, n ast.Node, enter bool) (ast.WalkStatus, error)) (opts []bibtex.Option) {
	for k := ast.NodeKind(0); int(k) < nKinds; k++ {
		k := k
		opts = append(opts, bibtex.WithRenderer(k, func(w io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
			return f(w, k, n, enter)
		}))
	}
	return
}

// renderWith renders with a Biber all of whose renderers ask f.
func renderWith(root ast.Node) func(func(n ast.Node, enter bool) answer) error {
	return func(f func(n ast.Node, enter bool) answer) error {
		out := &failWriter{at: -1}
		var wrong error
		b := bibtex.New(recorders(func(w io.Writer, kind ast.NodeKind, n ast.Node, enter bool) (ast.WalkStatus, error) {
			if kind != n.Kind() {
				wrong = fmt.Errorf("renderer of %v got a %T", kind, n)
			}
			if n := out.n; wrong == nil {
				if w.Write([]byte("x")); out.n != n+1 {
					wrong = fmt.Errorf("renderer got another writer")
				}
			}
			a := f(n, enter)
			if a.err {
				return a.st, a.e
			}
			return a.st, nil
		})...)
		err := b.Render(out, root)
		if wrong != nil {
			return wrong
		}
		return err
	}
}

func evalC19Walk(dev int) func(w *core.W, aux string, code []byte) string {
	return func(w *core.W, _ string, code []byte) string {
		return checkRenderWalk(w, adapt.Tree(code), dev, func(i, n int) bool { return true })
	}
}

func checkRenderWalk(w *core.W, root ast.Node, dev int, at func(i, n int) bool) string {
	do := renderWith(root)
	if s := everyAnswer(w, root, do); s != "" {
		return s
	}
	return exploreAt(w, root, dev, at, rotate, false, do)
}

// source appends how the default renderers write a parsed string or an element
// of one. ok is false if it can't be rendered, known is false if it's not
// specified.
func source(b []byte, x ast.Node) (t []byte, ok, known bool) {
	ok, known = true, true
	all := func(xs []ast.Expr) {
		for _, k := range xs {
			if ok {
				var k1 bool
				b, ok, k1 = source(b, k)
				known = known && k1
			}
		}
	}
	switch x := x.(type) {
	case *ast.ParsedText:
		l, r := "{", "}"
		if x.Delim == ast.QuoteDelimiter {
			l, r = `"`, `"`
		}
		b = append(b, l...)
		all(x.Values)
		if ok {
			b = append(b, r...)
		}
	case *ast.Text:
		b = append(b, x.Value...)
	case *ast.TextComma:
		b = append(b, ',')
	case *ast.TextEscaped:
		b = append(append(b, '\\'), x.Value...)
	case *ast.TextHyphen:
		b = append(b, '-')
	case *ast.TextMath:
		b = append(append(append(b, '$'), x.Value...), '$')
	case *ast.TextNBSP, *ast.TextSpace:
		b = append(b, ' ')
	case *ast.TextAccent:
		b = append(append(append(b, '\\'), string(rune(x.Accent))...), ("{" + x.Text.Value + "}")...)
	case *ast.TextMacro:
		all(x.Values)
	case *ast.BadExpr, *ast.BadStmt, *ast.BadDecl:
		return b, false, true
	default:
		return b, true, false
	}
	return b, ok, known
}

// hasBad reports whether a walk would reach an erroneous node.
func hasBad(n ast.Node) bool {
	switch n.(type) {
	case *ast.BadExpr, *ast.BadStmt, *ast.BadDecl:
		return true
	}
	for _, k := range kids(n) {
		if hasBad(k) {
			return true
		}
	}
	return false
}

// outerStrings lists the parsed strings below n, not those within others.
func outerStrings(n ast.Node, f func(x *ast.ParsedText)) {
	if x, ok := n.(*ast.ParsedText); ok {
		f(x)
		return
	}
	for _, k := range kids(n) {
		outerStrings(k, f)
	}
}

var defaultBiber = bibtex.New()

// checkRender renders root with the default renderers.
func checkRender(w *core.W, root ast.Node) string { return checkRenderFaults(w, root, faults) }

// checkRenderFaults is checkRender with the failing writes that faults runs.
func checkRenderFaults(w *core.W, root ast.Node, faults func(clean *failWriter, render func(w *failWriter) error) (string, int64)) string {
	before := nodeDump(root)
	clean := &failWriter{at: -1}
	var err error
	if p := adapt.Guard(func() { err = defaultBiber.Render(clean, root) }); p != nil {
		return p.Error()
	}
	w.Trace++
	w.Trans += int64(clean.n)
	w.Outcome(clean.buf)
	isBad := hasBad(root)
	if isBad != (err != nil) {
		return bad("%s: erroneous: %v, error: %v", clipStr(before), isBad, err)
	}
	want, ok, known := source(nil, root)
	if known {
		if ok && !bytes.Equal(want, clean.buf) {
			return bad("%s: rendered %q, want %q", clipStr(before), clip(clean.buf), clip(want))
		}
		if !bytes.HasPrefix(want, clean.buf) {
			return bad("%s: rendered %q isn't a prefix of %q", clipStr(before), clip(clean.buf), clip(want))
		}
	} else if !isBad {
		rest := string(clean.buf)
		s := ""
		outerStrings(root, func(x *ast.ParsedText) {
			want, _, known := source(nil, x)
			i := strings.Index(rest, string(want))
			if s != "" || !known {
				return
			}
			if i < 0 {
				s = bad("%s: rendered %q lacks the string %q, or has it in another order", clipStr(before), clip(clean.buf), clip(want))
				return
			}
			rest = rest[i+len(want):]
		})
		if s != "" {
			return s
		}
	}
	if clean.n <= 300 {
		s, k := faults(clean, func(f *failWriter) error { return defaultBiber.Render(f, root) })
		w.Trace += k
		w.Count("failing_writes", k)
		if s != "" {
			return clipStr(before) + ": " + s
		}
	}
	if after := nodeDump(root); after != before {
		return bad("rendering changed %s to %s", clipStr(before), clipStr(after))
	}
	return ""
}

// checkOverrides renders root with one renderer overridden, in several ways.
func checkOverrides(w *core.W, root ast.Node) string {
	present := map[ast.NodeKind]bool{}
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		present[n.Kind()] = true
		for _, k := range kids(n) {
			visit(k)
		}
	}
	visit(root)
	if hasBad(root) {
		return ""
	}
	base := &failWriter{at: -1}
	if err := defaultBiber.Render(base, root); err != nil {
		return err.Error()
	}
	for k := ast.NodeKind(0); int(k) < nKinds; k++ {
		for _, skip := range []bool{false, true} {
			var got, want []call
			over := func(tag string) bibtex.Option {
				return bibtex.WithRenderer(k, func(wr io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
					if tag == "old" {
						return ast.WalkStop, errors.New("the replaced renderer ran")
					}
					got = append(got, mkCall(n, enter))
					if skip {
						return ast.WalkSkipChildren, nil
					}
					return ast.WalkContinue, nil
				})
			}
			b := bibtex.New(over("old"), bibtex.WithParserMode(raw), over("new"))
			out := &failWriter{at: -1}
			var err error
			if p := adapt.Guard(func() { err = b.Render(out, root) }); p != nil {
				return bad("renderer for %v overridden: %v", k, p)
			}
			if err != nil {
				return bad("renderer for %v overridden: %v", k, err)
			}
			var model func(n ast.Node)
			model = func(n ast.Node) {
				if n.Kind() == k {
					want = append(want, mkCall(n, true))
				}
				if n.Kind() != k || !skip {
					for _, c := range kids(n) {
						model(c)
					}
				}
				if n.Kind() == k {
					want = append(want, mkCall(n, false))
				}
			}
			model(root)
			w.Trace++
			if s := sameCalls(want, got); s != "" {
				return bad("renderer for %v overridden: %s", k, s)
			}
			if !present[k] && !bytes.Equal(out.buf, base.buf) {
				return bad("renderer for the absent %v overridden: rendered %q, not %q", k, clip(out.buf), clip(base.buf))
			}
		}
		// No renderer.
		b := bibtex.New(bibtex.WithRenderer(k, nil))
		out := &failWriter{at: -1}
		var err error
		if p := adapt.Guard(func() { err = b.Render(out, root) }); p != nil {
			return bad("no renderer for %v: %v", k, p)
		}
		w.Trace++
		if present[k] != (err != nil) {
			return bad("no renderer for %v, present: %v, error: %v", k, present[k], err)
		}
		if !present[k] && !bytes.Equal(out.buf, base.buf) || !bytes.HasPrefix(base.buf, out.buf) {
			return bad("no renderer for %v: rendered %q, not %q", k, clip(out.buf), clip(base.buf))
		}
	}
	// The defaults are as before.
	again := &failWriter{at: -1}
	if err := bibtex.New().Render(again, root); err != nil || !bytes.Equal(again.buf, base.buf) {
		return bad("after overriding, a new Biber renders %q (%v), not %q", clip(again.buf), err, clip(base.buf))
	}
	return ""
}

// parsedFile gives the file that src denotes, or nil.
func parsedFile(src []byte, m parser.Mode) *ast.File {
	p := adapt.ParseFile(src, m)
	if p.Panic != nil || p.Err != nil {
		return nil
	}
	return p.File
}

// alphabets for walks: everything, and one op of each shape.
const (
	walkAll   = "abz,eE-$%~sS^c!inux01234omM#tAPBDFGHfghjplLKUVWX"
	walkShape = "a02#mtAPDFGghpLKVW"
)

func init() {
	reg(&core.Check{
		ID:   "C20",
		Rule: "every tree up to the size, and trees of parsed documents, walked with every sequence of walker answers that deviates from 'continue' at most twice (once for the larger ones): the calls and the result compared with the model's",
		Run: func(r *core.Run) {
			treeFam(r, "all-kinds", walkRoots, r.Pick(5, 6), walkAll, evalC20(1))
			treeFam(r, "shapes", walkRoots, r.Pick(8, 9), walkShape, evalC20(2))
			treeFam(r, "shapes-three", walkRoots, r.Pick(6, 7), walkShape, evalC20(3))
			treeFam(r, "deep-trees", "p", r.Pick(13, 15), "a2tFGghp", evalC20(1))
			runFams(r, []gen.Fam{gen.Docs(r.Pick(1, 2)), gen.ValueDocs(1)}, func(w *core.W, _ string, src []byte) string {
				for _, m := range bothModes {
					if f := parsedFile(src, m); f != nil {
						if s := checkWalk(w, f, 1); s != "" {
							return s
						}
					}
				}
				return ""
			})
			bigFam(r, func(w *core.W, root ast.Node, n int) string { return checkWalkAt(w, root, 1, someCalls) })
			treeFam(r, "shared-nodes", walkRoots, r.Pick(4, 5), walkAll, func(w *core.W, _ string, code []byte) string {
				return sharedTree(code, func(root ast.Node) string { return checkWalk(w, root, 1) })
			})
			treeFam(r, "errors", walkRoots, 4, walkAll, func(w *core.W, _ string, code []byte) string {
				root := adapt.Tree(code)
				for _, e := range failErrs {
					e := e
					if s := exploreAt(w, root, 1, func(i, n int) bool { return true }, func(int) error { return e }, true, walkWith(root, true)); s != "" {
						return s
					}
				}
				return ""
			})
			r.Par("packages", func(w *core.W) {
				for i := 0; i < 4; i++ {
					for j := 0; j < 4; j++ {
						w.Emit(fmt.Sprintf("%d %d", i, j), nil)
					}
				}
			}, func(w *core.W, aux string, _ []byte) string {
				var i, j int
				fmt.Sscan(aux, &i, &j)
				codes := []string{"f", "gFta", "hFt1aD", "gP2,a"}
				p := &ast.Package{Files: map[string]*ast.File{}}
				p.Files["a"] = adapt.Tree([]byte(codes[i])).(*ast.File)
				p.Files["b"] = adapt.Tree([]byte(codes[j])).(*ast.File)
				p.Files["c"] = adapt.Tree([]byte(codes[i])).(*ast.File)
				return checkPackageWalk(w, p)
			})
			r.Par("long", func(w *core.W) {
				for n := 1; n <= 300; n++ {
					w.Emit("", bytes.Repeat([]byte("@a{k,x={a b},y=1#{c}}\n"), n))
					w.Emit("", []byte("@a{k"+strings.Repeat(",x={a,{b}}", n)+"}"))
					w.Emit("", []byte("@a{k,x="+strings.Repeat("{", n)+strings.Repeat("}", n)+"}"))
					w.Emit("", []byte("@a{k,x="+strings.Repeat("1#", n)+"2}"))
				}
			}, func(w *core.W, _ string, src []byte) string {
				f := parsedFile(src, parsed)
				if f == nil {
					return ""
				}
				return checkWalk(w, f, 0)
			})
		},
	})
	reg(&core.Check{
		ID:   "C19",
		Rule: "every tree up to the size and the trees of parsed documents: with renderers that record and answer, the calls compared with the model of a walk for every sequence of answers that deviates at most twice; with the default renderers, the output of parsed strings compared with the model, and every write failing in turn; with every kind's renderer replaced or removed",
		Run: func(r *core.Run) {
			treeFam(r, "answers-all-kinds", walkRoots, r.Pick(4, 5), walkAll, evalC19Walk(1))
			treeFam(r, "answers-shapes", walkRoots, r.Pick(6, 7), walkShape, evalC19Walk(2))
			evalDefault := func(w *core.W, _ string, code []byte) string { return checkRender(w, adapt.Tree(code)) }
			treeFam(r, "default-strings", "01234", r.Pick(5, 6), rendLeaves+rendInner+rendBad, evalDefault)
			treeFam(r, "default-strings-few", "234", r.Pick(8, 10), "a$^s2m", evalDefault)
			treeFam(r, "default-all-kinds", walkRoots, r.Pick(4, 5), walkAll, evalDefault)
			treeFam(r, "errors", walkRoots, 3, walkAll, func(w *core.W, _ string, code []byte) string {
				root := adapt.Tree(code)
				for _, e := range failErrs {
					e := e
					if s := exploreAt(w, root, 1, func(i, n int) bool { return true }, func(int) error { return e }, false, renderWith(root)); s != "" {
						return s
					}
				}
				return checkRenderFaults(w, root, allFaults)
			})
			runFams(r, []gen.Fam{{Name: "errors-values", Gen: func(f gen.F) bool { return gen.Words("{", "}", valueElems, 0, 2, f) }}}, func(w *core.W, _ string, src []byte) string {
				if x := parsedValue(src); x != nil {
					return checkRenderFaults(w, x, allFaults)
				}
				return ""
			})
			longElems(r, func(w *core.W, x ast.Expr) string { return checkRender(w, x) })
			evalOver := func(w *core.W, _ string, code []byte) string { return checkOverrides(w, adapt.Tree(code)) }
			treeFam(r, "overrides", walkRoots, r.Pick(3, 4), walkAll, evalOver)
			evalSrc := func(w *core.W, _ string, src []byte) string {
				if x := parsedValue(src); x != nil {
					return checkRender(w, x)
				}
				return ""
			}
			runFams(r, valueFams(r.Pick(4, 5)), evalSrc)
			runFams(r, gen.Lexical(exprContexts, r.Pick(4, 5)), evalSrc)
			runFams(r, []gen.Fam{gen.Docs(r.Pick(1, 2)), gen.ValueDocs(1)}, func(w *core.W, _ string, src []byte) string {
				for _, m := range bothModes {
					if f := parsedFile(src, m); f != nil {
						if s := checkRender(w, f); s != "" {
							return s
						}
					}
				}
				return ""
			})
			bigFam(r, func(w *core.W, root ast.Node, n int) string {
				if s := checkRenderWalk(w, root, 1, someCalls); s != "" {
					return s
				}
				return checkRender(w, root)
			})
			treeFam(r, "shared-nodes", walkRoots, r.Pick(4, 5), walkAll, func(w *core.W, _ string, code []byte) string {
				return sharedTree(code, func(root ast.Node) string {
					if s := checkRenderWalk(w, root, 1, func(i, n int) bool { return true }); s != "" {
						return s
					}
					return checkRender(w, root)
				})
			})
			runOptions(r)
			over := gen.Docs(1)
			over.Name = "documents-overrides"
			runFams(r, []gen.Fam{over}, func(w *core.W, _ string, src []byte) string {
				if f := parsedFile(src, parsed); f != nil {
					return checkOverrides(w, f)
				}
				return ""
			})
		},
	})
}

// checkPackageWalk checks a walk over several files, whose order is open.
func checkPackageWalk(w *core.W, p *ast.Package) string {
	var got []call
	err := ast.Walk(p, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
		got = append(got, mkCall(n, enter))
		return ast.WalkContinue, nil
	})
	w.Trace++
	if err != nil {
		return err.Error()
	}
	if len(got) < 2 || got[0].id != idOf(p) || got[len(got)-1].id != idOf(p) {
		return "the package isn't first and last"
	}
	rest := got[1 : len(got)-1]
	cont := func(int) answer { return answer{st: ast.WalkContinue} }
	left := map[nodeID]*ast.File{}
	for _, f := range p.Files {
		left[idOf(f)] = f
	}
	for len(rest) > 0 {
		f := left[rest[0].id]
		if f == nil {
			return bad("unexpected call %v", rest[0])
		}
		delete(left, rest[0].id)
		want, _, _ := walkModel(f, cont, nil)
		if len(want) > len(rest) {
			return "a file isn't walked completely"
		}
		if s := sameCalls(want, rest[:len(want)]); s != "" {
			return s
		}
		rest = rest[len(want):]
	}
	if len(left) > 0 {
		return bad("%d files aren't walked", len(left))
	}
	return ""
}
