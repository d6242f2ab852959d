package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
)

var textRenderer = render.NewTextRenderer()

// renderable ops of the tree notation, and leaves that can't be rendered.
const (
	rendLeaves = "abz,eE-$%~sS^c"
	rendInner  = "01234omM#"
	rendBad    = "!inux"
)

// checkText renders x and compares with the model.
func checkText(w *core.W, x ast.Expr) string { return checkTextFaults(w, x, faults) }

// checkTextFaults is checkText with the failing writes that faults runs.
func checkTextFaults(w *core.W, x ast.Expr, faults func(clean *failWriter, render func(w *failWriter) error) (string, int64)) string {
	c := adapt.Conv{}
	n := c.Expr(x)
	want, ok, known := ref.Text(nil, n)
	if !known {
		return ""
	}
	before := dump(x)
	clean := &failWriter{at: -1}
	var err error
	if p := adapt.Guard(func() { err = textRenderer.Render(clean, x) }); p != nil {
		return p.Error()
	}
	w.Trace++
	w.Trans += int64(clean.n)
	w.Outcome(clean.buf)
	if ok && err != nil {
		return bad("%s has the text %q, but: %v", clip([]byte(before)), clip(want), err)
	}
	if ok && !bytes.Equal(want, clean.buf) {
		return bad("%s has the text %q, rendered is %q", clip([]byte(before)), clip(want), clip(clean.buf))
	}
	if !ok && err == nil {
		return bad("%s can't be rendered, but no error", clip([]byte(before)))
	}
	if !bytes.HasPrefix(want, clean.buf) {
		return bad("%s: %q isn't a prefix of %q", clip([]byte(before)), clip(clean.buf), clip(want))
	}
	if ok {
		s, k := faults(clean, func(f *failWriter) error { return textRenderer.Render(f, x) })
		w.Trace += k
		w.Count("failing_writes", k)
		if s != "" {
			return clipStr(before) + ": " + s
		}
	} else {
		s, k := faults(clean, func(f *failWriter) error { return textRenderer.Render(f, x) })
		w.Trace += k
		if s != "" {
			return clipStr(before) + ": " + s
		}
	}
	if after := dump(x); after != before {
		return bad("rendering changed %s to %s", clipStr(before), clipStr(after))
	}
	return ""
}

func clipStr(s string) string { return string(clip([]byte(s))) }

// longElems runs eval for expressions with long texts.
func longElems(r *core.Run, eval func(w *core.W, x ast.Expr) string) {
	r.ParChunk("long-elements", 1, func(w *core.W) {
		for _, n := range []int{100, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193, 16385, 32768, 32769, 65535, 65536, 65537, 100000, 131073, 300000} {
			for kind := 0; kind < 7; kind++ {
				for form := 0; form < 3; form++ {
					if !w.Emit(fmt.Sprintf("%d %d %d", n, kind, form), nil) {
						return
					}
				}
			}
		}
	}, func(w *core.W, aux string, _ []byte) string {
		var n, kind, form int
		fmt.Sscan(aux, &n, &kind, &form)
		var sb strings.Builder
		for sb.Len() < n {
			switch form {
			case 0:
				sb.WriteByte("abcdefghijk"[sb.Len()%11])
			case 1:
				fmt.Fprintf(&sb, "%d é ", sb.Len())
			case 2:
				sb.WriteString("http://x/~%20&amp;--\n")
			}
		}
		s := sb.String()
		var x ast.Expr = &ast.Text{Value: s}
		switch kind {
		case 1:
			x = &ast.TextMath{Value: s}
		case 2:
			x = &ast.TextMacro{Name: "url", Values: []ast.Expr{x}}
		case 3:
			x = &ast.TextMacro{Name: s, Values: []ast.Expr{&ast.Text{Value: "a"}}}
		case 4:
			x = &ast.ParsedText{Delim: ast.BraceDelimiter, Values: []ast.Expr{&ast.Text{Value: "a"}, &ast.TextSpace{}, x, &ast.TextComma{}, &ast.TextMath{Value: "m"}}}
		case 5:
			x = &ast.ParsedText{Delim: ast.QuoteDelimiter, Values: []ast.Expr{x, &ast.ParsedText{Delim: ast.BraceDelimiter, Depth: 1, Values: []ast.Expr{x}}}}
		case 6:
			x = &ast.ConcatExpr{X: &ast.ParsedText{Delim: ast.BraceDelimiter, Values: []ast.Expr{x}}, Y: &ast.ParsedText{Delim: ast.QuoteDelimiter, Values: []ast.Expr{x}}}
		}
		return eval(w, x)
	})
}

// valuesOf returns every value of a file.
func valuesOf(f *ast.File) (xs []ast.Expr) {
	for _, d := range f.Entries {
		switch d := d.(type) {
		case *ast.BibDecl:
			for _, t := range d.Tags {
				xs = append(xs, t.Value)
			}
		case *ast.AbbrevDecl:
			if d.Tag != nil {
				xs = append(xs, d.Tag.Value)
			}
		case *ast.PreambleDecl:
			xs = append(xs, d.Text)
		}
	}
	return
}

// parsedValue gives the value that src denotes as an expression, or nil.
func parsedValue(src []byte) (x ast.Expr) {
	adapt.Guard(func() {
		v, err := parser.ParseExpr(string(src))
		if err == nil {
			x = v
		}
	})
	return
}

func treeFam(r *core.Run, name, root string, n int, allow string, eval func(w *core.W, aux string, src []byte) string) {
	r.Par(fmt.Sprintf("%s%d", name, n), func(w *core.W) {
		adapt.Trees(root, n, allow, func(code []byte) bool { return w.Emit("", code) })
	}, eval)
}

// elementFams are strings with every sequence of elements.
var valueElems = []string{"A", "b c", " ", "\n\t ", ",", "~", "{d}", "{}", "\\'e", "\\\"{o}", "\\c c", "\\'q", "\\&", "\\{", "\\\\", "\\mac ", "\\url{u~,}", "$x_1$", "$$", "-", "é", "%", "{\\^i {\\$}}"}

func valueFams(n int) []gen.Fam {
	return []gen.Fam{
		{Name: fmt.Sprintf("value-elements%d-brace", n), Gen: func(f gen.F) bool { return gen.Words("{", "}", valueElems, 0, n, f) }},
		{Name: fmt.Sprintf("value-elements%d-quote", n-1), Gen: func(f gen.F) bool { return gen.Words("\"", "\"", valueElems, 0, n-1, f) }},
		{Name: fmt.Sprintf("value-elements%d-concat", n-1), Gen: func(f gen.F) bool { return gen.Words("{", "} # \"q\" # {\\'e}", valueElems, 0, n-1, f) }},
	}
}

func init() {
	reg(&core.Check{
		ID:   "C18",
		Rule: "every expression tree up to the size, and every parsed value of the families, rendered as plain text: compared with the model's text; then every write of the run fails at every position in turn",
		Run: func(r *core.Run) {
			evalTree := func(w *core.W, _ string, code []byte) string { return checkText(w, adapt.Tree(code).(ast.Expr)) }
			treeFam(r, "trees", adapt.SExpr, r.Pick(5, 6), rendLeaves+rendInner+rendBad, evalTree)
			treeFam(r, "trees-few", adapt.SExpr, r.Pick(8, 10), "a$^!2m#", evalTree)
			treeFam(r, "trees-wide", adapt.SExpr, r.Pick(6, 7), "a,e-$s^c!34", evalTree)
			evalSrc := func(w *core.W, _ string, src []byte) string {
				if x := parsedValue(src); x != nil {
					return checkText(w, x)
				}
				return ""
			}
			runFams(r, valueFams(r.Pick(4, 5)), evalSrc)
			runFams(r, gen.Lexical(exprContexts, r.Pick(4, 5)), evalSrc)
			runFams(r, []gen.Fam{gen.OddWords(exprContexts, false)}, evalSrc)
			treeFam(r, "errors", adapt.SExpr, 3, rendLeaves+rendInner+rendBad, func(w *core.W, _ string, code []byte) string {
				return checkTextFaults(w, adapt.Tree(code).(ast.Expr), allFaults)
			})
			runFams(r, []gen.Fam{{Name: "errors-values", Gen: func(f gen.F) bool { return gen.Words("{", "}", valueElems, 0, 2, f) }}}, func(w *core.W, _ string, src []byte) string {
				if x := parsedValue(src); x != nil {
					return checkTextFaults(w, x, allFaults)
				}
				return ""
			})
			longElems(r, func(w *core.W, x ast.Expr) string { return checkText(w, x) })
			// Long ones, and every byte as text.
			r.Par("long", func(w *core.W) {
				for _, n := range gen.PumpCounts(false) {
					for _, e := range valueElems {
						if !w.Emit("", append(append([]byte{'{'}, bytes.Repeat([]byte(e), min(n, 600))...), '}')) {
							return
						}
					}
				}
			}, evalSrc)
			r.Par("texts", func(w *core.W) {
				for i := 0; i < 256; i++ {
					for j := 0; j < 256; j++ {
						if !w.Emit("", []byte{byte(i), byte(j)}) {
							return
						}
					}
				}
			}, func(w *core.W, _ string, b []byte) string {
				s := string(b)
				for _, x := range []ast.Expr{&ast.Text{Value: s}, &ast.TextMath{Value: s}, &ast.TextEscaped{Value: s},
					&ast.TextMacro{Name: s, Values: []ast.Expr{&ast.Text{Value: s[:1]}}},
					&ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: s}, &ast.TextSpace{Value: s}, &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: s}}}}}} {
					if e := checkText(w, x); e != "" {
						return e
					}
				}
				return ""
			})
			bigFam(r, func(w *core.W, root ast.Node, n int) string {
				if x, ok := root.(ast.Expr); ok {
					return checkText(w, x)
				}
				return ""
			})
			treeFam(r, "shared-nodes", adapt.SExpr, r.Pick(4, 5), rendLeaves+rendInner+rendBad, func(w *core.W, _ string, code []byte) string {
				return sharedTree(code, func(root ast.Node) string { return checkText(w, root.(ast.Expr)) })
			})
			r.Par("documents", func(w *core.W) {
				gen.ValueDocs(r.Pick(1, 2)).Gen(func(src []byte) bool { return w.Emit("", src) })
				gen.Docs(r.Pick(1, 2)).Gen(func(src []byte) bool { return w.Emit("", src) })
				gen.Vocab().Gen(func(src []byte) bool { return w.Emit("", src) })
				w.Emit("", sampleBib())
			}, func(w *core.W, _ string, src []byte) string {
				p := adapt.ParseFile(src, parsed)
				if p.Err != nil || p.File == nil {
					return ""
				}
				for _, x := range valuesOf(p.File) {
					if s := checkText(w, x); s != "" {
						return s
					}
				}
				return ""
			})
		},
	})
}
