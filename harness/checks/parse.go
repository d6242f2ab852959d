package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

const (
	raw    = parser.Mode(0)
	parsed = parser.ParseStrings
)

var bothModes = []parser.Mode{raw, parsed}

func modeName(m parser.Mode) string {
	var s []string
	for _, x := range []struct {
		m parser.Mode
		s string
	}{{parser.ParseComments, "comments"}, {parser.ParseStrings, "strings"}, {parser.Trace, "trace"}, {parser.DeclarationErrors, "declerrors"}, {parser.AllErrors, "allerrors"}} {
		if m&x.m != 0 {
			s = append(s, x.s)
		}
	}
	if s == nil {
		return "raw"
	}
	return strings.Join(s, "+")
}

// runFams enumerates families of sources.
func runFams(r *core.Run, fams []gen.Fam, eval func(w *core.W, aux string, src []byte) string) {
	for _, f := range fams {
		f := f
		r.Par(f.Name, func(w *core.W) {
			f.Gen(func(src []byte) bool { return w.Emit("", src) })
		}, eval)
	}
}

// runLarge enumerates large sources, one at a time.
func runLarge(r *core.Run, eval func(w *core.W, aux string, src []byte) string) {
	f := gen.LargeFam(r.Thorough())
	r.ParChunk(f.Name, 1, func(w *core.W) {
		f.Gen(func(src []byte) bool { return w.Emit("", src) })
	}, eval)
}

func bad(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }

// diffDocs compares trees; "" if equal.
func diffDocs(what string, want, got *ref.Doc, fl int, w *core.W) string {
	x := ref.AppendDoc(nil, want, fl)
	y := ref.AppendDoc(nil, got, fl)
	if w != nil {
		w.Outcome(x)
	}
	if bytes.Equal(x, y) {
		return ""
	}
	return bad("%s\nwant %s\ngot  %s", what, clip(x), clip(y))
}

func clip(b []byte) string {
	if len(b) > 1200 {
		return string(b[:1200]) + "..."
	}
	return string(b)
}

// checkFileShape checks what holds for every tree of ParseFile.
func accepted(src []byte, m parser.Mode, p adapt.Parsed) string {
	if p.Panic != nil {
		return bad("mode %s: %v", modeName(m), p.Panic)
	}
	if p.Err != nil {
		return bad("mode %s: well-formed source, but: %v", modeName(m), p.Err)
	}
	if p.File == nil {
		return bad("mode %s: nil file", modeName(m))
	}
	return ""
}

// big reports whether src is too large for the cheap but quadratic parts.
func evalC02(w *core.W, _ string, src []byte) string {
	for _, m := range bothModes {
		res := ref.Parse(src, m == parsed, w.St)
		if res.V != ref.Accept {
			continue
		}
		p := adapt.ParseFile(src, m)
		w.Trace++
		if s := accepted(src, m, p); s != "" {
			return s
		}
		if s := diffDocs("mode "+modeName(m)+": wrong tree", &res.Doc, p.Doc(), ref.DRaw, w); s != "" {
			return s
		}
	}
	return ""
}

func evalC03(w *core.W, _ string, src []byte) string {
	var errs [2]error
	var vs [2]ref.Verdict
	for i, m := range bothModes {
		res := ref.Parse(src, m == parsed, w.St)
		vs[i] = res.V
		p := adapt.ParseFile(src, m)
		w.Trace++
		errs[i] = p.Err
		if p.Panic != nil {
			return bad("mode %s: %v", modeName(m), p.Panic)
		}
		switch res.V {
		case ref.Accept:
			w.Count("well_formed", 1)
			if p.Err != nil {
				return bad("mode %s: well-formed source, but: %v", modeName(m), p.Err)
			}
		case ref.Reject:
			w.Count("malformed", 1)
			w.Outcome([]byte(res.Why))
			if p.Err == nil {
				return bad("mode %s: malformed source (%s), but no error", modeName(m), res.Why)
			}
		}
	}
	// A Biber agrees.
	for i, b := range bibers {
		var f *ast.File
		var err error
		if p := adapt.Guard(func() { f, err = b.Parse(bytes.NewReader(src)) }); p != nil {
			return bad("Biber: %v", p)
		}
		if (err == nil) != (errs[i] == nil) && vs[i] != ref.Unspec {
			return bad("Biber in mode %s: error %v, ParseFile: error %v", modeName(bothModes[i]), err, errs[i])
		}
		if err == nil && f == nil {
			return "Biber: neither a file nor an error"
		}
	}
	return ""
}

var bibers = []*bibtex.Biber{bibtex.New(bibtex.WithParserMode(raw)), bibtex.New()}

// evalExpr compares ParseExpr with the model.
func evalExpr(w *core.W, _ string, src []byte) string {
	n, v, why := ref.ParseExpr(src, w.St)
	var x ast.Expr
	var err error
	p := adapt.Guard(func() { x, err = parser.ParseExpr(string(src)) })
	w.Trace++
	if p != nil {
		return bad("ParseExpr: %v", p)
	}
	switch v {
	case ref.Accept:
		if err != nil {
			return bad("ParseExpr: well-formed, but: %v", err)
		}
		c := adapt.Conv{Base: 2}
		if g := c.Expr(x); true {
			a, b := ref.AppendNode(nil, n, 0), ref.AppendNode(nil, g, 0)
			w.Outcome(a)
			if !bytes.Equal(a, b) {
				return bad("ParseExpr: wrong tree\nwant %s\ngot  %s", clip(a), clip(b))
			}
		}
	case ref.Reject:
		if err == nil {
			return bad("ParseExpr: malformed (%s), but no error", why)
		}
	}
	return ""
}

// exprContexts are the contexts with which expressions are enumerated.
var exprContexts = []gen.Ctx{
	{Name: "expr", Pre: "", Suf: ""}, {Name: "expr-concat", Pre: "1#", Suf: ""}, {Name: "expr-after", Pre: "\"q\"", Suf: ""}, {Name: "expr-quote", Pre: "\"", Suf: "\""}, {Name: "expr-brace", Pre: "{", Suf: "}"}, {Name: "expr-nested", Pre: "{a{", Suf: "}b}"},
}

// evalC04 compares the elements of parsed strings.
func evalC04(w *core.W, _ string, src []byte) string {
	res := ref.Parse(src, true, w.St)
	if res.V != ref.Accept {
		return ""
	}
	p := adapt.ParseFile(src, parsed)
	w.Trace++
	if s := accepted(src, parsed, p); s != "" {
		return s
	}
	if s := diffDocs("wrong elements", &res.Doc, p.Doc(), 0, w); s != "" {
		return s
	}
	// Whitespace runs are kept verbatim too.
	return ""
}

func evalC11(w *core.W, _ string, src []byte) string {
	for _, m := range bothModes {
		res := ref.Parse(src, m == parsed, w.St)
		if res.V != ref.Accept {
			continue
		}
		p := adapt.ParseFile(src, m|parser.ParseComments)
		w.Trace++
		if s := accepted(src, m, p); s != "" {
			return s
		}
		got := p.Doc()
		if res.Doc.FileDoc == -2 {
			got.FileDoc = -2
		}
		if s := diffDocs("mode "+modeName(m)+": wrong comments", &res.Doc, got, ref.DDoc, w); s != "" {
			return s
		}
	}
	return ""
}
