package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
)

// unURL makes a quoted value of a url field, which string-parsing mode keeps as
// plain text, look like any other quoted value.
func unURL(n *ref.N) {
	if n == nil {
		return
	}
	if n.K == ref.KTag && n.S == "url" && len(n.Kids) == 1 && n.Kids[0] != nil {
		v := &n.Kids[0]
		if (*v).K == ref.KConcat && len((*v).Kids) > 0 && (*v).Kids[0] != nil {
			v = &(*v).Kids[0]
		}
		if (*v).K == ref.KText {
			*v = &ref.N{K: ref.KParsed, Delim: '"', Pos: (*v).Pos, Close: -1, Doc: -1}
		}
	}
	for _, k := range n.Kids {
		unURL(k)
	}
}

// rawForms checks that raw strings are the source between the delimiters of the
// parsed ones.
func rawForms(src []byte, r, p *ref.N) string {
	if r == nil || p == nil {
		return ""
	}
	if r.K == ref.KRaw {
		end := r.Pos + 1 + len(r.S)
		if r.Pos < 0 || end >= len(src) || string(src[r.Pos+1:end]) != r.S || !strings.ContainsRune("\"}", rune(src[end])) {
			return bad("raw string %q at %d is not the source text", r.S, r.Pos)
		}
		if p.Pos != r.Pos || p.K == ref.KParsed && p.Close >= 0 && p.Close != end {
			return bad("raw string at %d..%d, parsed string at %d..%d", r.Pos, end, p.Pos, p.Close)
		}
		return ""
	}
	for i := range r.Kids {
		if i < len(p.Kids) {
			if s := rawForms(src, r.Kids[i], p.Kids[i]); s != "" {
				return s
			}
		}
	}
	return ""
}

// rawEnd is where the raw string that starts at off ends.
func rawEnd(src []byte, off int) int {
	depth := 0
	quote := src[off] == '"'
	for i := off + 1; i < len(src); i++ {
		switch {
		case src[i] == '{':
			depth++
		case src[i] == '}' && depth == 0 && !quote, src[i] == '"' && depth == 0 && quote:
			return i
		case src[i] == '}':
			depth--
		}
	}
	return -1
}

// hides reports whether an escape, an accent or math of a parsed string has a
// delimiter that counts in a raw one.
func hides(src []byte, n *ref.N) bool {
	if n == nil {
		return false
	}
	if n.K == ref.KParsed {
		return n.Close >= 0 && n.Pos >= 0 && rawEnd(src, n.Pos) != n.Close
	}
	for _, k := range n.Kids {
		if hides(src, k) {
			return true
		}
	}
	return false
}

func evalC10(w *core.W, _ string, src []byte) string {
	const others = parser.ParseComments | parser.Trace | parser.DeclarationErrors
	var docs [2]*ref.Doc
	for i, m := range bothModes {
		base := adapt.ParseFile(src, m)
		w.Trace++
		if base.Panic != nil {
			return bad("mode %s: %v", modeName(m), base.Panic)
		}
		docs[i] = base.Doc()
		var dump string
		for _, x := range []parser.Mode{0, parser.AllErrors} {
			many := false
			if x == parser.AllErrors {
				l, _ := adapt.ErrList(adapt.ParseFile(src, m|x).Err)
				many = len(l) > 10
			}
			for f := parser.Mode(0); f < 32; f++ {
				if f&^others != 0 {
					continue
				}
				if len(src) > 600 && f&parser.Trace != 0 {
					continue
				}
				p := adapt.ParseFile(src, m|x|f)
				w.Trace++
				w.Trans++
				if p.Panic != nil {
					return bad("mode %s: %v", modeName(m|x|f), p.Panic)
				}
				if (p.Err == nil) != (base.Err == nil) {
					return bad("mode %s: %v, mode %s: %v", modeName(m), base.Err, modeName(m|x|f), p.Err)
				}
				if p.File == nil {
					return bad("mode %s: nil file", modeName(m|x|f))
				}
				d := p.Doc()
				y := string(ref.AppendDoc(nil, d, ref.DPos|ref.DRaw|ref.DDoc))
				if dump == "" || many {
					dump = y
					many = false
					w.Outcome([]byte(y))
				}
				if y != dump {
					return bad("mode %s\ngives %s\nmode %s\ngives %s", modeName(m), clip([]byte(dump)), modeName(m|x|f), clip([]byte(y)))
				}
			}
		}
	}
	a, b := ref.Parse(src, false, w.St), ref.Parse(src, true, w.St)
	if a.V != ref.Accept || b.V != ref.Accept {
		return ""
	}
	for _, n := range b.Doc.Decls {
		if hides(src, n) {
			w.Count("hidden_delimiters", 1)
			return ""
		}
	}
	for i := range docs {
		for _, n := range docs[i].Decls {
			unURL(n)
		}
	}
	x, y := ref.AppendDoc(nil, docs[0], ref.DFlat|ref.DRaw|ref.DDoc), ref.AppendDoc(nil, docs[1], ref.DFlat|ref.DRaw|ref.DDoc)
	if !bytes.Equal(x, y) {
		return bad("raw mode\ngives %s\nstring-parsing mode\ngives %s", clip(x), clip(y))
	}
	for i := range docs[0].Decls {
		if s := rawForms(src, docs[0].Decls[i], docs[1].Decls[i]); s != "" {
			return s
		}
	}
	return ""
}

// C12

var urlChars = []string{"a", "/", "~", ",", "%", "#", "&", "_", "=", ".", "?", ":", "-", "0", "(", ")", "@", "'", "é", "+", "[", "|", "^", "`", ";", "!", "*", "<", ">"}

// A urlForm is where a URL stands and what rendering the field gives.
type urlForm struct {
	name, pre, suf, field string
	before, after         string // text around the URL
}

var urlForms = []urlForm{
	{"quote", "@a{k,url=\"", "\"}", "url", "", ""},
	{"brace", "@a{k,url={", "}}", "url", "", ""},
	{"URL-brace", "@a{k, URL = {", "}, y=1}", "url", "", ""},
	{"Url-quote", "@a(k,Url = \"", "\",)", "url", "", ""},
	{"uRl-brace", "@a{k,x=1,uRl={", "},z={}}", "url", "", ""},
	{"url-field-macro", "@a{k,url={\\url{", "}}}", "url", "", ""},
	{"url-field-macro-quote", "@a{k,url=\"\\url{", "}\"}", "url", "", ""},
	{"macro-brace", "@a{k,note={\\url{", "}}}", "note", "", ""},
	{"macro-quote", "@a{k,note=\"\\url{", "}\"}", "note", "", ""},
	{"href-brace", "@a{k,note={\\href{", "}}}", "note", "", ""},
	{"href-quote", "@a{k,note=\"\\href{", "}\"}", "note", "", ""},
	{"macro-text", "@a{k,note={see \\url{", "}, or~b}}", "note", "see ", ", or b"},
	{"macro-text-quote", "@a{k,HowPublished=\"a~b, \\url{", "} c\"}", "howpublished", "a b, ", " c"},
	{"macro-nested", "@a{k,note={x{y \\url{", "}}z}}", "note", "xy ", "z"},
	{"macro-concat", "@string{n={v}}@a{k,note={\\url{", "}}}", "note", "", ""},
	{"href-text", "@a{k,note={\\href{", "}{t, u}}}", "note", "", "t, u"},
	{"two", "@a{k,note={\\url{http://a~b} \\url{", "}}}", "note", "http://a~b ", ""},
}

var urlBibers = []*bibtex.Biber{bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver())), bibtex.New(), bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()))}

// What URLs consist of, and what a cleanup of them could change.
var urlFragments = []string{
	"&amp;", "&lt;", "&#38;", "&quot;", "&nbsp;", "//", "/./", "/../", "/..", "/.", "./", ":80", ":443", ":8080/", "index.html", "index.php?", "www.", "WWW.", "?utm_source=x", "&utm_medium=y", "&fbclid=z", "#", "#top", "#:~:text=a", "?", "?a=1&b=2", "&&", "=", "==", "--", "---", "''", "``", "'", "~", ",", ",,", ";", "!", "!!", "?`", "...", ".", ".html", "HTTP://", "http://", "https://", "http:", "ftp://", "mailto:a@b", "doi.org/10.1000/a_b(c)<d>", "dx.doi.org/", "arxiv.org/abs/1.2v3", "user:pw@", "@", "+", "*", "(", ")", "()", "[", "]", "[::1]", "<", ">", "|", "^", "^2", "_", "_a", "__", "`", "%", "%%", "%2", "%zz", "%u00e9", "é", "É", "e\u0301", "\u2013", "\u00ad", "ﬁ", "xn--a", ";jsessionid=1", "-", "/-/", "/", "///", "A", "Ab", "0", "00",
}

func evalC12(w *core.W, aux string, url []byte) string {
	for _, f := range urlForms {
		if aux != "" && aux != f.name {
			continue
		}
		src := f.pre + string(url) + f.suf
		want := f.before + string(url) + f.after
		if !strings.Contains(f.name, "macro") && !strings.HasPrefix(f.name, "href") && f.name != "two" && (strings.ContainsAny(string(url), "\"")) {
			continue
		}
		for i, b := range urlBibers {
			file, err := b.Parse(strings.NewReader(src))
			w.Trace++
			w.Trans += int64(len(url)) + 1
			if err != nil {
				return bad("%q: %v", src, err)
			}
			// The tree.
			var tag *ast.TagStmt
			for _, d := range file.Entries {
				if d, ok := d.(*ast.BibDecl); ok {
					for _, t := range d.Tags {
						if t.Name == f.field {
							tag = t
						}
					}
				}
			}
			if tag == nil {
				return bad("%q: no field %q", src, f.field)
			}
			if !containsText(tag.Value, string(url)) {
				c := adapt.Conv{Base: 1}
				return bad("%q: no text is the URL: %s", src, ref.AppendNode(nil, c.Expr(tag.Value), 0))
			}
			es, err := b.Resolve(file)
			if err != nil || len(es) != 1 {
				return bad("%q: %d entries, %v", src, len(es), err)
			}
			var sb strings.Builder
			if err := render.NewTextRenderer().Render(&sb, es[0].Tags[f.field]); err != nil {
				return bad("%q: render: %v", src, err)
			}
			if sb.String() != want {
				return bad("%q: Biber %d: the resolved field is %q, not %q", src, i, sb.String(), want)
			}
		}
		w.Outcome([]byte(src))
	}
	return ""
}

// containsText reports whether a text node of x is exactly s.
func containsText(x ast.Expr, s string) bool {
	switch x := x.(type) {
	case *ast.Text:
		return x.Value == s
	case *ast.ParsedText:
		for _, v := range x.Values {
			if containsText(v, s) {
				return true
			}
		}
	case *ast.TextMacro:
		for _, v := range x.Values {
			if containsText(v, s) {
				return true
			}
		}
	}
	return false
}

func init() {
	reg(&core.Check{ID: "C10", Rule: "every source of the families in all 32 combinations of parser modes; trees and verdicts are compared across modes, and raw strings with the source",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.Docs(r.Pick(2, 2)), gen.ValueDocs(r.Pick(2, 3)), gen.Vocab(), gen.URLDocs(r.Pick(1, 2)), gen.Layouts(1, 1), gen.Mutations(1), gen.Broken(1, r.Pick(1, 2)))
			fams = append(fams, gen.Lexical(gen.Contexts, r.Pick(3, 4))...)
			fams = append(fams, gen.Sequences(r.Pick(4, 5))...)
			fams = append(fams, gen.Bytes(gen.Contexts), gen.PumpFam(false))
			fams = append(fams, gen.Comments(r.Pick(3, 5))...)
			runFams(r, fams, evalC10)
		}})
	reg(&core.Check{ID: "C12", Rule: "every URL over the alphabet up to a length, in every place where a URL can stand; the tree and the rendered resolved field are compared with the URL",
		Run: func(r *core.Run) {
			for _, p := range []string{"http://", "https://", "https://x.y/"} {
				p := p
				r.Par("words-"+p, func(w *core.W) {
					gen.Words(p, "", urlChars, 0, r.Pick(3, 4), func(b []byte) bool { return w.Emit("", b) })
				}, evalC12)
			}
			r.Par("special", func(w *core.W) {
				gen.Words("http://", "", []string{"~", ",", "%", "a", "#"}, 0, r.Pick(6, 8), func(b []byte) bool { return w.Emit("", b) })
			}, evalC12)
			r.Par("characters", func(w *core.W) {
				for c := rune(0x21); c < 0x180; c++ {
					if strings.ContainsRune("\"{}\\$\u0085\u00a0", c) || c == 0x7f {
						continue
					}
					for _, s := range []string{string(c), "a" + string(c) + "~b", "~" + string(c)} {
						if !w.Emit("", []byte("http://"+s)) {
							return
						}
					}
				}
			}, evalC12)
			r.Par("fragments", func(w *core.W) {
				frags := append([]string{}, urlFragments...)
				for c := 0; c < 0x100; c++ {
					frags = append(frags, fmt.Sprintf("%%%02X", c))
					if h := fmt.Sprintf("%%%02x", c); h != fmt.Sprintf("%%%02X", c) {
						frags = append(frags, h)
					}
				}
				for i, f := range frags {
					for _, p := range []string{"http://", "https://", "http://x.y/", "https://www.x.y:443/a?b=c&d=", "http://x.y/#a"} {
						for _, s := range []string{"", "z", "/", "~,"} {
							if !w.Emit("", []byte(p+f+s)) {
								return
							}
						}
					}
					for j, g := range frags {
						if i >= len(urlFragments) && j >= len(urlFragments) && !r.Thorough() {
							continue
						}
						if !w.Emit("", []byte("http://x.y/"+f+g)) {
							return
						}
					}
				}
			}, evalC12)
			r.Par("long", func(w *core.W) {
				for _, n := range gen.PumpCounts(r.Thorough()) {
					for _, u := range []string{"a", "~", ",", "a~b,c%20", "é", "/x"} {
						if !w.Emit("", []byte("http://"+strings.Repeat(u, n))) {
							return
						}
					}
				}
			}, evalC12)
		}})
	_ = fmt.Sprint
}
