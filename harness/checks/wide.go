package checks

import (
	"bytes"
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"verif/adapt"
	"verif/ref"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// Operations that use, together, every statement of the library that can be
// reached. Each comes in two variants of the same shape and size, with other
// letters in the places of q, Q and 7.

var wideDocs = []string{
	`@a{q7, title = {Q q}}`,
	`@q(q, Q = "q", z = q # 7 # {Q},)`,
	`@a{q, Q, 7q, x = 7, Q = Q,},`,
	`@preamble{"q" # {Q}} @preamble(7)`,
	`@string{q = {Q} # "7"} @string(Q = q,) @STRING{q=7}`,
	"% q\n% Q\n\n%7\n@a{%q\nk, % Q\n%7\n x = %q\n 1 % Q\n}%7\n%q",
	`@a{k, url = {http://q.Q/~7,q}}`, `@a{k, URL = "http://q~,Q"}`, `@a{k, url = "\url{http://q~Q}"}`, `@a{k, url = {\url{http://q~Q}}}`,
	`@a{k, url = {q~Q, 7}}`, `@a{k, url = {http{q}}}`, `@a{k, url = {}, url = q # "7", url = "q" # {Q}, url = 7}`, `@a{k, url = "q\\$Q$ {7}\q"}`,
	`@a{k, x = {\url{q~Q,$7$\q{Q}} \href{Q }{q}}}`, `@a{k, x = {\url q}}`, `@a{k, x = {\url{q Q}}}`,
	`@a{k, x = {\'q \c{q} \c Q \"{Q} \^ q\~Q \.q}}`,
	`@a{k, x = {\q\Q{q}\cq \,\(\[ \& \% \_ \{ \} \$ \\ ~q, Q $7\$q$ "q" {{q}Q}}}`,
	"@a{k, x = \"q\t\r\nQ {\"} {q}~,-\"}",
	`@a{k, x = {q \emph{Q 7} {\q Q}}, y = {{}}, z = ""}`,
	`@a{q, x = {$Q$, $7$-q~ -Q}, y = "$q$"}`, `@a{k, q = Q # 7 # q, z = } @a{k}`, `@a{k, x = "q` + "`" + `}`, `@a{k, x = {\q[Q]{7}}}`, `@a{k, x = {\q{}{Q}}}`,
	// Malformed ones.
	`@q k}`, `@{q}`, `@`, `q`, `@a{q`, `@a{q, x`, `@a{q, x = `, `@a{q, x = {Q`, `@a{q, x = "Q`, `@a{q, 7 = q}`, `@a{q, x = }`, `@a{q, x = q # }`, `@a{q) @b(q}`, `@a{q, x = @b}`,
	`@string{q Q} @b{q}`, `@string{7 = 1}`, `@string{q = Q 7}`, `@string q`, `@preamble{q`, `@preamble{}`, `@preamble q`, `@comment{q}`, `@a(q @string(Q=1) @preamble(q)`,
	`@a{q, x = {\'7}}`, `@a{q, x = {\c 7}}`, `@a{q, x = {\' 7}}`, `@a{q, x = {\'{7}}}`, `@a{q, x = {\'{qQ}}}`, `@a{q, x = {\q7}}`, `@a{q, x = {\~}}`, `@a{q, x = {\}`, `@a{q, x = {$q}}`, "@a{q, x = {$q\n$}}", `@a{q, x = {q{\7}}}`, `@a{q, x = "}Q"}`,
	"@a{q, x = {\x00\xffQ}}", "\ufeff@a{q}", "@a{q,\ufeff x = {\ufeff}}", "@a{q}\xff", "@a{k}\x00", "\x00q", "@q\v{k}", "@qé{Q}", "@a{é}",
	strings.Repeat("@a{q, 7 = Q}\n", 13), strings.Repeat("@a{q, x}\nq ", 3),
}

var wideExprs = []string{`q`, `7`, `{q Q}`, `"q" # Q # 7`, `q # `, ``, `{q`, `"q`, `}`, `@q`, `{\'7}`, `{q}#{Q`, "{\x00q}", `{\url{q,Q}}`, "%q\n{Q}"}

var wideAuthors = []string{
	`Qq`, `Qq Qw`, `q Qq`, `Qq q Qw`, `q q Qq Q`, `Qq, Q`, `q Qq, Q`, `Qq, Q, Q`, `q Qq, Q, q`, `Qq, Q, Q, Q, q`, `others`, `Qq and others`, `Qq and q Q and Q, q`, `{Q and q} and {Q, q} q`,
	`Q and`, ` and Q`, `Q and and Q`, `, `, `{}`, `\'Q q \'q Q`, `\.q Q`, `Q\&q \q{q} \q Q $q$ Q`, `Q~q~Q`, `Q-q {Q {q} \'{q} \$ $7$ \Q} Q`, ` q `, `"Q" 7q`, `\url{q} Q, \c{c} {q,}`,
}

var wideStrings = []string{"q", " ", "~", "q Q", "{q}", "{q}Q", "$q$", "$q$Q", ",", "q,Q~7", "\\q", "{q Q{7}}", "\"q\"", "q{", ""}

func wideVariant(s string, v int) string {
	if v == 0 {
		return s
	}
	return strings.NewReplacer("q", "v", "Q", "V", "7", "5").Replace(s)
}

// wideShape is what all nodes say about themselves.
func wideShape(n ast.Node) string {
	var sb strings.Builder
	nodesOf(n, func(n ast.Node) {
		fmt.Fprintf(&sb, " %s:%d-%d", n.Kind(), n.Pos(), n.End())
		if t, ok := n.(*ast.TagStmt); ok {
			fmt.Fprint(&sb, asts.ExprString(t.Value))
		}
	})
	return sb.String()
}

var wideOps = func() (os []op) {
	add := func(name string, f func(e *opEnv, v int) func() string) {
		for v := 0; v < 2; v++ {
			v := v
			os = append(os, op{name: fmt.Sprintf("wide-%s-%d", name, v), slow: true, wide: true, run: func(e *opEnv) func() string { return f(e, v) }})
		}
	}
	for i, d := range wideDocs {
		d := d
		add(fmt.Sprint("parse-", i), func(e *opEnv, v int) func() string {
			src := []byte(wideVariant(d, v))
			f, err := parser.ParseFile(gotok.NewFileSet(), "w", src, parsed|parser.ParseComments|parser.AllErrors)
			g, err2 := parser.ParseFile(gotok.NewFileSet(), "w", src, raw|parser.DeclarationErrors)
			return func() string {
				return treeText(f) + errText(err) + treeText(g) + errText(err2) + string(src)
			}
		})
		add(fmt.Sprint("use-", i), func(e *opEnv, v int) func() string {
			f, err := parser.ParseFile(gotok.NewFileSet(), "w", wideVariant(d, v), parsed|parser.AllErrors)
			out := errText(err) + wideShape(f) + scopeText(f.Scope)
			for _, d := range f.Entries {
				var sb strings.Builder
				err := e.biber.Render(&sb, d)
				out += sb.String() + errText(err)
				if d, ok := d.(*ast.BibDecl); ok {
					for _, t := range d.Tags {
						sb.Reset()
						err = e.text.Render(&sb, t.Value)
						out += sb.String() + errText(err)
					}
				}
			}
			es, err := e.full.Resolve(f)
			out += errText(err)
			return func() string { return out + entriesText(es, nil) + treeText(f) }
		})
		add(fmt.Sprint("scan-", i), func(e *opEnv, v int) func() string {
			var out bytes.Buffer
			src := wideVariant(d, v)
			for m := scanner.Mode(0); m < 4; m++ {
				s, f := adaptScanner(src, m, &out)
				for i := 0; i < 3*len(src)+9; i++ {
					p, t, l := s.Scan()
					fmt.Fprintln(&out, f.Offset(p), t, l, t.IsLiteral(), t.IsStringLiteral(), t.IsOperator(), t.IsCommand())
					if t == token.EOF {
						break
					}
				}
				fmt.Fprintln(&out, s.ErrorCount)
			}
			return out.String
		})
	}
	add("trace", func(e *opEnv, v int) func() string {
		f, err := parser.ParseFile(gotok.NewFileSet(), "w", wideVariant("@a{q, x = {Q $7$ q} # 7}@string{q=Q}@preamble{7}@a{x = "+strings.Repeat("7#", 40)+"7}@", v), parsed|parser.Trace)
		return func() string { return treeText(f) + errText(err) }
	})
	for i, x := range wideExprs {
		x := x
		add(fmt.Sprint("expr-", i), func(e *opEnv, v int) func() string {
			x, err := parser.ParseExpr(wideVariant(x, v))
			if x == nil {
				return func() string { return errText(err) }
			}
			s := asts.ExprString(x)
			return func() string { return flat(x) + extent(x) + s + errText(err) }
		})
	}
	for i, a := range wideAuthors {
		a := a
		add(fmt.Sprint("authors-", i), func(e *opEnv, v int) func() string {
			f, err := parser.ParseFile(gotok.NewFileSet(), "w", wideVariant("@a{k, author = {"+a+"}, title = {Q \\& q}}", v), parsed)
			t, ok := firstValue(f, "author").(*ast.ParsedText)
			if !ok {
				return func() string { return errText(err) }
			}
			as, err := bibtex.ExtractAuthors(t)
			s := errText(err)
			for _, a := range as {
				s += fmt.Sprint(a.IsEmpty(), a.IsOthers(), a.Pos(), a.End())
			}
			es, err := e.full.Resolve(f)
			var sb strings.Builder
			err2 := e.biber.Render(&sb, f)
			return func() string {
				return s + flat(as) + entriesText(es, err) + treeText(f) + sb.String() + errText(err2)
			}
		})
	}
	for i, x := range wideStrings {
		x := x
		add(fmt.Sprint("build-", i), func(e *opEnv, v int) func() string {
			s := wideVariant(x, v)
			xs := []ast.Expr{asts.UnparsedText(s), asts.UnparsedBraceText(s), asts.BraceText(1, s, asts.Text(s)), asts.QuotedText(1, s), asts.BraceTextExpr(0, asts.Text(s)), asts.QuotedTextExpr(0, asts.Text(s)),
				asts.AccentedText(token.AccentAcute, s), asts.Space(), asts.NBSP(), asts.Math(s), asts.Comma(), asts.Macro(s, s, asts.Text(s)), asts.Escaped('&'), asts.Ident(s), asts.Concat(asts.Ident(s), asts.Text(s)), asts.ParseAny(s), asts.ParseAny(asts.Text(s)), asts.ParseStringExpr(1, s)}
			d := &ast.BibDecl{}
			for _, o := range []func(*ast.BibDecl){asts.WithBibType(s), asts.WithBibKeys(s, s+"2"), asts.WithBibTags(s, xs[0], s, xs[1])} {
				o(d)
			}
			out := ""
			for _, x := range xs {
				out += asts.ExprString(x)
			}
			return func() string {
				out := out
				for _, x := range xs {
					out += flat(x)
				}
				return out + string(ref.AppendNode(nil, (&adapt.Conv{}).Decl(d), ref.DRaw))
			}
		})
	}
	add("render-fails", func(e *opEnv, v int) func() string {
		f, _ := parser.ParseFile(gotok.NewFileSet(), "w", wideVariant("%q\n@a{q, Q, x = {Q \\& $q$ ~, {q} \\'q\\q} # q # 7, y = \"q\"}@string{q = Q}@preamble{{q}}", v), parsed|parser.ParseComments)
		out := ""
		for at := 0; at < 60; at++ {
			w := &failWriter{at: at, part: at % 2, err: errFull}
			err := e.biber.Render(w, f)
			out += string(w.buf) + errText(err)
			if err == nil {
				break
			}
		}
		for at := 0; at < 30; at++ {
			w := &failWriter{at: at, part: at % 2, err: errFull}
			err := e.text.Render(w, f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ConcatExpr).X)
			out += string(w.buf) + errText(err)
			if err == nil {
				break
			}
		}
		return func() string { return out + treeText(f) }
	})
	add("render-all", func(e *opEnv, v int) func() string {
		s := wideVariant("qQ", v)
		var out strings.Builder
		d := &ast.BibDecl{Type: s, Key: &ast.Ident{Name: s}, ExtraKeys: []*ast.Ident{{Name: s}}, Tags: []*ast.TagStmt{{Name: s, RawName: s, Value: asts.BraceText(0, s, asts.Macro(s, s))}}}
		c := &ast.TexCommentGroup{List: []*ast.TexComment{{Text: s}}}
		for _, n := range []ast.Node{
			asts.UnparsedText(s), asts.UnparsedBraceText(s), asts.BraceText(0, s), asts.QuotedText(0, s), asts.Text(s), asts.Space(), asts.NBSP(), asts.Math(s), asts.Comma(), asts.Macro(s, s), asts.Escaped('&'), asts.Ident(s), asts.Concat(asts.Ident(s), asts.Text(s)),
			asts.AccentedText(token.AccentAcute, "e"), asts.AccentedText(token.AccentAcute, s), &ast.TextHyphen{}, asts.Macro(s), &ast.TextMacro{Name: s, RBrace: 7}, asts.BraceText(0, &ast.TextHyphen{}, asts.Macro(s)), &ast.Number{Value: s}, &ast.BadExpr{}, &ast.BadStmt{}, &ast.BadDecl{}, c, c.List[0],
			d, &ast.AbbrevDecl{Tag: d.Tags[0]}, &ast.PreambleDecl{Text: asts.Text(s)}, &ast.File{Name: s, Entries: []ast.Decl{d}}, &ast.Package{Files: map[string]*ast.File{s: {Entries: []ast.Decl{d}}}},
			&ast.Author{First: asts.Text(s), Prefix: asts.Text(s), Last: asts.Text(s), Suffix: asts.Text(s)}, ast.Authors{{First: asts.Text(s), Prefix: asts.Text(""), Last: asts.Text(s), Suffix: asts.Text("")}},
		} {
			n := n
			fmt.Fprintf(&out, "\n%T %s %d %d ", n, n.Kind(), n.Pos(), n.End())
			err := e.biber.Render(&out, n)
			out.WriteString(errText(err))
			for at := 0; at < 12; at++ {
				w := &failWriter{at: at, part: at % 2, err: errFull}
				err := e.biber.Render(w, n)
				out.Write(w.buf)
				out.WriteString(errText(err))
				if x, ok := n.(ast.Expr); ok {
					w := &failWriter{at: at, part: at % 2, err: errFull}
					err := e.text.Render(w, x)
					out.Write(w.buf)
					out.WriteString(errText(err))
				}
			}
			if x, ok := n.(ast.Expr); ok {
				err = e.text.Render(&out, x)
				out.WriteString(errText(err))
			}
			_, err = e.biber.Resolve(n)
			out.WriteString(errText(err))
			i := 0
			err = ast.Walk(n, func(n ast.Node, in bool) (ast.WalkStatus, error) {
				i++
				if i == 3 {
					return ast.WalkSkipChildren, nil
				}
				if i == 5 {
					return ast.WalkStop, errors.New(s)
				}
				return ast.WalkContinue, nil
			})
			out.WriteString(errText(err))
		}
		return out.String
	})
	add("nest", func(e *opEnv, v int) func() string {
		s := wideVariant("q", v)
		out := ""
		for _, n := range []int{10, 99999, 100001} {
			x, err := parser.ParseExpr(strings.Repeat("{", n) + s + strings.Repeat("}", n))
			out += errText(err)
			if n < 100 {
				out += flat(x)
			}
			f, err := parser.ParseFile(gotok.NewFileSet(), "n", "@a{"+s+", x = "+strings.Repeat(s+"#", n)+"7}", parsed)
			out += errText(err)
			if n < 100 {
				out += treeText(f)
			}
		}
		return func() string { return out }
	})
	add("accents", func(e *opEnv, v int) func() string {
		var out strings.Builder
		for _, a := range "`'^\"~c.x" {
			for _, s := range []string{wideVariant("a", v), "e", "C", "I", wideVariant("q", v), "", "ab"} {
				r, err := render.RenderAccent(token.Accent(a), s)
				fmt.Fprint(&out, r, errText(err))
			}
		}
		return out.String
	})
	add("walk", func(e *opEnv, v int) func() string {
		f, _ := parser.ParseFile(gotok.NewFileSet(), "w", wideVariant("@a{q, x = {Q {q}\\url{Q}} # q}@string{q = Q}@preamble{{q}}", v), parsed)
		var out strings.Builder
		for at := 0; at < 60; at++ {
			for _, st := range []ast.WalkStatus{ast.WalkStop, ast.WalkSkipChildren} {
				i := 0
				err := ast.Walk(f, func(n ast.Node, in bool) (ast.WalkStatus, error) {
					fmt.Fprint(&out, n.Kind(), in)
					if i++; i == at {
						if at%2 == 0 {
							return st, errors.New("e")
						}
						return st, nil
					}
					return ast.WalkContinue, nil
				})
				out.WriteString(errText(err))
			}
		}
		s := out.String()
		return func() string { return s }
	})
	add("sources", func(e *opEnv, v int) func() string {
		src := wideVariant("@a{q, x = {Q \\q}}", v)
		path := filepath.Join(e.own, "s.bib")
		if err := writeString(path, src); err != nil {
			panic(err)
		}
		var out strings.Builder
		for _, s := range []interface{}{src, []byte(src), bytes.NewBufferString(src), strings.NewReader(src), iotest.OneByteReader(strings.NewReader(src)), iotest.DataErrReader(strings.NewReader(src)), iotest.ErrReader(errors.New(src)), iotest.TimeoutReader(iotest.HalfReader(strings.NewReader(src))), 7, (*bytes.Buffer)(nil), nil} {
			f, err := parser.ParseFile(gotok.NewFileSet(), path, s, parsed)
			out.WriteString(treeText(f) + errText(err))
			if r, ok := s.(io.Reader); ok && r != io.Reader((*bytes.Buffer)(nil)) {
				f, err = e.raw.Parse(strings.NewReader(src))
				out.WriteString(treeText(f) + errText(err))
			}
		}
		_, err := e.biber.Parse(strings.NewReader(src[:len(src)-1]))
		out.WriteString(errText(err))
		p, err := parser.ParsePackage([]string{path, path + "x", path}, raw)
		out.WriteString(errText(err))
		if p != nil {
			for _, f := range p.Files {
				out.WriteString(treeText(f) + wideShape(f))
			}
		}
		p, err = parser.ParsePackage([]string{path, path}, parsed)
		out.WriteString(errText(err))
		if p != nil {
			for _, f := range p.Files {
				out.WriteString(treeText(f) + wideShape(f))
			}
		}
		es, err := e.full.Resolve(p)
		s := strings.ReplaceAll(out.String()+entriesText(es, err), e.own, "OWN")
		return func() string { return s }
	})
	add("options", func(e *opEnv, v int) func() string {
		s := wideVariant("q", v)
		fn := func(w io.Writer, n ast.Node, in bool) (ast.WalkStatus, error) {
			_, err := io.WriteString(w, s)
			return ast.WalkSkipChildren, err
		}
		fail := bibtex.ResolverFunc(func(n ast.Node) error { return errors.New(s) })
		var out strings.Builder
		for _, b := range []*bibtex.Biber{bibtex.New(), bibtex.New(bibtex.WithRenderer(ast.KindText, fn), bibtex.WithRenderer(ast.KindTextMath, nil)), bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("x", s), fail)), bibtex.New(bibtex.WithParserMode(0), bibtex.WithResolvers())} {
			f, err := b.Parse(strings.NewReader("@a{" + s + ", x = {" + s + "}, " + s + " = {$m$}}"))
			out.WriteString(errText(err))
			es, err := b.Resolve(f)
			out.WriteString(entriesText(es, err))
			err = b.Render(&out, f)
			out.WriteString(errText(err))
		}
		return out.String
	})
	add("scopes", func(e *opEnv, v int) func() string {
		s := ast.NewScope(ast.NewScope(nil))
		out := ""
		for _, n := range []string{"q", "Q", "", "q"} {
			n = wideVariant(n, v)
			o := ast.NewObj(ast.Entry, n)
			o.Decl = &ast.BibDecl{Key: &ast.Ident{Name: n, NamePos: 7}}
			out += fmt.Sprint(s.Insert(o) == nil, s.Lookup(n) == o, o.Pos())
		}
		one := ast.NewScope(nil)
		one.Insert(ast.NewObj(ast.Abbrev, wideVariant("q", v)))
		return func() string { return out + scopeText(one) }
	})
	for i := range os {
		os[i].hist = strings.HasPrefix(os[i].name, "wide-nest")
	}
	return
}()

func writeString(path, s string) error { return os.WriteFile(path, []byte(s), 0o644) }

func adaptScanner(src string, m scanner.Mode, out io.Writer) (*scanner.Scanner, *gotok.File) {
	f := gotok.NewFileSet().AddFile("w", -1, len(src))
	s := &scanner.Scanner{}
	s.Init(f, []byte(src), func(pos gotok.Position, msg string) { fmt.Fprintln(out, pos, msg) }, m)
	return s, f
}

// scopeText is what a scope says about itself, without its address and order.
func scopeText(s *ast.Scope) string {
	if s == nil {
		return "nil"
	}
	t := s.String()
	ls := strings.Split(t[strings.IndexByte(t, '{')+1:], "\n")
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}
