package checks

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/adapt"
	"verif/ref"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// opEnv is what an operation may use: values shared by several operations, as a
// program would share them, and values of its own.
type opEnv struct {
	biber    *bibtex.Biber // with default options
	full     *bibtex.Biber // with all resolvers
	raw      *bibtex.Biber
	custom   *bibtex.Biber // with an own renderer
	author   bibtex.AuthorResolver
	renderR  *bibtex.RenderParsedTextResolver
	text     *render.TextRenderer
	tree     *ast.File // never changed by an operation
	treeDump string
	fset     *gotok.FileSet
	dir      string
	own      string // a directory of its own
}

const opDoc = `% doc
@string{n = "v {w}"}
@article{key1,
  author = {Doe, Jane and {A and B} and von Last, Jr, First},
  Title = {T {\'e}x \& more, a~b $x_1$},
  url = "http://a.b/~c,d", % line
  x = n # "y" # {z {\$}},
}
@book(k2, year = 2004, editor = "A \& B and others")
@preamble{"p"}
`

const opDoc2 = `@misc{other, title = {{U}n "q" {\"o}\~n}, author = {X Y}, note = {\url{http://q/~r}}}
@c{k, j, a = {\{ \} \% \_}, b = "\c c, \c{C}", c = {a
 b}}
`

// opDoc3 is as long as opDoc2 and starts like it.
var opDoc3 = strings.ReplaceAll(strings.ReplaceAll(opDoc2, "other", "bther"), "X Y", "Z W")

const opBad = "@a{k}\n@b{j, x = }\n@c{l, y = {\\1 \\'}}\n@d{m, z = \"a} }\n@e{"

// Other malformed sources, one with the mistakes on other lines, and a short one.
const (
	opBad2 = "\n\n% c\n@c{l, y = {\\9 \\~ \\\"}}\n @d{ } \n@b{j, = 1}\n@e{k, x = 1 # }\n@x"
	opBad3 = " @string{=1}"
)

var (
	opDeep  = "@a{k,x=" + strings.Repeat("{a ", 300) + "\\&" + strings.Repeat("}", 300) + "}"
	opLarge = strings.Repeat(opDoc2, 30)
)

func newEnv(dir, own, doc string) *opEnv {
	e := &opEnv{dir: dir, own: own, fset: gotok.NewFileSet()}
	e.author = bibtex.NewAuthorResolver("author", "editor")
	e.renderR = bibtex.NewRenderParsedTextResolver()
	e.biber = bibtex.New()
	e.full = bibtex.New(bibtex.WithResolvers(e.author, bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), e.renderR))
	e.raw = bibtex.New(bibtex.WithParserMode(parser.ParseComments))
	e.custom = bibtex.New(bibtex.WithRenderer(ast.KindText, func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
		if t, ok := n.(*ast.Text); ok && entering {
			if _, err := io.WriteString(w, "<"+t.Value+">"); err != nil {
				return ast.WalkStop, err
			}
		}
		return ast.WalkContinue, nil
	}), bibtex.WithRenderer(ast.KindTextComma, nil))
	e.text = render.NewTextRenderer()
	e.tree, _ = parser.ParseFile(gotok.NewFileSet(), "shared.bib", doc, parsed|parser.ParseComments)
	e.treeDump = treeText(e.tree)
	return e
}

// setup writes the files that operations read.
func opFiles(dir, opDoc, opDoc2, opBad string) {
	os.MkdirAll(dir, 0o755)
	for n, s := range map[string]string{"one.bib": opDoc, "two.bib": opDoc2, "bad.bib": opBad} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
}

func treeText(f *ast.File) string {
	if f == nil {
		return "nil"
	}
	c := adapt.Conv{Base: 1}
	return f.Name + " " + string(ref.AppendDoc(nil, c.File(f), ref.DPos|ref.DRaw|ref.DDoc))
}

func errText(err error) string {
	if l, ok := adapt.ErrList(err); ok {
		var s []string
		for _, e := range l {
			s = append(s, e.Error())
		}
		return strings.Join(s, "\n")
	}
	// A message may show a node with %v, addresses included.
	return addresses.ReplaceAllString(fmt.Sprint(err), "0x")
}

var addresses = regexp.MustCompile("0x[0-9a-f]{6,}")

var errFull = errors.New("full")

// An op is an operation of the library on values of its own, or on shared ones
// that it doesn't change. It returns a function that shows its result.
type op struct {
	name string
	run  func(e *opEnv) func() string
	slow bool
	hist bool // for histories only
	huge bool // only with other huge ones
	wide bool // only with other wide ones
}

func parseOp(name, src string, m parser.Mode) op {
	return op{name: name, run: func(e *opEnv) func() string {
		b := []byte(src)
		f, err := parser.ParseFile(gotok.NewFileSet(), name, b, m)
		return func() string {
			if string(b) != src {
				return "the source was changed"
			}
			return treeText(f) + errText(err)
		}
	}}
}

func entriesText(es []bibtex.Entry, err error) string {
	var s []string
	for _, e := range es {
		t := e.Type + " " + e.Key
		var ks []string
		for k := range e.Tags {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			t += " " + k + "=" + flat(e.Tags[k])
		}
		s = append(s, t)
	}
	return strings.Join(s, "\n") + errText(err)
}

// resolveOp parses and resolves with a Biber.
func resolveOp(name, src string, b func(e *opEnv) *bibtex.Biber) op {
	return op{name: name, run: func(e *opEnv) func() string {
		bib := b(e)
		f, err := bib.Parse(strings.NewReader(src))
		if err != nil {
			return func() string { return errText(err) }
		}
		es, err := bib.Resolve(f)
		return func() string { return treeText(f) + entriesText(es, err) }
	}}
}

// renderOp renders the shared tree, or one of its own.
func renderOp(name, src string, b func(e *opEnv) *bibtex.Biber, failAt int) op {
	return op{name: name, run: func(e *opEnv) func() string {
		n := e.tree
		if src != "" {
			n, _ = parser.ParseFile(gotok.NewFileSet(), name, src, parsed)
		}
		w := &failWriter{at: failAt, part: 1, err: errFull}
		err := b(e).Render(w, n)
		return func() string { return string(w.buf) + "|" + errText(err) + treeText(n) }
	}}
}

func firstValue(f *ast.File, name string) ast.Expr {
	for _, d := range f.Entries {
		if b, ok := d.(*ast.BibDecl); ok {
			for _, t := range b.Tags {
				if t.Name == name {
					return t.Value
				}
			}
		}
	}
	return nil
}

func authorsOp(name, src string) op {
	return op{name: name, run: func(e *opEnv) func() string {
		f := e.tree
		if src != "" {
			f, _ = parser.ParseFile(gotok.NewFileSet(), name, src, parsed)
		}
		t := firstValue(f, "author").(*ast.ParsedText)
		as, err := bibtex.ExtractAuthors(t)
		return func() string {
			s := ""
			for _, a := range as {
				s += fmt.Sprint(flat(a), a.IsEmpty(), a.IsOthers(), "; ")
			}
			return s + errText(err) + treeText(f)
		}
	}}
}

func scanOp(name, src, opDoc2 string, m scanner.Mode) op {
	return op{name: name, run: func(e *opEnv) func() string {
		var out bytes.Buffer
		s, f := adapt.NewScanner(name, []byte(src), m, func(pos gotok.Position, msg string) { fmt.Fprintln(&out, pos, msg) })
		for i := 0; i < 3*len(src)+9; i++ {
			p, t, l := s.Scan()
			fmt.Fprintln(&out, f.Offset(p), t, l)
			if t == token.EOF {
				break
			}
		}
		fmt.Fprintln(&out, s.ErrorCount)
		// Again with the same scanner.
		g := gotok.NewFileSet().AddFile("again", -1, len(opDoc2))
		s.Init(g, []byte(opDoc2), nil, m)
		for i := 0; i < 40; i++ {
			p, t, l := s.Scan()
			fmt.Fprintln(&out, g.Offset(p), t, l)
		}
		return out.String
	}}
}

func theBiber(e *opEnv) *bibtex.Biber  { return e.biber }
func fullBiber(e *opEnv) *bibtex.Biber { return e.full }
func rawBiber(e *opEnv) *bibtex.Biber  { return e.raw }
func newBiber(e *opEnv) *bibtex.Biber  { return bibtex.New() }

func overridden(e *opEnv) *bibtex.Biber {
	up := func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
		if entering {
			io.WriteString(w, "?")
		}
		return ast.WalkSkipChildren, nil
	}
	return bibtex.New(bibtex.WithRenderer(ast.KindParsedText, up), bibtex.WithRenderer(ast.KindTextSpace, nil), bibtex.WithRenderer(ast.KindNumber, up), bibtex.WithRenderer(ast.KindIdent, up))
}

var opTrace = parsed | parser.Trace

// ops are the operations. Each is a function of the shared values alone.
var ops = append(append(makeOps(opDoc, opDoc2, opDoc3, opDeep, 14), hugeOps...), wideOps...)

// hugeOps are operations on values that come near the limits of the library: two
// of them at once, or one after the other, are beyond.
var hugeOps = func() (os []op) {
	const n = 60000
	nest := "@a{k,title=" + strings.Repeat("{", n) + "t" + strings.Repeat("}", n) + ",y=1}"
	chain := "@a{k,title=1" + strings.Repeat("#n", n) + ",y=1}"
	people := "@a{k,author={A B" + strings.Repeat(" and Cc von Dd, E", 800) + "},title={" + strings.Repeat("a {b~c}, \\& $x$ ", 800) + "}}"
	long := strings.Repeat(opDoc2, 100)
	os = append(os,
		parseOp("huge-nest", nest, parsed), parseOp("huge-chain", chain, parsed), parseOp("huge-chain-raw", chain, raw),
		parseOp("huge-nest-fails", nest[:n+40], parsed), parseOp("huge-chain-fails", chain[:2*n], parsed),
		parseOp("huge-wide", long, parsed|parser.ParseComments), parseOp("huge-wide-fails", strings.Repeat(opBad, 60), parsed|parser.AllErrors),
		resolveOp("huge-resolve-nest", nest, fullBiber), resolveOp("huge-resolve-people", people, fullBiber), resolveOp("huge-resolve-wide", long, fullBiber),
		renderOp("huge-render-nest", nest, theBiber, -1), renderOp("huge-render-chain", chain, theBiber, -1), renderOp("huge-render-fails", nest, theBiber, n/2),
		renderOp("huge-render-people", people, theBiber, -1),
		authorsOp("huge-authors", people),
		op{name: "huge-text", run: func(e *opEnv) func() string {
			f, _ := parser.ParseFile(gotok.NewFileSet(), "t", nest, parsed)
			var sb strings.Builder
			err := e.text.Render(&sb, firstValue(f, "title"))
			w := &failWriter{at: 0, err: errFull}
			err2 := e.text.Render(w, firstValue(f, "title"))
			return func() string { return sb.String() + errText(err) + errText(err2) }
		}},
		op{name: "huge-expr", run: func(e *opEnv) func() string {
			x, err := parser.ParseExpr("\"" + strings.Repeat("{", n) + strings.Repeat("}", n) + "\"" + strings.Repeat("#1", n/10))
			return func() string { return flat(x) + errText(err) + extent(x) }
		}},
		scanOp("huge-scan", nest, "\"q\"", scanner.ScanStrings),
	)
	for i := range os {
		os[i].slow, os[i].huge = true, true
		run := os[i].run
		os[i].run = func(e *opEnv) func() string {
			show := run(e)
			return func() string {
				s := show()
				if len(s) < 1000 {
					return s
				}
				return fmt.Sprintf("%d bytes, hash %x, %s ... %s", len(s), sha256.Sum256([]byte(s)), s[:200], s[len(s)-200:])
			}
		}
	}
	return
}()

// makeOps makes the operations from three documents, the last two of one length,
// a deeply nested one and a number of errors.
func makeOps(opDoc, opDoc2, opDoc3, opDeep string, errs int) []op {
	opBad := opBad
	if errs < 14 {
		opBad = "@a{k}@b{j,x=\"} }"
	}
	return []op{
		parseOp("parse", opDoc, parsed),
		parseOp("parse-raw", opDoc, raw),
		parseOp("parse-2", opDoc2, parsed),
		parseOp("parse-3", opDoc3, parsed),
		parseOp("parse-comments", opDoc, parsed|parser.ParseComments),
		parseOp("parse-bad", opBad, parsed),
		parseOp("parse-bad-raw", opBad, parser.AllErrors),
		parseOp("parse-bad-2", opBad2, parsed),
		parseOp("parse-bad-raw-2", opBad2, parser.AllErrors),
		parseOp("parse-bad-all", opBad3, parsed|parser.AllErrors|parser.ParseComments),
		parseOp("parse-many-errors", strings.Repeat("@a{k,1=2}\n", errs), parsed),
		parseOp("parse-many-fields", strings.Repeat("@a{k,x}\n", errs), parsed),
		parseOp("parse-empty", "", parsed),
		parseOp("parse-trace", "@a{k, x = {b \\& c}}", opTrace),
		parseOp("parse-decl-errors", "@a{k}@a{k}@string{s=1}@string{s=2}", parsed|parser.DeclarationErrors),
		parseOp("parse-invalid", "\ufeff@a{k, x = {\xff\x00}}", parsed),
		parseOp("parse-cut", opDoc[:len(opDoc)/2], parsed),
		resolveOp("resolve", opDoc, theBiber),
		resolveOp("resolve-full", opDoc, fullBiber),
		resolveOp("resolve-full-2", opDoc2, fullBiber),
		resolveOp("resolve-full-fails", "@a{k, x = {\\'q}, author = {A and }}", fullBiber),
		resolveOp("resolve-full-not-text", "@a{k, author = 1}", fullBiber),
		resolveOp("resolve-raw", opDoc, rawBiber),
		{name: "resolve-own", run: func(e *opEnv) func() string {
			b := bibtex.New(bibtex.WithParserMode(parsed), bibtex.WithResolvers(bibtex.NewAuthorResolver("author")), bibtex.WithResolvers(bibtex.ResolverFunc(func(n ast.Node) error {
				return ast.Walk(n, func(n ast.Node, _ bool) (ast.WalkStatus, error) {
					if t, ok := n.(*ast.Text); ok {
						t.Value = strings.ToUpper(t.Value)
					}
					return ast.WalkContinue, nil
				})
			})))
			f, err := b.Parse(strings.NewReader(opDoc))
			if err != nil {
				return func() string { return errText(err) }
			}
			es, err := b.Resolve(f)
			return func() string { return treeText(f) + entriesText(es, err) }
		}},
		{name: "resolve-wrong-node", run: func(e *opEnv) func() string {
			es, err := e.full.Resolve(asts.Text("x"))
			return func() string { return entriesText(es, err) }
		}},
		{name: "resolve-shared", run: func(e *opEnv) func() string {
			es, err := e.biber.Resolve(e.tree)
			return func() string { return entriesText(es, err) }
		}},
		renderOp("render", "", theBiber, -1),
		renderOp("render-new", "", newBiber, -1),
		renderOp("render-overridden", "", overridden, -1),
		renderOp("render-custom", opDoc2, func(e *opEnv) *bibtex.Biber { return e.custom }, -1),
		renderOp("render-own", opDoc2, theBiber, -1),
		renderOp("render-fails", "", theBiber, 7),
		renderOp("render-fails-early", opDoc2, newBiber, 0),
		{name: "render-defaults-changed", run: func(e *opEnv) func() string {
			d := render.Defaults()
			for i := range d {
				d[i] = nil
			}
			var sb strings.Builder
			n := firstValue(e.tree, "title")
			st, err := render.Defaults()[ast.KindText].Render(&sb, asts.Text("t"), true)
			return func() string { return fmt.Sprint(st, err, sb.String(), flat(n), len(d)) }
		}},
		{name: "text", run: func(e *opEnv) func() string {
			var sb strings.Builder
			err := e.text.Render(&sb, firstValue(e.tree, "title"))
			err2 := e.text.Render(&sb, firstValue(e.tree, "x"))
			return func() string { return sb.String() + errText(err) + errText(err2) }
		}},
		{name: "text-fails", run: func(e *opEnv) func() string {
			w := &failWriter{at: 3, part: 0, err: errFull}
			err := e.text.Render(w, firstValue(e.tree, "title"))
			x, _ := parser.ParseExpr("{a \\'q b}")
			w2 := &failWriter{at: -1}
			err2 := e.text.Render(w2, x)
			return func() string { return string(w.buf) + errText(err) + string(w2.buf) + errText(err2) }
		}},
		{name: "accents", run: func(e *opEnv) func() string {
			s := ""
			for _, a := range []struct {
				a token.Accent
				t string
			}{{token.AccentAcute, "e"}, {token.AccentDot, "I"}, {token.AccentTilde, "n"}, {token.AccentCedilla, "C"}} {
				r, err := render.RenderAccent(a.a, a.t)
				s += fmt.Sprint(string(r), err)
			}
			return func() string { return s }
		}},
		{name: "accents-fail", run: func(e *opEnv) func() string {
			s := ""
			for _, t := range []string{"q", "", "ab", "é"} {
				r, err := render.RenderAccent(token.AccentAcute, t)
				s += fmt.Sprint(string(r), err)
			}
			return func() string { return s }
		}},
		authorsOp("authors", ""),
		authorsOp("authors-own", "@a{k, author = {Ludwig van Beethoven and Doe~Jr, {\\'E}. and \\\"O and others}}"),
		authorsOp("authors-same", opDoc),
		authorsOp("authors-fail", "@a{k, author = {A and and B}}"),
		authorsOp("authors-many", "@a{k,author={"+strings.Repeat("Aa Bb~Cc and ", errs*4)+"others}}"),
		{name: "expr", run: func(e *opEnv) func() string {
			x, err := parser.ParseExpr("\"a {b \\& c}\" # d # 1")
			s := asts.ExprString(x) + extent(x)
			return func() string { return flat(x) + errText(err) + s + extent(x) }
		}},
		{name: "expr-fails", run: func(e *opEnv) func() string {
			x, err := parser.ParseExpr("{a \"\\1")
			y, err2 := parser.ParseExpr(strings.Repeat("1#=", 30))
			return func() string { return fmt.Sprint(x == nil, y == nil) + errText(err) + errText(err2) }
		}},
		{name: "package", run: func(e *opEnv) func() string {
			ps := []string{filepath.Join(e.dir, "one.bib"), filepath.Join(e.dir, "bad.bib"), filepath.Join(e.dir, "none.bib"), filepath.Join(e.dir, "two.bib")}
			pkg, err := parser.ParsePackage(ps, parsed)
			return func() string {
				var ks []string
				for k := range pkg.Files {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				s := ""
				for _, k := range ks {
					s += k + treeText(pkg.Files[k])
				}
				return strings.ReplaceAll(s+errText(err), e.dir, "DIR")
			}
		}},
		{name: "read-fails", run: func(e *opEnv) func() string {
			f, err := e.biber.Parse(&script{src: []byte(opDoc), chunks: []int{100, 50}, end: errRead})
			g, err2 := parser.ParseFile(gotok.NewFileSet(), "x", 1, parsed)
			h, err3 := parser.ParseFile(gotok.NewFileSet(), e.dir+"/none.bib", nil, parsed)
			return func() string {
				return strings.ReplaceAll(fmt.Sprint(f == nil, g == nil, h == nil, errors.Is(err, errRead))+errText(err)+errText(err2)+errText(err3), e.dir, "DIR")
			}
		}},
		fileOp("file-1", opDoc2), fileOp("file-2", opDoc3),
		{name: "walk-stop", run: func(e *opEnv) func() string {
			n := 0
			err := ast.Walk(e.tree, func(x ast.Node, enter bool) (ast.WalkStatus, error) {
				n++
				if n == 17 {
					return ast.WalkContinue, errWalk
				}
				return ast.WalkContinue, nil
			})
			m := 0
			err2 := ast.Walk(e.tree, func(x ast.Node, enter bool) (ast.WalkStatus, error) {
				m++
				if _, ok := x.(*ast.TagStmt); ok {
					return ast.WalkSkipChildren, nil
				}
				return ast.WalkContinue, nil
			})
			return func() string { return fmt.Sprint(n, err, m, err2) }
		}},
		scanOp("scan", opDoc, opDoc2, scanner.ScanStrings),
		scanOp("scan-bad", opBad+"\x00\xff", opDoc2, scanner.ScanComments),
		{name: "build", run: func(e *opEnv) func() string {
			d := &ast.BibDecl{}
			asts.WithBibType("t")(d)
			asts.WithBibKeys("a", "b")(d)
			x := asts.BraceText(0, "a", " ", "{b c}", "$m$", asts.Macro("url", "u", asts.Comma()))
			asts.WithBibTags("k", x, "l", asts.Ident("i"))(d)
			c := adapt.Conv{}
			s := asts.ExprString(x)
			return func() string { return string(ref.AppendNode(nil, c.Decl(d), ref.DRaw)) + s }
		}},
		{name: "scope", run: func(e *opEnv) func() string {
			s := ast.NewScope(nil)
			a, b := ast.NewObj(ast.Entry, "n"), ast.NewObj(ast.Abbrev, "n")
			x, y := s.Insert(a), s.Insert(b)
			t := ast.NewScope(s)
			return func() string {
				return fmt.Sprint(x == nil, y == a, s.Lookup("n") == a, t.Lookup("n") == nil, t.Outer == s, len(t.Objects), a.Pos())
			}
		}},
		{name: "kinds", run: func(e *opEnv) func() string {
			s := ""
			for k := 0; k < nKinds; k++ {
				s += ast.NodeKind(k).String() + " "
			}
			for t := token.Illegal; t <= token.Comma; t++ {
				s += t.String() + " "
			}
			return func() string { return s }
		}},
		{name: "escaped", run: func(e *opEnv) func() string {
			f, _ := parser.ParseFile(gotok.NewFileSet(), "e", opDoc, parsed)
			err := bibtex.SimplifyEscapedTextResolver(f)
			err2 := e.renderR.Resolve(f)
			return func() string { return treeText(f) + errText(err) + errText(err2) }
		}},
		{name: "author-resolver", run: func(e *opEnv) func() string {
			f, _ := parser.ParseFile(gotok.NewFileSet(), "e", opDoc, parsed)
			err := e.author.Resolve(f)
			err2 := e.author.Resolve(f) // the values aren't texts any more
			return func() string { return treeText(f) + errText(err) + errText(err2) }
		}},
		renderROp("render-resolver", opDoc), renderROp("render-resolver-2", opDoc2), renderROp("render-resolver-3", opDoc3),
		resolveOp("resolve-full-3", opDoc3, fullBiber),
		authorROp("author-resolver-2", opDoc2), authorROp("author-resolver-3", opDoc3),
		{name: "expr-changed", hist: true, run: func(e *opEnv) func() string {
			x, err := parser.ParseExpr("\"a {b \\& c}\" # d # 1")
			was := flat(x) + errText(err) + extent(x)
			spoil(x)
			return func() string { return was + flat(x) }
		}},
		{name: "authors-changed", hist: true, run: func(e *opEnv) func() string {
			f, _ := parser.ParseFile(gotok.NewFileSet(), "a", opDoc, parsed)
			as, err := bibtex.ExtractAuthors(firstValue(f, "author").(*ast.ParsedText))
			was := flat(as) + errText(err)
			for _, a := range as {
				spoil(a.First)
				spoil(a.Last)
				spoil(a.Prefix)
				spoil(a.Suffix)
			}
			return func() string { return was + flat(as) }
		}},
		{name: "entries-changed", hist: true, run: func(e *opEnv) func() string {
			es, err := e.biber.Resolve(e.tree)
			was := entriesText(es, err)
			for i := range es {
				es[i].Key, es[i].Type = "spoilt", "spoilt"
				for k := range es[i].Tags {
					es[i].Tags[k] = asts.Text("spoilt")
				}
				es[i].Tags["spoilt"] = asts.Text("s")
			}
			return func() string { return was + entriesText(es, err) }
		}},
		{name: "file-changed", hist: true, run: func(e *opEnv) func() string {
			f, err := e.biber.Parse(strings.NewReader(opDoc2))
			was := treeText(f) + errText(err)
			for _, d := range f.Entries {
				if d, ok := d.(*ast.BibDecl); ok {
					d.Type = "spoilt"
					for _, t := range d.Tags {
						t.Name = "spoilt"
						spoil(t.Value)
					}
				}
			}
			f.Entries = f.Entries[:1]
			return func() string { return was + treeText(f) }
		}},
		{name: "again", hist: true, run: func(e *opEnv) func() string {
			// What is known of a node must not outlive a change of the node.
			f, _ := parser.ParseFile(gotok.NewFileSet(), "e", opDoc, parsed)
			bad := ""
			check := func(what string, do func(f *ast.File) string) {
				g := adapt.CloneFile(f)
				if x, y := do(f), do(g); x != y {
					bad += "\nWRONG: " + what + " gives " + x + "\nfor a copy of the same tree it gives " + y
				}
			}
			for i := 0; i < 3; i++ {
				check("text renderer", func(f *ast.File) string {
					var sb strings.Builder
					err := e.text.Render(&sb, firstValue(f, "title"))
					return sb.String() + errText(err)
				})
				check("Biber renderer", func(f *ast.File) string {
					var sb strings.Builder
					err := e.biber.Render(&sb, f)
					return sb.String() + errText(err)
				})
				check("Resolve", func(f *ast.File) string { return entriesText(e.biber.Resolve(f)) })
				check("ExprString", func(f *ast.File) string { return asts.ExprString(firstValue(f, "title")) })
				if p, ok := firstValue(f, "author").(*ast.ParsedText); ok {
					_ = p
					check("ExtractAuthors", func(f *ast.File) string {
						as, err := bibtex.ExtractAuthors(firstValue(f, "author").(*ast.ParsedText))
						return flat(as) + errText(err)
					})
				}
				switch i {
				case 0:
					spoil(firstValue(f, "title"))
					spoil(firstValue(f, "author"))
				case 1:
					e.renderR.Resolve(f)
					firstValue(f, "title").(*ast.Text).Value += "!"
				}
			}
			return func() string { return flat(firstValue(f, "title")) + bad }
		}},
		{name: "rewritten", hist: true, run: func(e *opEnv) func() string {
			// A file is what it is when it's read, whatever it looked like before.
			dir := filepath.Join(e.own, "rw")
			os.RemoveAll(dir)
			defer os.RemoveAll(dir)
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, "f.bib")
			var out strings.Builder
			at := time.Unix(1600000000, 0)
			for i, src := range []string{opDoc2, opDoc3, opDoc2, opDoc3[:len(opDoc3)-1] + "\n", opBad3, opDoc3, "", opDoc2} {
				if i == 3 { // another file
					os.Remove(path)
				}
				if os.WriteFile(path, []byte(src), 0o644) != nil || os.Chtimes(path, at, at) != nil || os.Chtimes(dir, at, at) != nil {
					return func() string { return "" }
				}
				f, err := parser.ParseFile(gotok.NewFileSet(), path, nil, parsed)
				g, err2 := parser.ParseFile(gotok.NewFileSet(), path, []byte(src), parsed)
				got, want := treeText(f)+errText(err), treeText(g)+errText(err2)
				if got != want {
					fmt.Fprintf(&out, "\nWRONG: version %d of the file gives %s\nits content gives %s", i, got, want)
				}
				f = nil
				p, err := parser.ParsePackage([]string{path}, parsed)
				if p != nil {
					f = p.Files[path]
				}
				got = treeText(f) + errText(err)
				if err2 == nil && got != want {
					fmt.Fprintf(&out, "\nWRONG: version %d of the file in a package gives %s\nits content gives %s", i, got, want)
				}
				if (err == nil) != (err2 == nil) {
					fmt.Fprintf(&out, "\nWRONG: version %d of the file in a package gives %v, its content %v", i, err, err2)
				}
			}
			os.Remove(path)
			if _, err := parser.ParseFile(gotok.NewFileSet(), path, nil, parsed); err == nil {
				out.WriteString("\nWRONG: a removed file can be read")
			}
			s := out.String()
			return func() string { return s }
		}},
		parseOp("parse-deep", opDeep, parsed),
		{name: "parse-large", slow: true, run: parseOp("parse-large", opLarge, parsed).run},
		{name: "resolve-deep", slow: true, run: resolveOp("resolve-deep", opDeep, fullBiber).run},
		{name: "resolve-large", slow: true, run: resolveOp("resolve-large", opLarge, fullBiber).run},
	}
}

// spoil changes the texts of an expression in place.
func spoil(x ast.Expr) {
	switch x := x.(type) {
	case *ast.Text:
		if x != nil {
			x.Value += "?"
		}
	case *ast.TextEscaped:
		x.Value += "?"
	case *ast.Number:
		x.Value += "9"
	case *ast.Ident:
		x.Name += "q"
	case *ast.ParsedText:
		if x != nil {
			for _, v := range x.Values {
				spoil(v)
			}
			x.Values = append(x.Values, &ast.Text{Value: "spoilt"})
		}
	case *ast.ConcatExpr:
		spoil(x.X)
		spoil(x.Y)
	}
}

// renderROp resolves a document with the shared rendering resolver alone.
func renderROp(name, src string) op {
	return op{name: name, run: func(e *opEnv) func() string {
		f, err := parser.ParseFile(gotok.NewFileSet(), "e", src, parsed)
		err2 := e.renderR.Resolve(f)
		return func() string { return treeText(f) + errText(err) + errText(err2) }
	}}
}

// authorROp resolves a document with the shared author resolver alone.
func authorROp(name, src string) op {
	return op{name: name, run: func(e *opEnv) func() string {
		f, err := parser.ParseFile(gotok.NewFileSet(), "e", src, parsed)
		err2 := e.author.Resolve(f)
		return func() string { return treeText(f) + errText(err) + errText(err2) }
	}}
}

// fileOp writes a file and parses it by its name.
func fileOp(name, src string) op {
	return op{name: name, run: func(e *opEnv) func() string {
		p := filepath.Join(e.own, "f.bib")
		if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(gotok.NewFileSet(), p, nil, parsed)
		return func() string { return strings.ReplaceAll(treeText(f)+errText(err), p, "P") }
	}}
}

// runOp runs an operation under a recover.
func runOp(o op, e *opEnv) (show func() string) {
	p := adapt.Guard(func() { show = o.run(e) })
	if p != nil {
		s := p.Error()
		return func() string { return s }
	}
	return show
}
