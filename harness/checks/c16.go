package checks

import (
	"errors"
	"fmt"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
)

// A resolver's behaviour is a letter:
//
//	o  succeeds
//	m  adds a field to every entry, or an entry to every file
//	F  fails always    1  fails in its first call    2  fails in its second call
//	M  changes the tree, then fails
//	s  the same resolver as the one before it in the list (m if there is none)
const behaviours = "omF12Ms"

// probe is a resolver that records its calls.
type probe struct {
	id    int
	kind  byte
	calls int
	log   *[]string
	err   error
}

// see is what a resolver sees of a tree: how often it was changed.
func see(n ast.Node) string {
	switch n := n.(type) {
	case *ast.BibDecl:
		return fmt.Sprintf("%p/%d", n, len(n.Tags))
	case *ast.File:
		return fmt.Sprintf("%p/%d", n, len(n.Entries))
	case *ast.Package:
		return fmt.Sprintf("%p/%d", n, len(n.Files))
	}
	return fmt.Sprintf("%p", n)
}

func change(n ast.Node) {
	switch n := n.(type) {
	case *ast.BibDecl:
		k := fmt.Sprintf("new%d", len(n.Tags))
		n.Tags = append(n.Tags, &ast.TagStmt{Name: k, RawName: k, Value: &ast.Number{Value: "1"}})
	case *ast.File:
		n.Entries = append(n.Entries, &ast.BibDecl{Type: "new"})
	case *ast.Package:
		n.Files[fmt.Sprintf("new%d", len(n.Files))] = &ast.File{Entries: []ast.Decl{&ast.BibDecl{Type: "new"}}}
	}
}

func (p *probe) fails() bool {
	return p.kind == 'F' || p.kind == 'M' || p.kind == '1' && p.calls == 1 || p.kind == '2' && p.calls == 2
}

func (p *probe) Resolve(n ast.Node) error {
	p.calls++
	*p.log = append(*p.log, fmt.Sprintf("%d sees %s", p.id, see(n)))
	if p.kind == 'm' || p.kind == 'M' {
		change(n)
	}
	if p.fails() {
		return p.err
	}
	return nil
}

// changes counts the changes to a tree, by the number of calls so far.
type fakeTree struct {
	n    ast.Node
	size int
}

func (t fakeTree) see() string {
	switch t.n.(type) {
	case *ast.BibDecl, *ast.File, *ast.Package:
		return fmt.Sprintf("%p/%d", t.n, t.size)
	}
	return fmt.Sprintf("%p", t.n)
}

func newRoot(kind byte) fakeTree {
	switch kind {
	case 'b':
		return fakeTree{&ast.BibDecl{Type: "t"}, 0}
	case 'f':
		return fakeTree{&ast.File{Entries: []ast.Decl{&ast.BibDecl{Type: "t"}, &ast.PreambleDecl{Text: &ast.Text{}}}}, 2}
	case 'p':
		return fakeTree{&ast.Package{Files: map[string]*ast.File{"f": {Entries: []ast.Decl{&ast.BibDecl{Type: "t"}}}}}, 1}
	}
	return fakeTree{&ast.Text{Value: "x"}, 0}
}

// wantEntries is how many entries resolving the tree gives, -1 for an error.
func (t fakeTree) wantEntries() int {
	switch t.n.(type) {
	case *ast.BibDecl:
		return 1
	case *ast.File:
		return t.size - 1
	case *ast.Package:
		return t.size
	}
	return -1
}

// evalC16: aux is "behaviours split root", where bit i of split says that a new
// option begins before resolver i+1, and root is the kind of tree.
func evalC16(w *core.W, aux string, _ []byte) string {
	var kinds, roots string
	var split, form int
	fmt.Sscan(aux, &kinds, &split, &roots, &form)
	if kinds == "-" {
		kinds = ""
	}
	special := form >> 2 // 0, or an error of its own: failErrs[special-1]
	form &= 3
	var log []string
	mk := func(base int) (ps []*probe, rs []bibtex.Resolver) {
		for i := 0; i < len(kinds); i++ {
			k := kinds[i]
			if k == 's' && i > 0 {
				ps = append(ps, ps[i-1])
				rs = append(rs, rs[i-1])
				continue
			}
			if k == 's' {
				k = 'm'
			}
			p := &probe{id: base + i, kind: k, log: &log}
			p.err = fmt.Errorf("%w: %w", errResolver, &typedErr{base + i})
			if special > 0 {
				p.err = failErrs[special-1]
			}
			ps = append(ps, p)
			if form&1 != 0 {
				rs = append(rs, bibtex.ResolverFunc(p.Resolve))
			} else {
				rs = append(rs, p)
			}
		}
		return
	}
	options := func(rs []bibtex.Resolver) (opts []bibtex.Option) {
		start := 0
		for i := 1; i <= len(rs); i++ {
			if i == len(rs) || split>>(i-1)&1 != 0 {
				// A list with spare capacity, which the caller goes on using.
				part := make([]bibtex.Resolver, i-start, i-start+4)
				copy(part, rs[start:i])
				opts = append(opts, bibtex.WithResolvers(part...))
				if form&2 != 0 {
					opts = append(opts, bibtex.WithParserMode(raw), bibtex.WithResolvers())
				}
				start = i
			}
		}
		return
	}
	ps, rs := mk(0)
	opts := options(rs)
	qs, rs2 := mk(100)
	opts2 := options(rs2)
	// Two Bibers from the same options, two that share only the first option,
	// and one from others.
	b1 := bibtex.New(opts...)
	b2 := bibtex.New(opts...)
	bibers := []*bibtex.Biber{b1, b2}
	lists := [][]*probe{ps, ps}
	if len(opts) > 0 {
		step := 1
		if form&2 != 0 {
			step = 3
		}
		n := len(kinds)
		for i := 1; i < len(kinds); i++ {
			if split>>(i-1)&1 != 0 {
				n = i
				break
			}
		}
		bibers = append(bibers, bibtex.New(append(append([]bibtex.Option{}, opts[:step]...), opts2...)...))
		lists = append(lists, append(append([]*probe{}, ps[:n]...), qs...))
	}
	bibers = append(bibers, bibtex.New(opts2...), bibtex.New())
	lists = append(lists, qs, nil)
	// A model of every probe's number of calls.
	calls := map[*probe]int{}
	for round := 0; round < 3; round++ {
		for i, b := range bibers {
			t := newRoot(roots[0])
			var want []string
			var fail *probe
			failAt := 0
			for j, p := range lists[i] {
				calls[p]++
				want = append(want, fmt.Sprintf("%d sees %s", p.id, t.see()))
				if p.kind == 'm' || p.kind == 'M' {
					t.size++
				}
				if p.kind == 'F' || p.kind == 'M' || p.kind == '1' && calls[p] == 1 || p.kind == '2' && calls[p] == 2 {
					fail, failAt = p, j
					break
				}
			}
			log = log[:0]
			es, err, s := resolve(b, t.n)
			w.Trace++
			w.Trans += int64(len(want))
			where := fmt.Sprintf("round %d, Biber %d", round, i)
			if s != "" {
				return where + ": " + s
			}
			if strings.Join(log, "; ") != strings.Join(want, "; ") {
				return bad("%s: resolvers ran: %s\nwant: %s", where, strings.Join(log, "; "), strings.Join(want, "; "))
			}
			w.Outcome([]byte(fmt.Sprint(len(want), fail != nil, failAt, len(es))))
			if fail != nil {
				var te *typedErr
				if special > 0 && (err == nil || !isErr(err, fail.err)) {
					return bad("%s: resolver %d failed with %T %v, but the error is: %v", where, fail.id, fail.err, fail.err, err)
				}
				if special == 0 && (err == nil || !errors.Is(err, errResolver) || !errors.As(err, &te) || te.n != fail.id) {
					return bad("%s: resolver %d failed, but the error is: %v", where, fail.id, err)
				}
				if len(es) != 0 {
					return bad("%s: an error and %d entries", where, len(es))
				}
				continue
			}
			n := t.wantEntries()
			if n < 0 && (err == nil || len(es) > 0) || n >= 0 && (err != nil || len(es) != n) {
				return bad("%s: want %d entries, got %d and error %v", where, n, len(es), err)
			}
		}
	}
	return ""
}

// evalC17: aux is the sequence of resolvers, E, R or A; src a source.
func evalC17(w *core.W, aux string, src []byte) string {
	f := parsedFile(src, parsed)
	if f == nil {
		return ""
	}
	seq, root := aux, byte('f')
	if i := strings.IndexByte(aux, ' '); i >= 0 {
		seq, root = aux[:i], aux[i+1]
	}
	var n ast.Node = f
	var tags []*ast.TagStmt // those reached, entries' first
	var others []*ast.TagStmt
	collect := func(ds []ast.Decl) {
		for _, d := range ds {
			switch d := d.(type) {
			case *ast.BibDecl:
				tags = append(tags, d.Tags...)
			case *ast.AbbrevDecl:
				if d.Tag != nil {
					others = append(others, d.Tag)
				}
			}
		}
	}
	switch root {
	case 'f':
		collect(f.Entries)
	case 'p':
		g := parsedFile(src, parsed)
		n = &ast.Package{Files: map[string]*ast.File{"x": f, "y": g}}
		collect(f.Entries)
		collect(g.Entries)
	case 'b':
		for _, d := range f.Entries {
			if b, ok := d.(*ast.BibDecl); ok {
				n = b
				collect([]ast.Decl{b})
				break
			}
		}
	case 't':
		for _, d := range f.Entries {
			if b, ok := d.(*ast.BibDecl); ok && len(b.Tags) > 0 {
				n = b.Tags[0]
				tags = b.Tags[:1]
				break
			}
		}
	case 'v':
		for _, d := range f.Entries {
			if b, ok := d.(*ast.BibDecl); ok && len(b.Tags) > 0 {
				if x, ok := b.Tags[0].Value.(*ast.ParsedText); ok {
					n = x
				}
				break
			}
		}
	}
	if n == ast.Node(f) && root != 'f' {
		return "" // the document has no such node
	}
	all := append(append([]*ast.TagStmt{}, tags...), others...)
	for step := 0; step < len(seq); step++ {
		if s, goOn := c17Step(w, n, seq[step], tags, others, all); s != "" {
			return bad("%s, step %d: %s", seq, step, s)
		} else if !goOn {
			return ""
		}
	}
	return ""
}

// unescape is the model of the escaped-text resolver on a value; it returns the
// canonical rendering of what the value becomes.
func unescape(x ast.Expr) (y ast.Expr) {
	switch x := x.(type) {
	case *ast.ParsedText:
		for i, v := range x.Values {
			if e, ok := v.(*ast.TextEscaped); ok {
				x.Values[i] = &ast.Text{Value: e.Value, ValuePos: e.ValuePos}
			} else {
				x.Values[i] = unescape(v)
			}
		}
	case *ast.ConcatExpr:
		x.X, x.Y = unescape(x.X), unescape(x.Y)
	}
	return x
}

// wantText is the model's text of a value.
func wantText(x ast.Expr) (string, bool, bool) {
	c := adapt.Conv{}
	return modelText(c.Expr(x))
}

const authorTag, editorTag = "author", "editor"

var (
	theEscape bibtex.Resolver = bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)
	theRender bibtex.Resolver = bibtex.NewRenderParsedTextResolver()
	theAuthor bibtex.Resolver = bibtex.NewAuthorResolver(authorTag, editorTag)
)

// c17Step runs one resolver and compares with the model. goOn is false if the
// rest isn't specified.
func c17Step(w *core.W, n ast.Node, kind byte, tags, others, all []*ast.TagStmt) (what string, goOn bool) {
	before := make([]ast.Expr, len(all))
	names := make([]string, len(all))
	for i, t := range all {
		before[i] = adapt.CloneExpr(t.Value)
		names[i] = t.Name + "/" + t.RawName
	}
	var bare ast.Expr
	if x, ok := n.(*ast.ParsedText); ok {
		bare = adapt.CloneExpr(x)
	}
	var res bibtex.Resolver
	switch kind {
	case 'E':
		res = theEscape
	case 'R':
		res = theRender
	case 'A':
		res = theAuthor
	}
	// What has to happen.
	want := make([]ast.Expr, len(all))
	alt := make([]ast.Expr, len(all)) // also acceptable
	fail, mayFail := false, false
	for i, x := range before {
		want[i] = adapt.CloneExpr(x)
		isField := i < len(tags)
		switch kind {
		case 'E':
			want[i] = unescape(want[i])
		case 'R':
			if _, ok := x.(*ast.ParsedText); !ok {
				continue
			}
			s, ok, known := wantText(x)
			if !known {
				return "", false
			}
			if !ok {
				if isField {
					fail = true
				} else {
					mayFail = true
				}
				continue
			}
			if isField {
				want[i] = &ast.Text{Value: s}
			} else {
				alt[i] = &ast.Text{Value: s}
			}
		case 'A':
			if t := all[i].Name; t != authorTag && t != editorTag {
				continue
			}
			p, ok := x.(*ast.ParsedText)
			var as ast.Authors
			if ok {
				var err error
				as, err = bibtex.ExtractAuthors(adapt.CloneExpr(p).(*ast.ParsedText))
				ok = err == nil
			}
			switch {
			case !isField: // what an @string is isn't specified
				mayFail = mayFail || !ok
				if ok {
					alt[i] = as
				}
			case !ok:
				fail = true
			default:
				want[i] = as
			}
		}
	}
	var err error
	if p := adapt.Guard(func() { err = res.Resolve(n) }); p != nil {
		return fmt.Sprintf("resolver %c: %v", kind, p), false
	}
	w.Trace++
	w.Trans += int64(len(all))
	if fail && err == nil {
		return fmt.Sprintf("resolver %c: a value can't be resolved, but no error", kind), false
	}
	if err != nil {
		if !fail && !mayFail {
			return fmt.Sprintf("resolver %c: %v", kind, err), false
		}
		return "", false
	}
	var out []byte
	for i, t := range all {
		if names[i] != t.Name+"/"+t.RawName {
			return fmt.Sprintf("resolver %c changed the name of a field", kind), false
		}
		if t.Value == nil {
			return fmt.Sprintf("resolver %c removed the value of %s", kind, t.Name), false
		}
		got, exp := flat(t.Value), flat(want[i])
		out = append(out, got...)
		if got == exp || alt[i] != nil && got == flat(alt[i]) {
			continue
		}
		return fmt.Sprintf("resolver %c: field %s was %s,\nis now %s,\nwant %s", kind, t.Name, clipStr(flat(before[i])), clipStr(got), clipStr(exp)), false
	}
	w.Outcome(out)
	if bare != nil {
		exp := bare
		if kind == 'E' {
			exp = unescape(bare)
		}
		if got := flat(n.(ast.Expr)); got != flat(exp) {
			return fmt.Sprintf("resolver %c: the string is now %s, want %s", kind, clipStr(got), clipStr(flat(exp))), false
		}
	}
	return "", true
}

func init() {
	reg(&core.Check{
		ID:   "C16",
		Rule: "every list of up to 4 (thorough: 5) resolvers of 7 behaviours, in every split into options, on every kind of root, with two Bibers from the same options, one that shares a prefix of the options and one from others, three rounds of calls: the log of calls, what each resolver saw, entries and errors compared with the model",
		Run: func(r *core.Run) {
			n := r.Pick(4, 5)
			var syms []string
			for _, b := range behaviours {
				syms = append(syms, string(b))
			}
			r.Par(fmt.Sprintf("resolvers%d", n), func(w *core.W) {
				gen.Words("", "", syms, 0, n, func(b []byte) bool {
					k := string(b)
					if k == "" {
						k = "-"
					}
					for split := 0; split < 1<<max(len(b)-1, 0); split++ {
						for _, root := range "bfpx" {
							for form := 0; form < 4; form++ {
								if !w.Emit(fmt.Sprintf("%s %d %c %d", k, split, root, form), nil) {
									return false
								}
							}
						}
					}
					return true
				})
			}, evalC16)
			r.Par("errors", func(w *core.W) {
				for e := range failErrs {
					for _, ks := range []string{"F", "oF", "Fo", "mFm", "M", "1", "2", "o2o", "ooF", "FF"} {
						for split := 0; split < 1<<(len(ks)-1); split++ {
							for _, root := range "bfpx" {
								for form := 0; form < 4; form++ {
									w.Emit(fmt.Sprintf("%s %d %c %d", ks, split, root, (e+1)<<2|form), nil)
								}
							}
						}
					}
				}
			}, evalC16)
			r.Par("many-resolvers", func(w *core.W) {
				for n := 0; n <= 40; n++ {
					for at := 0; at < n; at++ {
						for _, k := range "oFm2" {
							b := []byte(strings.Repeat("o", n))
							b[at] = byte(k)
							for _, split := range []int{0, 1 << 62 >> 1, 5, 1<<40 - 1} {
								w.Emit(fmt.Sprintf("%s %d f 0", b, split), nil)
							}
						}
					}
				}
			}, evalC16)
		},
	})
	reg(&core.Check{
		ID:   "C17",
		Rule: "documents with every string of the families in fields, author fields, concatenations and @string values; every sequence of up to 3 (thorough: 4) of the three resolvers; after each step every value compared with the model's",
		Run: func(r *core.Run) {
			var seqs []string
			gen.Words("", "", []string{"E", "R", "A"}, 1, r.Pick(3, 4), func(b []byte) bool { seqs = append(seqs, string(b)); return true })
			tmpl := []gen.Ctx{
				{Name: "field", Pre: "@a{k,x={", Suf: "},y=1,author={A \\& B and C},z=n#\"\\%\"}"},
				{Name: "author", Pre: "@a{k,Author={", Suf: "},x={\\&}}@b{j,editor=\"A, B\"}"},
				{Name: "quote", Pre: "@string{s={\\$ {\\_}}}@a{k,x=\"", Suf: "\",author=\"X\"}@preamble{{\\&}}"},
				{Name: "nested", Pre: "@a{k,x={a {", Suf: "}} # {\\&},editor={{A and \\&} B}}"},
				{Name: "string", Pre: "@string{s={", Suf: "}}@a{k,x=s,y={\\{}}"},
				{Name: "url", Pre: "@a{k,url={http://u/", Suf: "},author={A},note={\\url{x~y}}}"},
			}
			emit := func(name string, cs []gen.Ctx, syms []string, n int, seqs []string) {
				for _, c := range cs {
					c := c
					r.Par(fmt.Sprintf("%s%d-%s", name, n, c.Name), func(w *core.W) {
						gen.Words(c.Pre, c.Suf, syms, 0, n, func(b []byte) bool {
							for _, s := range seqs {
								if !w.Emit(s, b) {
									return false
								}
							}
							return true
						})
					}, evalC17)
				}
			}
			var withRoots []string
			for _, s := range seqs {
				for _, k := range "fpbtv" {
					withRoots = append(withRoots, s+" "+string(k))
				}
			}
			emit("roots", tmpl, valueElems, r.Pick(1, 2), withRoots)
			emit("elements", tmpl, valueElems, r.Pick(3, 3), seqs)
			emit("words", tmpl, gen.Alphabet, r.Pick(2, 3), seqs)
			emit("authors", tmpl[1:2], authorElems, r.Pick(3, 3), seqs)
			emit("authors", []gen.Ctx{
				{Name: "after-and", Pre: "@a{k,author={A and ", Suf: "},x={A and B}}"},
				{Name: "before-others", Pre: "@a{k,editor=\"A ", Suf: " and others\",author={others}}"},
				{Name: "before-and", Pre: "@a{k,Editor={", Suf: " and {others}},EDITOR={A and others}}"},
			}, authorElems, r.Pick(2, 3), seqs)
			r.Par("documents", func(w *core.W) {
				gen.Docs(r.Pick(2, 2)).Gen(func(b []byte) bool {
					for _, s := range seqs {
						if !w.Emit(s, b) {
							return false
						}
					}
					return true
				})
				gen.Vocab().Gen(func(b []byte) bool { return w.Emit("E", b) && w.Emit("R", b) && w.Emit("A", b) && w.Emit("ER", b) })
				gen.ValueDocs(1).Gen(func(b []byte) bool {
					for _, s := range seqs {
						if !w.Emit(s, b) {
							return false
						}
					}
					return true
				})
			}, evalC17)
			r.Par("fields", func(w *core.W) {
				fs := []string{",author={A and B}", ",AUTHOR={C\\&}", ",editor=\"D, E\"", ",x={\\'e \\&}", ",x=\"\\$\"", ",y={a} # {\\&}", ",editor=1", ",authors={F and G}", ",z={\\'q}", ",author={}"}
				gen.Words("@a{k", "}", fs, 0, r.Pick(3, 4), func(b []byte) bool {
					for _, s := range seqs {
						if !w.Emit(s, b) {
							return false
						}
					}
					return true
				})
			}, evalC17)
			r.Par("long", func(w *core.W) {
				for _, n := range bigSizes(r.Thorough()) {
					if n == 0 {
						continue
					}
					for _, s := range []string{"E", "R", "A", "ER", "AR", "EA", "ARE"} {
						w.Emit(s, []byte("@a{k,x="+strings.Repeat("{\\& ", n)+strings.Repeat("\\$}", n)+"}"))
						w.Emit(s, []byte("@a{k"+strings.Repeat(",x={\\&},author={A and B}", n)+"}"))
						w.Emit(s, []byte("@a{k,author={"+strings.Repeat("A \\& and ", n)+"B}}"))
						w.Emit(s, []byte("@a{k,x="+strings.Repeat("{\\&}#", n)+"2}"))
						w.Emit(s, []byte(strings.Repeat("@a{k,x={\\&}}@string{s={\\&}}", n)))
					}
				}
			}, evalC17)
		},
	})
}
