package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// sameExpr reports whether two values are the same node.
func sameExpr(a, b ast.Expr) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return idOf(a) == idOf(b) && fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
}

// entryOf compares a resolved entry with its declaration.
func entryOf(d *ast.BibDecl, e bibtex.Entry) string {
	key := ""
	if d.Key != nil {
		key = d.Key.Name
	}
	if e.Type != d.Type || e.Key != key {
		return bad("entry %q %q for the declaration of %q %q", e.Type, e.Key, d.Type, key)
	}
	want := map[string]ast.Expr{}
	for _, t := range d.Tags {
		want[strings.ToLower(t.RawName)] = t.Value
	}
	if len(want) != len(e.Tags) {
		return bad("entry %q has %d fields, want %d", key, len(e.Tags), len(want))
	}
	for k, v := range want {
		got, ok := e.Tags[k]
		if !ok {
			return bad("entry %q lacks the field %q", key, k)
		}
		if !sameExpr(v, got) {
			return bad("entry %q: the value of %q is %s, want %s", key, k, clipStr(dump(got)), clipStr(dump(v)))
		}
	}
	return ""
}

func entriesOf(ds []ast.Decl, es []bibtex.Entry) string {
	i := 0
	for _, d := range ds {
		b, ok := d.(*ast.BibDecl)
		if !ok {
			continue
		}
		if i >= len(es) {
			return bad("%d entries, but more declarations", len(es))
		}
		if s := entryOf(b, es[i]); s != "" {
			return bad("entry %d: %s", i, s)
		}
		i++
	}
	if i < len(es) {
		return bad("%d entries, for %d declarations", len(es), i)
	}
	return ""
}

var plainBiber = bibtex.New()

func resolve(b *bibtex.Biber, n ast.Node) (es []bibtex.Entry, err error, what string) {
	if p := adapt.Guard(func() { es, err = b.Resolve(n) }); p != nil {
		what = p.Error()
	}
	return
}

// entriesDump compares entries with the model's meaning of the source.
func entriesDump(doc *ref.Doc, es []bibtex.Entry) string {
	i := 0
	for _, d := range doc.Decls {
		if d.K != ref.KEntry {
			continue
		}
		if i >= len(es) {
			return bad("the source has more than %d entries", len(es))
		}
		e := es[i]
		i++
		key := ""
		if len(d.Kids) > 0 && d.Kids[0].K == ref.KKey {
			key = d.Kids[0].S
		}
		if e.Type != d.S || e.Key != key {
			return bad("entry %d is %q %q, the source has %q %q", i-1, e.Type, e.Key, d.S, key)
		}
		want := map[string]*ref.N{}
		for _, t := range d.Kids {
			if t.K == ref.KTag {
				want[t.S] = t.Kids[0]
			}
		}
		if len(want) != len(e.Tags) {
			return bad("entry %d has %d fields, the source %d", i-1, len(e.Tags), len(want))
		}
		c := adapt.Conv{Base: 1}
		for k, v := range want {
			x, ok := e.Tags[k]
			if !ok {
				return bad("entry %d lacks the field %q", i-1, k)
			}
			a, b := ref.AppendNode(nil, v, 0), ref.AppendNode(nil, c.Expr(x), 0)
			if !bytes.Equal(a, b) {
				return bad("entry %d: the value of %q is %s, the source has %s", i-1, k, clip(b), clip(a))
			}
		}
	}
	if i != len(es) {
		return bad("%d entries, the source has %d", len(es), i)
	}
	return ""
}

// changeEntries gives each entry a field of its own and takes the others away,
// which must not show in any other entry.
func changeEntries(es []bibtex.Entry) string {
	for i, e := range es {
		if e.Tags == nil {
			return bad("entry %d has a nil map of fields", i)
		}
		if _, ok := e.Tags["\x00"]; ok {
			return bad("entry %d shares its fields with one before it", i)
		}
		for k := range e.Tags {
			delete(e.Tags, k)
		}
		e.Tags["\x00"] = nil
	}
	return ""
}

func evalC15(w *core.W, _ string, src []byte) string {
	for _, m := range bothModes {
		p := adapt.ParseFile(src, m)
		if p.Panic != nil || p.File == nil {
			continue
		}
		before := ""
		if len(src) < 2000 {
			before = nodeDump(p.File)
		}
		es, err, s := resolve(plainBiber, p.File)
		w.Trace++
		w.Trans += int64(len(p.File.Entries))
		if s != "" {
			return s
		}
		if err != nil {
			return bad("mode %s: %v", modeName(m), err)
		}
		if s := entriesOf(p.File.Entries, es); s != "" {
			return bad("mode %s: %s", modeName(m), s)
		}
		if before != "" && nodeDump(p.File) != before {
			return bad("mode %s: resolving without resolvers changed the tree", modeName(m))
		}
		var h []byte
		for _, d := range p.File.Entries {
			b, ok := d.(*ast.BibDecl)
			if !ok {
				es, err, s := resolve(plainBiber, d)
				if s != "" {
					return s
				}
				if err == nil || len(es) > 0 {
					return bad("resolving a %T gives %d entries and error %v", d, len(es), err)
				}
				continue
			}
			es, err, s := resolve(plainBiber, b)
			if s != "" {
				return s
			}
			if err != nil || len(es) != 1 {
				return bad("resolving an entry: %d results, error %v", len(es), err)
			}
			if s := entryOf(b, es[0]); s != "" {
				return s
			}
			h = append(h, byte(len(b.Tags)), byte(len(es[0].Tags)))
		}
		w.Outcome(h)
		if p.Err == nil {
			if res := ref.Parse(src, m == parsed, w.St); res.V == ref.Accept {
				if s := entriesDump(&res.Doc, es); s != "" {
					return bad("mode %s: %s", modeName(m), s)
				}
			}
		}
		// The entries belong to the caller.
		if s := changeEntries(es); s != "" {
			return bad("mode %s: %s", modeName(m), s)
		}
		es, _, s = resolve(plainBiber, p.File)
		if s != "" {
			return s
		}
		if s := entriesOf(p.File.Entries, es); s != "" {
			return bad("mode %s: once more, after the first entries were changed: %s", modeName(m), s)
		}
	}
	return ""
}

// permutations of n.
func permutations(n int) (ps [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			ps = append(ps, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

var pkgSources = []string{
	"", "@a{k1}", "@a{k2,x=1,y={v}}@b{k2,X=2}", "@string{s=1}@preamble{s}", "@c{x=1}@string{s={t}}@d{k3,z=s#{u}}", "@a{k4,x=1,x=2,X=3}%c\n@e{k5,author={A and B}}", "@a{}@b{}@c{}",
}

// evalC15Package resolves a package of files given by index in aux.
func evalC15Package(w *core.W, aux string, _ []byte) string {
	var files []*ast.File
	p := &ast.Package{Files: map[string]*ast.File{}}
	for i, c := range strings.Fields(aux) {
		var k int
		fmt.Sscan(c, &k)
		f := parsedFile([]byte(pkgSources[k]), parsed)
		if f == nil {
			return bad("%q doesn't parse", pkgSources[k])
		}
		files = append(files, f)
		p.Files[fmt.Sprintf("f%d", i)] = f
	}
	return checkPackageEntries(w, p, files)
}

// evalC15Large resolves a package of many files, each with its own keys.
func evalC15Large(w *core.W, aux string, _ []byte) string {
	n, _ := strconv.Atoi(aux)
	p := &ast.Package{Files: map[string]*ast.File{}}
	want := map[string][]*ast.BibDecl{} // by file
	total := 0
	for i := 0; i < n; i++ {
		var src []byte
		for j := 0; j < i%4; j++ {
			src = append(src, fmt.Sprintf("@%c{f%d,file=%d,n={%d}}@string{s=1}", 'a'+j, i, i, j)...)
		}
		f := parsedFile(src, parsed)
		if f == nil {
			return bad("%q doesn't parse", src)
		}
		p.Files[fmt.Sprintf("f%d", i)] = f
		for _, d := range f.Entries {
			if d, ok := d.(*ast.BibDecl); ok {
				want[d.Key.Name] = append(want[d.Key.Name], d)
				total++
			}
		}
	}
	es, err, s := resolve(plainBiber, p)
	w.Trace++
	w.Trans += int64(len(es))
	if s != "" {
		return s
	}
	if err != nil || len(es) != total {
		return bad("%d files with %d entries: %d entries and error %v", n, total, len(es), err)
	}
	for _, e := range es {
		ds := want[e.Key]
		if len(ds) == 0 {
			return bad("%d files: too many entries of file %q", n, e.Key)
		}
		if s := entryOf(ds[0], e); s != "" {
			return bad("%d files: %s", n, s)
		}
		want[e.Key] = ds[1:]
	}
	w.Outcome([]byte{byte(n)})
	return ""
}

func checkPackageEntries(w *core.W, p *ast.Package, files []*ast.File) string {
	es, err, s := resolve(plainBiber, p)
	w.Trace++
	w.Trans += int64(len(es))
	if s != "" {
		return s
	}
	if err != nil {
		return err.Error()
	}
	why := ""
	for _, perm := range permutations(len(files)) {
		var ds []ast.Decl
		for _, i := range perm {
			ds = append(ds, files[i].Entries...)
		}
		if why = entriesOf(ds, es); why == "" {
			w.Outcome([]byte{byte(len(es)), byte(len(files))})
			return ""
		}
	}
	return "in no order of the files the entries are right: " + why
}

func init() {
	reg(&core.Check{
		ID:   "C15",
		Rule: "every source of the families that gives a tree, in both string modes, resolved as a file and entry by entry: one result for every bibliography entry, compared with the declaration in the tree and, for well-formed sources, with the model's reading of the source; all lists of up to 4 files as packages; every other kind of node",
		Run: func(r *core.Run) {
			runFams(r, []gen.Fam{gen.Docs(r.Pick(3, 4)), gen.ValueDocs(r.Pick(1, 2)), gen.Vocab(), gen.URLDocs(1), gen.Mutations(r.Pick(1, 2)), gen.Layouts(1, 1), realFam(r.Pick(200, 100000), 0)}, evalC15)
			runFams(r, gen.Sequences(r.Pick(4, 5)), evalC15)
			var ctxs []gen.Ctx
			for _, c := range gen.Contexts {
				switch c.Name {
				case "top", "top-after", "command", "key", "body", "body-paren", "field", "value", "value-end", "concat", "abbrev", "preamble":
					ctxs = append(ctxs, c)
				}
			}
			runFams(r, gen.Lexical(ctxs, r.Pick(4, 4)), evalC15)
			runFams(r, []gen.Fam{gen.OddWords(ctxs, true), gen.PumpFam(false)}, evalC15)
			// Repeated and many fields.
			fields := []string{",x=1", ",X={v}", ",y=2", ",xy=\"w\"", ",Author={A}", ",x={{z}}#1", ",url={http://u/~}", ",URL=\"v\""}
			n := r.Pick(5, 6)
			runFams(r, []gen.Fam{{Name: fmt.Sprintf("fields%d", n), Gen: func(f gen.F) bool { return gen.Words("@a{k", "}", fields, 0, n, f) }}}, evalC15)
			r.Par("packages", func(w *core.W) {
				var idx []string
				for i := range pkgSources {
					idx = append(idx, fmt.Sprintf("%d ", i))
				}
				gen.Words("", "", idx, 0, r.Pick(3, 4), func(b []byte) bool { return w.Emit(string(b), nil) })
			}, evalC15Package)
			r.ParChunk("large-packages", 1, func(w *core.W) {
				for n := 0; n <= 40; n++ {
					w.Emit(strconv.Itoa(n), nil)
				}
				for _, n := range []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096} {
					w.Emit(strconv.Itoa(n), nil)
				}
			}, evalC15Large)
			r.ParChunk("parsed-packages", 1, func(w *core.W) {
				for i := range pkgSources {
					for j := range pkgSources {
						w.Emit(fmt.Sprintf("%d %d", i, j), nil)
					}
				}
			}, func(w *core.W, aux string, _ []byte) string {
				var i, j int
				fmt.Sscan(aux, &i, &j)
				d, err := os.MkdirTemp(r.Scratch, "pkg")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(d)
				var paths []string
				for k, x := range []int{i, j} {
					p := filepath.Join(d, fmt.Sprintf("%d.bib", k))
					if err := os.WriteFile(p, []byte(pkgSources[x]), 0o644); err != nil {
						panic(err)
					}
					paths = append(paths, p)
				}
				p, err := parser.ParsePackage(paths, parsed)
				if err != nil || p == nil {
					return bad("%v", err)
				}
				var files []*ast.File
				for _, x := range paths {
					if f := p.Files[x]; f != nil {
						files = append(files, f)
					}
				}
				if len(files) != 2 {
					return bad("%d files", len(files))
				}
				return checkPackageEntries(w, p, files)
			})
			treeFam(r, "other-kinds", walkRoots, 3, walkAll, func(w *core.W, _ string, code []byte) string {
				n := adapt.Tree(code)
				es, err, s := resolve(plainBiber, n)
				w.Trace++
				if s != "" {
					return s
				}
				switch n := n.(type) {
				case *ast.File:
					if err != nil {
						return err.Error()
					}
					return entriesOf(n.Entries, es)
				case *ast.Package:
					if err != nil {
						return err.Error()
					}
					return entriesOf(n.Files["f"].Entries, es)
				case *ast.BibDecl:
					if err != nil {
						return err.Error()
					}
					return entriesOf([]ast.Decl{n}, es)
				}
				if err == nil || len(es) > 0 {
					return bad("resolving a %T gives %d entries and error %v", n, len(es), err)
				}
				return ""
			})
			r.Par("comments", func(w *core.W) { w.Emit("", []byte("%c\n@a{k}")) }, func(w *core.W, _ string, src []byte) string {
				p := adapt.ParseFile(src, parser.ParseComments)
				if p.File == nil {
					return "no file"
				}
				for _, g := range p.File.Comments {
					for _, n := range []ast.Node{g, g.List[0]} {
						if es, err, s := resolve(plainBiber, n); s != "" || err == nil || len(es) > 0 {
							return bad("resolving a %T: %d entries, %v %s", n, len(es), err, s)
						}
					}
				}
				return ""
			})
		},
	})
}

var errResolver = errors.New("the resolver's error")

type typedErr struct{ n int }

func (e *typedErr) Error() string { return fmt.Sprintf("resolver %d failed", e.n) }
