package checks

import (
	"bytes"
	"fmt"
	gotok "go/token"
	"sort"
	"strconv"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex/parser"
)

// lines holds the offsets of the newlines of a source.
type lines []int

func linesOf(src []byte) (l lines) {
	for i, b := range src {
		if b == '\n' {
			l = append(l, i)
		}
	}
	return l
}

// lineCol is the line and column of an offset, both from 1.
func (l lines) lineCol(off int) (int, int) {
	n := sort.SearchInts(l, off)
	if n == 0 {
		return 1, off + 1
	}
	return 1 + n, off - l[n-1]
}

// checkLines checks that the file set resolves every offset of the file.
func checkLines(src []byte, fset *gotok.FileSet, base int, name string) string {
	line, col := 1, 1
	for off := 0; off < len(src); off++ {
		if len(src) >= 5000 && col > 3 && src[off] != '\n' && off+3 < len(src) && off%257 != 0 {
			col++ // only where it matters
			continue
		}
		p := fset.Position(gotok.Pos(base + off))
		if p.Filename != name || p.Offset != off || p.Line != line || p.Column != col {
			return bad("offset %d of %s is at line %d, column %d, but the file set says %s, offset %d", off, name, line, col, p, p.Offset)
		}
		col++
		if src[off] == '\n' {
			line, col = line+1, 1
		}
	}
	return ""
}

var preFiles = [][]byte{[]byte("@p{k,\n x = {é\r\n},}\n"), []byte(""), []byte("% c\n@string{n=1}")}

// inSet is a file that is parsed into a file set besides the one of the case.
type inSet struct {
	name string
	src  []byte
	base int
}

// filesFor are the files before and after a file of n bytes. The kinds are a
// number of preFiles, and "same": files of the same name and size, with other
// lines, and malformed ones.
func filesFor(kind, name string, n int) (before, after []inSet) {
	if kind != "same" {
		c, _ := strconv.Atoi(kind)
		for i := 0; i < c; i++ {
			before = append(before, inSet{name: fmt.Sprintf("p%d.bib", i), src: preFiles[i]})
		}
		return
	}
	nl := bytes.Repeat([]byte("\n"), n)
	before = []inSet{{name: name, src: nl}, {name: name, src: []byte("@a{k,\n\n}}x={")}, {name: "b/" + name, src: []byte("\n@")}}
	sp := bytes.Repeat([]byte(" \n\n"), n)[:n]
	after = []inSet{{name: name, src: sp}, {name: name, src: []byte("@a{k,\n x={\n\\1")}}
	return
}

// parseInto parses the files into fset.
func parseInto(fset *gotok.FileSet, files []inSet, m parser.Mode) (p *adapt.Panic) {
	for i := range files {
		files[i].base = fset.Base()
		if p := adapt.Guard(func() { parser.ParseFile(fset, files[i].name, files[i].src, m) }); p != nil {
			return p
		}
	}
	return nil
}

// evalC07 compares positions; aux says which other files
// are in the set.
func evalC07(w *core.W, aux string, src []byte) string {
	for _, m := range bothModes {
		res := ref.Parse(src, m == parsed, w.St)
		if res.V != ref.Accept {
			continue
		}
		fset := gotok.NewFileSet()
		before, after := filesFor(aux, "d/t.bib", len(src))
		if p := parseInto(fset, before, m); p != nil {
			return bad("%v", p)
		}
		base := fset.Base()
		r := adapt.Parsed{Fset: fset}
		r.Panic = adapt.Guard(func() { r.File, r.Err = parser.ParseFile(fset, "d/t.bib", src, m|parser.ParseComments) })
		if p := parseInto(fset, after, m); p != nil {
			return bad("%v", p)
		}
		w.Trace++
		if s := accepted(src, m, r); s != "" {
			return s
		}
		c := adapt.Conv{Base: base}
		got := c.File(r.File)
		if c.Bad != "" {
			return c.Bad
		}
		want := res.Doc
		if s := diffDocs("mode "+modeName(m)+": wrong positions", noLinks(&want), noLinks(got), ref.DPos|ref.DDoc, w); s != "" {
			return s
		}
		if s := checkLines(src, fset, base, "d/t.bib"); s != "" {
			return s
		}
		for _, f := range append(before, after...) {
			if s := checkLines(f.src, fset, f.base, f.name); s != "" {
				return s
			}
		}
		if r.File.Name != "d/t.bib" {
			return bad("file name %q", r.File.Name)
		}
	}
	return ""
}

// noLinks forgets which comments document what and how they are grouped: only
// their positions matter here.
func noLinks(d *ref.Doc) *ref.Doc {
	o := &ref.Doc{FileDoc: -2}
	for _, n := range d.Decls {
		o.Decls = append(o.Decls, noDoc(n))
	}
	var all []ref.Comment
	for _, g := range d.Groups {
		all = append(all, g...)
	}
	if all != nil {
		o.Groups = [][]ref.Comment{all}
	}
	return o
}

func noDoc(n *ref.N) *ref.N {
	if n == nil || n.Doc < 0 && n.K != ref.KEntry && n.K != ref.KAbbrev && n.K != ref.KTag {
		return n
	}
	c := *n
	c.Doc = -1
	if n.K == ref.KEntry || n.K == ref.KAbbrev {
		c.Kids = nil
		for _, k := range n.Kids {
			c.Kids = append(c.Kids, noDoc(k))
		}
	}
	return &c
}

// Variants of a source that keep it well-formed and shift positions.
func shifts(src []byte) [][]byte {
	s := string(src)
	return [][]byte{src, []byte("\ufeff" + s), []byte(strings.ReplaceAll(s, "\n", "\r\n")), []byte("\n\t " + s + "\n")}
}

func init() {
	reg(&core.Check{ID: "C07", Rule: "every well-formed source of the families, alone and after other files of a file set; all positions are compared with those of the model, and the file set's line and column of every offset with a count of newlines",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.Docs(r.Pick(2, 3)), gen.ValueDocs(r.Pick(2, 3)), gen.Vocab(), gen.URLDocs(r.Pick(1, 2)), gen.Layouts(1, r.Pick(1, 2)), gen.Layouts(2, 1))
			fams = append(fams, gen.Comments(r.Pick(4, 5))...)
			fams = append(fams, gen.Lexical(gen.Contexts, r.Pick(4, 5))...)
			fams = append(fams, gen.OddWords(gen.Contexts, true), gen.PumpFam(r.Thorough()))
			runFams(r, fams, evalC07)
			r.ParChunk("many-lines", 1, func(w *core.W) {
				for _, n := range []int{1<<16 - 1, 1<<16 + 1, 1<<17 + 3, r.Pick(1<<18+1, 1<<20+1), r.Pick(1<<19+1, 1<<22+1)} {
					for _, l := range []string{"\n", "\r\n", "x\n", " \n", "%\n", "\n\r", "\nabcdef\n"} {
						many := strings.Repeat(l, n)
						for _, c := range [][2]string{{"", "@a{k,\nx = 1\n}\n@b{j,\n y={a\n}}\n"}, {"@a{k,x={", "}}\n@b{j,\ny=1}"}, {"@a{k,x=\"", "\"}\n@b{j,\ny=1}"}, {"@a{k,", "x=1\n}\n%c\n@b{j}"}, {"@a{k,x=1\n", "}"}} {
							if l == "\nabcdef\n" && c[0] != "" || l == "x\n" && !strings.HasSuffix(c[0], "{") && !strings.HasSuffix(c[0], "\"") && c[0] != "" {
								continue
							}
							if !w.Emit("", []byte(c[0]+many+c[1])) {
								return
							}
						}
					}
				}
			}, evalC07)
			for _, f := range []gen.Fam{gen.Docs(2), gen.ValueDocs(2), gen.Vocab(), gen.URLDocs(1), gen.Layouts(1, 1)} {
				f := f
				r.Par("shifted-"+f.Name, func(w *core.W) {
					f.Gen(func(src []byte) bool {
						for _, v := range shifts(src) {
							for _, pre := range []string{"1", "3", "same"} {
								if !w.Emit(pre, v) {
									return false
								}
							}
						}
						return true
					})
				}, evalC07)
			}
		}})

	reg(&core.Check{ID: "C08", Rule: "every malformed source of the families; the errors are checked to be sorted, located and not before the first malformed declaration that the model finds, and the tree to start with the declarations before it",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.Broken(r.Pick(2, 3), r.Pick(2, 2)), gen.Mutations(r.Pick(1, 2)))
			fams = append(fams, gen.Lexical(gen.Contexts, r.Pick(4, 5))...)
			fams = append(fams, gen.Sequences(r.Pick(4, 5))...)
			fams = append(fams, gen.Bytes(gen.Contexts), gen.OddWords(gen.Contexts, true), gen.BytePairs(gen.Contexts), gen.PumpFam(r.Thorough()), gen.Vocab(), gen.URLDocs(r.Pick(1, 2)))
			runFams(r, fams, evalC08)
			runLarge(r, evalC08)
			for _, f := range append([]gen.Fam{gen.Broken(1, 1), gen.Mutations(1), gen.Bytes(gen.Contexts)}, gen.Lexical(gen.Contexts, 2)...) {
				f := f
				r.Par("shifted-"+f.Name, func(w *core.W) {
					f.Gen(func(src []byte) bool {
						for i, v := range shifts(src) {
							if !w.Emit("1", v) || i < 2 && (!w.Emit("3", v) || !w.Emit("same", v)) {
								return false
							}
						}
						return true
					})
				}, evalC08)
			}
		}})

	reg(&core.Check{ID: "C11", Rule: "every well-formed source of the families; the comments, their groups and what they document are compared with the model",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.Layouts(1, 2), gen.Layouts(2, 1))
			fams = append(fams, gen.Comments(r.Pick(5, 7))...)
			var top []gen.Ctx
			for _, c := range gen.Contexts {
				switch c.Name {
				case "top", "top-after", "key", "body", "value", "value-end", "comment", "preamble":
					top = append(top, c)
				}
			}
			fams = append(fams, gen.Lexical(top, r.Pick(4, 5))...)
			fams = append(fams, gen.OddWords(top, true), gen.BytePairs(top[len(top)-1:]), gen.PumpFam(r.Thorough()))
			fams = append(fams, gen.Sequences(r.Pick(4, 5))...)
			if r.Thorough() {
				fams = append(fams, gen.Layouts(3, 1))
			}
			runFams(r, fams, evalC11)
			runLarge(r, evalC11)
		}})
}

// errorLines compares the errors without AllErrors with all errors: only
// errors on the line of another one are left out, up to ten lines.
func errorLines(def, all error) string {
	d, _ := adapt.ErrList(def)
	a, _ := adapt.ErrList(all)
	type key struct {
		off int
		msg string
	}
	had := map[key]int{}
	lines := map[int]bool{}
	for _, e := range a {
		had[key{e.Pos.Offset, e.Msg}]++
		lines[e.Pos.Line] = true
	}
	got := map[int]bool{}
	for _, e := range d {
		k := key{e.Pos.Offset, e.Msg}
		if had[k] == 0 {
			return bad("the error %v is not among all errors", e)
		}
		had[k]--
		got[e.Pos.Line] = true
	}
	if len(a) <= 10 {
		for _, e := range a {
			if !got[e.Pos.Line] {
				return bad("no error on line %d, on which AllErrors gives %v", e.Pos.Line, e)
			}
		}
	}
	if len(d) < 10 && len(d) < len(lines) {
		return bad("%d errors, though there are errors on %d lines", len(d), len(lines))
	}
	return ""
}

// evalC08 checks the errors and the partial tree; aux says which other files
// are in the set.
func evalC08(w *core.W, aux string, src []byte) string {
	base := 1
	parse := func(m parser.Mode) (r adapt.Parsed) {
		if aux == "" {
			return adapt.ParseFile(src, m)
		}
		before, after := filesFor(aux, "t.bib", len(src))
		r.Fset = gotok.NewFileSet()
		if r.Panic = parseInto(r.Fset, before, m); r.Panic != nil {
			return
		}
		base = r.Fset.Base()
		r.Panic = adapt.Guard(func() { r.File, r.Err = parser.ParseFile(r.Fset, "t.bib", src, m) })
		if p := parseInto(r.Fset, after, m); p != nil {
			r.Panic = p
		}
		return
	}
	at := linesOf(src)
	for _, m := range bothModes {
		res := ref.Parse(src, m == parsed, w.St)
		if res.V != ref.Reject {
			continue
		}
		all := parse(m | parser.AllErrors)
		def := parse(m)
		w.Trace += 2
		var counts [2]int
		for i, p := range []adapt.Parsed{def, all} {
			name := modeName([]parser.Mode{m, m | parser.AllErrors}[i])
			if p.Panic != nil {
				return bad("mode %s: %v", name, p.Panic)
			}
			if p.File == nil {
				return bad("mode %s: nil file", name)
			}
			if p.Err == nil {
				return bad("mode %s: malformed (%s), but no error", name, res.Why)
			}
			l, ok := adapt.ErrList(p.Err)
			if !ok || len(l) == 0 {
				return bad("mode %s: %T is not a list of errors: %v", name, p.Err, p.Err)
			}
			counts[i] = len(l)
			last := 0
			for _, e := range l {
				if e == nil || e.Msg == "" || e.Pos.Filename != "t.bib" || e.Pos.Offset < 0 || e.Pos.Offset > len(src) {
					return bad("mode %s: error without a message or position: %v", name, l)
				}
				line, col := at.lineCol(e.Pos.Offset)
				if e.Pos.Offset == len(src) && col == 1 && len(src) > 0 && e.Pos.Line == line-1 {
					// A file set has no line after the last newline: the end
					// of the file is behind that newline.
					line, col = at.lineCol(len(src) - 1)
					col++
				}
				if line != e.Pos.Line || col != e.Pos.Column {
					return bad("mode %s: error at offset %d, which is %d:%d: %v", name, e.Pos.Offset, line, col, e)
				}
				if e.Pos.Offset < last {
					return bad("mode %s: errors are not sorted: %v", name, l)
				}
				last = e.Pos.Offset
			}
			if o := l[0].Pos.Offset; o < res.FailOff {
				return bad("mode %s: the first malformed declaration is at %d, but there is an error at %d: %v", name, res.FailOff, o, l)
			}
			w.Outcome([]byte(p.Err.Error()))
		}
		if counts[1] < counts[0] {
			return bad("mode %s: %d errors, but only %d with AllErrors", modeName(m), counts[0], counts[1])
		}
		if s := errorLines(def.Err, all.Err); s != "" {
			return bad("mode %s: %s", modeName(m), s)
		}
		for i, p := range []adapt.Parsed{def, all} {
			if i == 0 && counts[1] > 10 || len(src) > 100000 {
				continue // parsing may have been given up
			}
			c := adapt.Conv{Base: base}
			got := c.File(p.File)
			n := len(res.Doc.Decls)
			if len(got.Decls) < n {
				return bad("mode %s: %d declarations precede the first malformed one, but the tree has %d", modeName(m), n, len(got.Decls))
			}
			got.Decls, got.Groups = got.Decls[:n], nil
			want := ref.Doc{Decls: res.Doc.Decls}
			if s := diffDocs(fmt.Sprintf("mode %s, allerrors %v: wrong declarations before the first malformed one", modeName(m), i == 1), &want, got, ref.DRaw|ref.DPos, w); s != "" {
				return s
			}
		}
	}
	return ""
}
