package checks

import (
	"fmt"
	gotok "go/token"
	"strconv"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// nodesOf calls f for a node and everything below it, comments and keys too.
func nodesOf(n ast.Node, f func(n ast.Node)) {
	if n == nil {
		return
	}
	f(n)
	switch n := n.(type) {
	case *ast.File:
		for _, g := range n.Comments {
			f(g)
			for _, c := range g.List {
				f(c)
			}
		}
		for _, d := range n.Entries {
			nodesOf(d, f)
		}
	case *ast.BibDecl:
		if n.Key != nil {
			f(n.Key)
		}
		for _, k := range n.ExtraKeys {
			f(k)
		}
		for _, t := range n.Tags {
			nodesOf(t, f)
		}
	case *ast.AbbrevDecl:
		if n.Tag != nil {
			nodesOf(n.Tag, f)
		}
	case *ast.PreambleDecl:
		nodesOf(n.Text, f)
	case *ast.TagStmt:
		nodesOf(n.Value, f)
	case *ast.ConcatExpr:
		nodesOf(n.X, f)
		nodesOf(n.Y, f)
	case *ast.ParsedText:
		for _, v := range n.Values {
			nodesOf(v, f)
		}
	case *ast.TextMacro:
		for _, v := range n.Values {
			nodesOf(v, f)
		}
	}
}

// evalC28 compares the ends of nodes; aux is the number of files already in the
// set.
func evalC28(w *core.W, aux string, src []byte) string {
	if len(src) > 3000 {
		return "" // asking for every end of a long chain is quadratic
	}
	pre, _ := strconv.Atoi(aux)
	for _, m := range bothModes {
		res := ref.Parse(src, m == parsed, w.St)
		fset := gotok.NewFileSet()
		for i := 0; i < pre; i++ {
			fset.AddFile(fmt.Sprintf("p%d.bib", i), -1, len(preFiles[i]))
		}
		r := adapt.Parsed{Fset: fset}
		base := fset.Base()
		r.Panic = adapt.Guard(func() { r.File, r.Err = parser.ParseFile(fset, "t.bib", src, m|parser.ParseComments) })
		w.Trace++
		if r.Panic != nil {
			return bad("mode %s: %v", modeName(m), r.Panic)
		}
		if r.File == nil {
			return bad("mode %s: nil file", modeName(m))
		}
		// On every tree, also of a malformed source, positions can be asked for.
		what := ""
		if p := adapt.Guard(func() {
			nodesOf(r.File, func(n ast.Node) {
				w.Trans++
				from, to := n.Pos(), n.End()
				if what == "" && res.V == ref.Accept {
					if _, ok := n.(*ast.File); !ok && to < from {
						what = bad("mode %s: %T ends at %d, before its start at %d", modeName(m), n, int(to)-base, int(from)-base)
					}
				}
			})
		}); p != nil {
			return bad("mode %s: asking for the positions of nodes: %v", modeName(m), p)
		}
		if what != "" {
			return what
		}
		if res.V != ref.Accept {
			continue
		}
		if s := accepted(src, m, r); s != "" {
			return s
		}
		c := adapt.Conv{Base: base, Ends: true}
		got := c.File(r.File)
		for i, n := range res.Doc.Decls {
			ref.SetEnds(n)
			if i < len(got.Decls) {
				ref.CopyEnds(got.Decls[i], n)
			}
		}
		want := ref.Doc{Decls: res.Doc.Decls}
		if s := diffDocs("mode "+modeName(m)+": wrong ends", &want, &ref.Doc{Decls: got.Decls}, ref.DPos|ref.DEnd, w); s != "" {
			return s
		}
		// Comments, and the file as a whole.
		for _, g := range r.File.Comments {
			for i, x := range g.List {
				from, to := int(x.Pos())-base, int(x.End())-base
				if from < 0 || to > len(src) || string(src[from:to]) != x.Text || to < len(src) && src[to] != '\n' {
					return bad("mode %s: comment %q extends from %d to %d", modeName(m), x.Text, from, to)
				}
				if i == 0 && g.Pos() != x.Pos() || i == len(g.List)-1 && g.End() != x.End() {
					return bad("mode %s: a group of comments doesn't extend from its first to its last comment", modeName(m))
				}
			}
		}
		if n := len(got.Decls); n > 0 && int(r.File.End())-base != got.Decls[n-1].End {
			return bad("mode %s: the file ends at %d, its last declaration at %d", modeName(m), int(r.File.End())-base, got.Decls[n-1].End)
		}
	}
	return ""
}

func init() {
	reg(&core.Check{ID: "C28", Rule: "every source of the families, alone and after other files of a file set; the ends of all nodes of well-formed sources are compared with those of the model, and every node of every tree is asked for its positions",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.Docs(r.Pick(2, 3)), gen.ValueDocs(r.Pick(2, 3)), gen.Vocab(), gen.URLDocs(r.Pick(1, 2)), gen.Layouts(1, r.Pick(1, 2)), gen.Layouts(2, 1))
			fams = append(fams, gen.Comments(r.Pick(4, 5))...)
			fams = append(fams, gen.Lexical(gen.Contexts, r.Pick(3, 4))...)
			fams = append(fams, gen.Sequences(r.Pick(4, 5))...)
			fams = append(fams, gen.Broken(1, r.Pick(1, 2)), gen.Mutations(r.Pick(1, 2)), gen.Bytes(gen.Contexts), gen.OddWords(gen.Contexts, true), gen.PumpFam(r.Thorough()))
			runFams(r, fams, evalC28)
			for _, f := range []gen.Fam{gen.Docs(1), gen.ValueDocs(1), gen.Vocab(), gen.URLDocs(1), gen.Broken(1, 1)} {
				f := f
				r.Par("shifted-"+f.Name, func(w *core.W) {
					f.Gen(func(src []byte) bool {
						for _, v := range shifts(src) {
							for _, pre := range []string{"1", "3"} {
								if !w.Emit(pre, v) {
									return false
								}
							}
						}
						return true
					})
				}, evalC28)
			}
		}})
}
