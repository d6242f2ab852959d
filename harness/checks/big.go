package checks

import (
	"fmt"
	"strings"

	"verif/adapt"
	"verif/core"

	"github.com/jschaf/bibtex/ast"
)

// Shapes of trees with a size: deep ones nest that deep, wide ones have that
// many children.
var bigShapes = []string{"deep-parsed", "deep-macro", "deep-left", "deep-right", "deep-mixed", "wide-parsed", "wide-macro", "wide-mixed", "wide-long", "wide-file", "wide-entry", "wide-authors"}

// bigSizes are sizes of big trees.
func bigSizes(thorough bool) []int {
	var ns []int
	for n := 0; n <= 70; n++ {
		ns = append(ns, n)
	}
	for _, p := range []int{100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000} {
		ns = append(ns, p-1, p, p+1)
	}
	if thorough {
		for n := 71; n <= 1100; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 1<<14, 1<<15, 1<<16, 1<<16+1, 100000)
	}
	return ns
}

// bigExpr is an expression of a shape, with the text last behind or within it.
func bigExpr(shape string, n int, last string) ast.Expr {
	leaf := func(i int) ast.Expr {
		switch i % 4 {
		case 0:
			return &ast.Text{Value: fmt.Sprintf("w%d", i)}
		case 1:
			return &ast.TextSpace{}
		case 2:
			return &ast.TextEscaped{Value: "&"}
		}
		return &ast.TextMath{Value: "x"}
	}
	var x ast.Expr = &ast.Text{Value: last}
	var xs []ast.Expr
	if strings.HasPrefix(shape, "wide") {
		xs = make([]ast.Expr, 0, n+1)
		for i := 0; i < n; i++ {
			switch shape {
			case "wide-mixed":
				xs = append(xs, &ast.ParsedText{Delim: ast.BraceDelimiter, Depth: 1, Values: []ast.Expr{leaf(i)}})
			case "wide-long":
				xs = append(xs, &ast.Text{Value: "abcdefghij"})
			default:
				xs = append(xs, leaf(i))
			}
		}
		xs = append(xs, x)
	}
	switch shape {
	case "deep-parsed":
		for i := n; i > 0; i-- {
			x = &ast.ParsedText{Delim: ast.BraceDelimiter, Depth: i, Values: []ast.Expr{x}}
		}
		return &ast.ParsedText{Values: []ast.Expr{x, &ast.Text{Value: "b"}}}
	case "deep-macro":
		for i := 0; i < n; i++ {
			x = &ast.TextMacro{Name: "m", Values: []ast.Expr{x}}
		}
		return &ast.ParsedText{Values: []ast.Expr{x, &ast.Text{Value: "b"}}}
	case "deep-left":
		for i := 0; i < n; i++ {
			x = &ast.ConcatExpr{X: x, Y: leaf(4 * i)}
		}
	case "deep-right":
		for i := 0; i < n; i++ {
			x = &ast.ConcatExpr{X: leaf(4 * i), Y: x}
		}
	case "deep-mixed":
		for i := n; i > 0; i-- {
			switch i % 3 {
			case 0:
				x = &ast.ParsedText{Delim: ast.BraceDelimiter, Depth: i, Values: []ast.Expr{leaf(i), x, leaf(i + 1)}}
			case 1:
				x = &ast.TextMacro{Name: "m", Values: []ast.Expr{leaf(i), x}}
			case 2:
				x = &ast.ParsedText{Delim: ast.QuoteDelimiter, Depth: i, Values: []ast.Expr{x, leaf(i)}}
			}
		}
	case "wide-macro":
		x = &ast.TextMacro{Name: "m", Values: xs}
	default:
		x = &ast.ParsedText{Delim: ast.BraceDelimiter, Values: xs}
	}
	return x
}

// bigTree is a tree of a shape; where says what is around an expression.
func bigTree(shape string, n int, where string) ast.Node {
	switch shape {
	case "wide-file":
		f := &ast.File{}
		for i := 0; i < n; i++ {
			var d ast.Decl = &ast.BibDecl{Type: "a"}
			if i%3 == 1 {
				d = &ast.AbbrevDecl{Tag: &ast.TagStmt{Name: "t", Value: &ast.Number{Value: "1"}}}
			}
			f.Entries = append(f.Entries, d)
		}
		return f
	case "wide-entry":
		d := &ast.BibDecl{Type: "a"}
		for i := 0; i < n; i++ {
			d.Tags = append(d.Tags, &ast.TagStmt{Name: fmt.Sprintf("t%d", i), Value: &ast.Text{Value: "a"}})
		}
		return d
	case "wide-authors":
		a := ast.Authors{}
		for i := 0; i < n; i++ {
			a = append(a, &ast.Author{First: &ast.Text{Value: "A"}, Last: &ast.Text{Value: fmt.Sprint(i)}})
		}
		return a
	}
	x := bigExpr(shape, n, "a")
	if where == "bare" {
		return x
	}
	f := &ast.File{Entries: []ast.Decl{&ast.BibDecl{Type: "a", Tags: []*ast.TagStmt{{Name: "t", Value: x}, {Name: "u", Value: &ast.Number{Value: "1"}}}}}}
	return f
}

// bigFam runs eval on big trees.
func bigFam(r *core.Run, eval func(w *core.W, root ast.Node, n int) string) {
	r.ParChunk("big-trees", 1, func(w *core.W) {
		for _, n := range bigSizes(r.Thorough()) {
			for _, s := range bigShapes {
				for _, where := range []string{"bare", "file"} {
					if !w.Emit(fmt.Sprintf("%s %d %s", s, n, where), nil) {
						return
					}
				}
			}
		}
	}, func(w *core.W, aux string, _ []byte) string {
		var shape, where string
		n := 0
		fmt.Sscan(aux, &shape, &n, &where)
		s := eval(w, bigTree(shape, n, where), n)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		return s
	})
}

// alias changes the tree so that it holds one node twice, in the k-th way; false
// if there are fewer ways.
func alias(root ast.Node, k int) bool {
	done := false
	way := func(f func()) {
		if !done && k == 0 {
			f()
			done = true
		}
		k--
	}
	exprs := func(p *[]ast.Expr) {
		for i := range *p {
			x := (*p)[i]
			way(func() { *p = append((*p)[:len(*p):len(*p)], x) })
			way(func() { *p = append((*p)[:i:i], append([]ast.Expr{x}, (*p)[i:]...)...) })
		}
	}
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		switch n := n.(type) {
		case *ast.ParsedText:
			exprs(&n.Values)
		case *ast.TextMacro:
			exprs(&n.Values)
		case *ast.ConcatExpr:
			way(func() { n.X = n.Y })
			way(func() { n.Y = n.X })
		case *ast.Author:
			for _, x := range []ast.Expr{n.First, n.Prefix, n.Last, n.Suffix} {
				if x == nil {
					continue
				}
				for _, p := range []*ast.Expr{&n.First, &n.Prefix, &n.Last, &n.Suffix} {
					if *p != x {
						way(func() { *p = x })
					}
				}
			}
		case *ast.TagStmt:
			if as, ok := n.Value.(ast.Authors); ok && len(as) > 0 {
				way(func() { n.Value = append(ast.Authors{as[0]}, as...) })
				way(func() { n.Value = append(as[:len(as):len(as)], as[0]) })
			}
		case *ast.BibDecl:
			for i := range n.Tags {
				t := n.Tags[i]
				way(func() { n.Tags = append(n.Tags[:len(n.Tags):len(n.Tags)], t) })
				if i > 0 {
					way(func() { t.Value = n.Tags[i-1].Value })
				}
			}
		case *ast.File:
			for i := range n.Entries {
				d := n.Entries[i]
				way(func() { n.Entries = append(n.Entries[:len(n.Entries):len(n.Entries)], d) })
			}
		case *ast.Package:
			for _, f := range n.Files {
				way(func() { n.Files = map[string]*ast.File{"f": f, "g": f} })
				break
			}
		}
		for _, c := range kids(n) {
			if done {
				return
			}
			visit(c)
		}
	}
	visit(root)
	return done
}

// sharedTree runs eval on the tree with one node at two places, in every way. An
// author list can't be changed in place, so it gets an author twice at the top.
func sharedTree(code []byte, eval func(root ast.Node) string) string {
	if as, ok := adapt.Tree(code).(ast.Authors); ok {
		for i := range as {
			for j := 0; j <= len(as); j++ {
				l := append(append(append(ast.Authors{}, as[:j]...), as[i]), as[j:]...)
				if s := eval(l); s != "" {
					return s
				}
			}
		}
	}
	for k := 0; ; k++ {
		root := adapt.Tree(code)
		if !alias(root, k) {
			return ""
		}
		if s := eval(root); s != "" {
			return fmt.Sprintf("%s (way %d to hold a node twice)", s, k)
		}
	}
}
