package adapt

import (
	"fmt"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

// CloneExpr copies an expression deeply.
func CloneExpr(x ast.Expr) ast.Expr {
	switch x := x.(type) {
	case nil:
		return nil
	case *ast.Ident:
		c := *x
		return &c
	case *ast.Number:
		c := *x
		return &c
	case *ast.UnparsedText:
		c := *x
		return &c
	case *ast.ParsedText:
		c := *x
		c.Values = cloneAll(x.Values)
		return &c
	case *ast.Text:
		c := *x
		return &c
	case *ast.TextSpace:
		c := *x
		return &c
	case *ast.TextComma:
		c := *x
		return &c
	case *ast.TextNBSP:
		c := *x
		return &c
	case *ast.TextHyphen:
		c := *x
		return &c
	case *ast.TextMath:
		c := *x
		return &c
	case *ast.TextEscaped:
		c := *x
		return &c
	case *ast.TextAccent:
		c := *x
		if x.Text != nil {
			t := *x.Text
			c.Text = &t
		}
		return &c
	case *ast.TextMacro:
		c := *x
		c.Values = cloneAll(x.Values)
		return &c
	case *ast.ConcatExpr:
		c := *x
		c.X, c.Y = CloneExpr(x.X), CloneExpr(x.Y)
		return &c
	case *ast.BadExpr:
		c := *x
		return &c
	case ast.Authors:
		c := make(ast.Authors, len(x))
		for i, a := range x {
			c[i] = CloneExpr(a).(*ast.Author)
		}
		return c
	case *ast.Author:
		c := *x
		c.First, c.Prefix, c.Last, c.Suffix = CloneExpr(x.First), CloneExpr(x.Prefix), CloneExpr(x.Last), CloneExpr(x.Suffix)
		return &c
	}
	panic(fmt.Sprintf("clone of %T", x))
}

func cloneAll(xs []ast.Expr) []ast.Expr {
	if xs == nil {
		return nil
	}
	c := make([]ast.Expr, len(xs))
	for i, x := range xs {
		c[i] = CloneExpr(x)
	}
	return c
}

// Trees are written in prefix notation, one byte for each node; the table says
// how many children follow a byte.
type treeOp struct {
	n     int
	build func(kids []ast.Node) ast.Node
}

func exprs(kids []ast.Node) []ast.Expr {
	var xs []ast.Expr
	for _, k := range kids {
		xs = append(xs, k.(ast.Expr))
	}
	return xs
}

func leaf(f func() ast.Node) treeOp {
	return treeOp{0, func([]ast.Node) ast.Node { return f() }}
}

func parsedOp(n int, delim ast.TextDelimiter) treeOp {
	return treeOp{n, func(kids []ast.Node) ast.Node { return &ast.ParsedText{Values: exprs(kids), Delim: delim, Depth: n} }}
}

func macroOp(n int, name string) treeOp {
	return treeOp{n, func(kids []ast.Node) ast.Node { return &ast.TextMacro{Name: name, Values: exprs(kids)} }}
}

func fileOp(n int) treeOp {
	return treeOp{n, func(kids []ast.Node) ast.Node {
		f := &ast.File{}
		for _, k := range kids {
			f.Entries = append(f.Entries, k.(ast.Decl))
		}
		return f
	}}
}

func entryOp(n int) treeOp {
	return treeOp{n, func(kids []ast.Node) ast.Node {
		d := &ast.BibDecl{Type: "a", Key: &ast.Ident{Name: "k"}, ExtraKeys: []*ast.Ident{{Name: "l"}}}
		for _, k := range kids {
			d.Tags = append(d.Tags, k.(*ast.TagStmt))
		}
		return d
	}}
}

func authorsOp(n int) treeOp {
	return treeOp{n, func(kids []ast.Node) ast.Node {
		a := make(ast.Authors, 0, n)
		for _, k := range kids {
			a = append(a, k.(*ast.Author))
		}
		return a
	}}
}

var treeOps = map[byte]treeOp{
	'a': leaf(func() ast.Node { return &ast.Text{Value: "a", ValuePos: 7} }),
	'b': leaf(func() ast.Node { return &ast.Text{Value: "é{b}\\"} }),
	'z': leaf(func() ast.Node { return &ast.Text{} }),
	',': leaf(func() ast.Node { return &ast.TextComma{} }),
	'e': leaf(func() ast.Node { return &ast.TextEscaped{Value: "&"} }),
	'E': leaf(func() ast.Node { return &ast.TextEscaped{Value: "\\"} }),
	'-': leaf(func() ast.Node { return &ast.TextHyphen{} }),
	'$': leaf(func() ast.Node { return &ast.TextMath{Value: "x_1"} }),
	'%': leaf(func() ast.Node { return &ast.TextMath{} }),
	'~': leaf(func() ast.Node { return &ast.TextNBSP{} }),
	's': leaf(func() ast.Node { return &ast.TextSpace{} }),
	'S': leaf(func() ast.Node { return &ast.TextSpace{Value: " "} }),
	'^': leaf(func() ast.Node { return &ast.TextAccent{Accent: token.AccentAcute, Text: &ast.Text{Value: "e"}} }),
	'c': leaf(func() ast.Node { return &ast.TextAccent{Accent: token.AccentCedilla, Text: &ast.Text{Value: "C"}} }),
	'!': leaf(func() ast.Node { return &ast.TextAccent{Accent: token.AccentTilde, Text: &ast.Text{Value: "q"}} }),
	'i': leaf(func() ast.Node { return &ast.Ident{Name: "id"} }),
	'n': leaf(func() ast.Node { return &ast.Number{Value: "12"} }),
	'u': leaf(func() ast.Node { return &ast.UnparsedText{Type: token.String, Value: "u"} }),
	'x': leaf(func() ast.Node { return &ast.BadExpr{From: 3} }),
	'0': parsedOp(0, ast.BraceDelimiter), '1': parsedOp(1, ast.BraceDelimiter), '2': parsedOp(2, ast.QuoteDelimiter), '3': parsedOp(3, ast.QuoteDelimiter), '4': parsedOp(4, ast.BraceDelimiter),
	'o': macroOp(0, "o"), 'm': macroOp(1, "url"), 'M': macroOp(2, "href"),
	'#': {2, func(k []ast.Node) ast.Node { return &ast.ConcatExpr{X: k[0].(ast.Expr), Y: k[1].(ast.Expr)} }},
	// declarations
	't': {1, func(k []ast.Node) ast.Node { return &ast.TagStmt{Name: "t", RawName: "T", Value: k[0].(ast.Expr)} }},
	'A': {1, func(k []ast.Node) ast.Node { return &ast.AbbrevDecl{Tag: k[0].(*ast.TagStmt)} }},
	'P': {1, func(k []ast.Node) ast.Node { return &ast.PreambleDecl{Text: k[0].(ast.Expr)} }},
	'B': leaf(func() ast.Node { return &ast.BadDecl{} }),
	'D': entryOp(0), 'F': entryOp(1), 'G': entryOp(2), 'H': entryOp(3),
	'f': fileOp(0), 'g': fileOp(1), 'h': fileOp(2), 'j': fileOp(3),
	'p': {1, func(k []ast.Node) ast.Node { return &ast.Package{Files: map[string]*ast.File{"f": k[0].(*ast.File)}} }},
	'l': authorsOp(0), 'L': authorsOp(1), 'K': authorsOp(2),
	'U': {4, func(k []ast.Node) ast.Node {
		return &ast.Author{First: k[0].(ast.Expr), Prefix: k[1].(ast.Expr), Last: k[2].(ast.Expr), Suffix: k[3].(ast.Expr)}
	}},
	'V': {1, func(k []ast.Node) ast.Node { return &ast.Author{Last: k[0].(ast.Expr)} }},
	'W': {2, func(k []ast.Node) ast.Node {
		return &ast.Author{First: k[0].(ast.Expr), Suffix: k[1].(ast.Expr)}
	}},
	'X': leaf(func() ast.Node { return &ast.BadStmt{} }),
}

// Sorts of nodes: which bytes can stand where.
const (
	SExpr   = "abz,eE-$%~sS^c!inux01234omM#"
	SLeaf   = "a,"
	SDecl   = "APBDFGH"
	SFile   = "fghj"
	SAuthor = "UVW"
	SValue  = SExpr + "lLK"
)

func sortOf(op byte) string {
	switch op {
	case 't':
		return SValue
	case 'A', 'F', 'G', 'H':
		return "t"
	case 'g', 'h', 'j':
		return SDecl
	case 'p':
		return SFile
	case 'L', 'K':
		return SAuthor
	case 'U', 'V', 'W':
		return SExpr
	}
	return SExpr
}

// Trees calls f with the notation of every tree of up to n nodes whose root is
// of the sort, made from the ops in allow.
func Trees(root string, n int, allow string, f func(code []byte) bool) bool {
	ok := [256]bool{}
	for i := 0; i < len(allow); i++ {
		ok[allow[i]] = true
	}
	buf := make([]byte, 0, n)
	var pending []string
	var rec func() bool
	rec = func() bool {
		if len(pending) == 0 {
			return f(buf)
		}
		if len(buf)+len(pending) > n {
			return true
		}
		top := pending[len(pending)-1]
		saved := append([]string{}, pending...)
		for i := 0; i < len(top); i++ {
			op := top[i]
			if !ok[op] {
				continue
			}
			pending = append(pending[:0], saved[:len(saved)-1]...)
			for j := 0; j < treeOps[op].n; j++ {
				pending = append(pending, sortOf(op))
			}
			buf = append(buf, op)
			r := rec()
			buf = buf[:len(buf)-1]
			if !r {
				return false
			}
		}
		pending = append(pending[:0], saved...)
		return true
	}
	pending = []string{root}
	return rec()
}

// Tree builds the tree of a notation.
func Tree(code []byte) ast.Node {
	i := 0
	var rec func() ast.Node
	rec = func() ast.Node {
		op := treeOps[code[i]]
		i++
		var kids []ast.Node
		for j := 0; j < op.n; j++ {
			kids = append(kids, rec())
		}
		return op.build(kids)
	}
	return rec()
}

// CloneFile copies a file deeply, but for its comments and scopes.
func CloneFile(f *ast.File) *ast.File {
	c := *f
	c.Entries = nil
	tag := func(t *ast.TagStmt) *ast.TagStmt {
		if t == nil {
			return nil
		}
		c := *t
		c.Value = CloneExpr(t.Value)
		return &c
	}
	for _, d := range f.Entries {
		switch d := d.(type) {
		case *ast.BibDecl:
			b := *d
			b.Tags = nil
			for _, t := range d.Tags {
				b.Tags = append(b.Tags, tag(t))
			}
			c.Entries = append(c.Entries, &b)
		case *ast.AbbrevDecl:
			b := *d
			b.Tag = tag(d.Tag)
			c.Entries = append(c.Entries, &b)
		case *ast.PreambleDecl:
			b := *d
			b.Text = CloneExpr(d.Text)
			c.Entries = append(c.Entries, &b)
		default:
			c.Entries = append(c.Entries, d)
		}
	}
	return &c
}
