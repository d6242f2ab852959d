// Package adapt observes the implementation: it converts the implementation's
// trees and tokens to the model's vocabulary.
package adapt

import (
	"bytes"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"

	"verif/ref"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// Panic wraps a panic of the implementation.
type Panic struct{ V interface{} }

func (p *Panic) Error() string { return fmt.Sprintf("panic: %v", p.V) }

// Guard runs f and returns its panic, if any.
func Guard(f func()) (p *Panic) {
	defer func() {
		if e := recover(); e != nil {
			p = &Panic{e}
		}
	}()
	f()
	return nil
}

// Conv converts nodes. Base is the base of the file in its file set.
type Conv struct {
	Base   int
	Bad    string // a node whose methods don't agree with its fields
	Ends   bool   // also ask for ends
	groups map[*ast.TexCommentGroup]int
}

func (c *Conv) off(p gotok.Pos) int { return int(p) - c.Base }

func (c *Conv) doc(g *ast.TexCommentGroup) int {
	if g == nil {
		return -1
	}
	if i, ok := c.groups[g]; ok {
		return i
	}
	return -99 // not in the comment list
}

// File converts a file.
func (c *Conv) File(f *ast.File) *ref.Doc {
	d := &ref.Doc{FileDoc: -1}
	if f == nil {
		return d
	}
	if len(f.Comments) > 0 {
		c.groups = make(map[*ast.TexCommentGroup]int)
		for i, g := range f.Comments {
			c.groups[g] = i
			var l []ref.Comment
			for _, x := range g.List {
				c.pos(x, c.off(x.Start))
				l = append(l, ref.Comment{Pos: c.off(x.Start), Text: x.Text})
			}
			d.Groups = append(d.Groups, l)
		}
	}
	d.FileDoc = c.doc(f.Doc)
	for _, e := range f.Entries {
		d.Decls = append(d.Decls, c.Decl(e))
	}
	return d
}

// pos notes a node whose Pos method isn't the position field.
func (c *Conv) pos(x ast.Node, pos int) {
	if p := c.off(x.Pos()); p != pos && c.Bad == "" {
		c.Bad = fmt.Sprintf("Pos of %T is offset %d, its field says %d", x, p, pos)
	}
}

// Decl converts a declaration.
func (c *Conv) Decl(d ast.Decl) *ref.N {
	n := c.decl(d)
	c.pos(d, n.Pos)
	c.end(n, d)
	return n
}

func (c *Conv) end(n *ref.N, x ast.Node) *ref.N {
	if c.Ends {
		n.End = c.off(x.End())
	}
	return n
}

func (c *Conv) decl(d ast.Decl) *ref.N {
	switch d := d.(type) {
	case *ast.BibDecl:
		n := &ref.N{K: ref.KEntry, Pos: c.off(d.Entry), Close: c.off(d.RBrace), S: d.Type, Doc: c.doc(d.Doc)}
		if d.Key != nil {
			n.Kids = append(n.Kids, c.key(d.Key))
		}
		for _, k := range d.ExtraKeys {
			if d.Key == nil {
				n.Kids = append(n.Kids, &ref.N{K: ref.KOther, S: "extra key without a key", Close: -1, Doc: -1})
			}
			n.Kids = append(n.Kids, c.key(k))
		}
		for _, t := range d.Tags {
			n.Kids = append(n.Kids, c.tag(t))
		}
		return n
	case *ast.AbbrevDecl:
		return &ref.N{K: ref.KAbbrev, Pos: c.off(d.Entry), Close: c.off(d.RBrace), Doc: c.doc(d.Doc), Kids: []*ref.N{c.tag(d.Tag)}}
	case *ast.PreambleDecl:
		return &ref.N{K: ref.KPreamble, Pos: c.off(d.Entry), Close: c.off(d.RBrace), Doc: c.doc(d.Doc), Kids: []*ref.N{c.Expr(d.Text)}}
	case *ast.BadDecl:
		return &ref.N{K: ref.KBad, Pos: c.off(d.From), Close: -1, Doc: -1}
	}
	return &ref.N{K: ref.KOther, S: fmt.Sprintf("%T", d), Close: -1, Doc: -1}
}

func (c *Conv) key(k *ast.Ident) *ref.N {
	c.pos(k, c.off(k.NamePos))
	return c.end(&ref.N{K: ref.KKey, Pos: c.off(k.NamePos), Close: -1, S: k.Name, Doc: -1}, k)
}

func (c *Conv) tag(t *ast.TagStmt) *ref.N {
	if t == nil {
		return nil
	}
	c.pos(t, c.off(t.NamePos))
	return c.end(&ref.N{K: ref.KTag, Pos: c.off(t.NamePos), Close: -1, S: t.Name, R: t.RawName, Doc: c.doc(t.Doc), Kids: []*ref.N{c.Expr(t.Value)}}, t)
}

// Expr converts an expression.
func (c *Conv) Expr(x ast.Expr) *ref.N {
	n := c.expr(x)
	switch x.(type) {
	case nil, ast.Authors, *ast.Author:
	default:
		if n.K != ref.KOther && c.Base >= 0 {
			c.pos(x, n.Pos)
			c.end(n, x)
		}
	}
	return n
}

func (c *Conv) expr(x ast.Expr) *ref.N {
	n := &ref.N{Close: -1, Doc: -1}
	switch x := x.(type) {
	case nil:
		return nil
	case *ast.Ident:
		n.K, n.Pos, n.S = ref.KIdent, c.off(x.NamePos), x.Name
	case *ast.Number:
		n.K, n.Pos, n.S = ref.KNumber, c.off(x.ValuePos), x.Value
	case *ast.UnparsedText:
		n.K, n.Pos, n.S, n.Delim = ref.KRaw, c.off(x.ValuePos), x.Value, '{'
		switch x.Type {
		case token.String:
			n.Delim = '"'
		case token.BraceString:
		default:
			n.Delim = '?'
		}
	case *ast.ParsedText:
		n.K, n.Pos, n.Close, n.Depth, n.Delim = ref.KParsed, c.off(x.Opener), c.off(x.Closer), x.Depth, '{'
		switch x.Delim {
		case ast.QuoteDelimiter:
			n.Delim = '"'
		case ast.BraceDelimiter:
		default:
			n.Delim = '?'
		}
		if n.Close < 0 {
			n.Close = 0 // for trees without positions
		}
		if len(x.Values) > 0 {
			n.Kids = make([]*ref.N, len(x.Values))
			for i, v := range x.Values {
				n.Kids[i] = c.Expr(v)
			}
		}
	case *ast.Text:
		n.K, n.Pos, n.S = ref.KText, c.off(x.ValuePos), x.Value
	case *ast.TextSpace:
		n.K, n.Pos = ref.KSpace, c.off(x.ValuePos)
	case *ast.TextComma:
		n.K, n.Pos = ref.KComma, c.off(x.ValuePos)
	case *ast.TextNBSP:
		n.K, n.Pos = ref.KTie, c.off(x.ValuePos)
	case *ast.TextHyphen:
		n.K, n.Pos = ref.KHyphen, c.off(x.ValuePos)
	case *ast.TextMath:
		n.K, n.Pos, n.S = ref.KMath, c.off(x.ValuePos), x.Value
	case *ast.TextEscaped:
		n.K, n.Pos, n.S = ref.KEscaped, c.off(x.ValuePos), x.Value
	case *ast.TextAccent:
		n.K, n.Pos, n.Acc = ref.KAccent, c.off(x.ValuePos), rune(x.Accent)
		if x.Text != nil {
			n.S = x.Text.Value
		}
	case *ast.TextMacro:
		n.K, n.Pos, n.S = ref.KMacro, c.off(x.Cmd), x.Name
		if x.RBrace.IsValid() {
			n.Close = c.off(x.RBrace)
		}
		for _, v := range x.Values {
			n.Kids = append(n.Kids, c.Expr(v))
		}
	case *ast.ConcatExpr:
		n.K, n.Op = ref.KConcat, c.off(x.OpPos)
		n.Kids = []*ref.N{c.Expr(x.X), c.Expr(x.Y)}
		n.Pos = n.Kids[0].Pos
	case *ast.BadExpr:
		n.K, n.Pos = ref.KBad, c.off(x.From)
	case ast.Authors:
		n.K = 'L'
		for _, a := range x {
			n.Kids = append(n.Kids, c.Expr(a))
		}
	case *ast.Author:
		n.K = 'U'
		n.Kids = []*ref.N{c.Expr(x.First), c.Expr(x.Prefix), c.Expr(x.Last), c.Expr(x.Suffix)}
	default:
		n.K, n.S = ref.KOther, fmt.Sprintf("%T", x)
	}
	return n
}

// Parsed is what parsing a file gives.
type Parsed struct {
	File  *ast.File
	Err   error
	Fset  *gotok.FileSet
	Panic *Panic
}

// ParseFile parses src under a recover.
func ParseFile(src []byte, mode parser.Mode) (r Parsed) {
	r.Fset = gotok.NewFileSet()
	r.Panic = Guard(func() {
		r.File, r.Err = parser.ParseFile(r.Fset, "t.bib", src, mode)
	})
	return
}

// Doc converts the file of a fresh file set.
func (r Parsed) Doc() *ref.Doc {
	c := Conv{Base: 1}
	return c.File(r.File)
}

// Token kinds of the implementation by kinds of the model.
var tokKind = map[token.Token]ref.TK{
	token.EOF: ref.TEOF, token.Illegal: ref.TBad, token.TexComment: ref.TTexComment,
	token.Abbrev: ref.TStringCmd, token.Comment: ref.TCommentCmd, token.Preamble: ref.TPreambleCmd, token.BibEntry: ref.TEntryCmd,
	token.Ident: ref.TIdent, token.String: ref.TRawQuote, token.BraceString: ref.TRawBrace, token.Number: ref.TNumber,
	token.DoubleQuote: ref.TQuote, token.StringLBrace: ref.TSBrace, token.StringRBrace: ref.TEBrace, token.StringSpace: ref.TSpace,
	token.StringNBSP: ref.TTie, token.StringContents: ref.TContents, token.StringMath: ref.TMath, token.StringComma: ref.TSComma,
	token.StringBackslash: ref.TEscaped, token.StringAccent: ref.TAccent, token.StringMacro: ref.TMacro,
	token.Assign: ref.TAssign, token.LParen: ref.TLParen, token.LBrace: ref.TLBrace, token.RParen: ref.TRParen, token.RBrace: ref.TRBrace,
	token.Concat: ref.TConcat, token.Comma: ref.TComma,
}

// Kind converts a token kind.
func Kind(t token.Token) (ref.TK, bool) {
	k, ok := tokKind[t]
	return k, ok
}

// STok is a token of the implementation.
type STok struct {
	Tok token.Token
	Off int
	Lit string
}

// SErr is an error the scanner reported.
type SErr struct {
	Pos gotok.Position
	Msg string
}

// ErrList returns err as an error list.
func ErrList(err error) (goscan.ErrorList, bool) {
	l, ok := err.(goscan.ErrorList)
	return l, ok
}

// NewScanner returns an initialized scanner.
func NewScanner(name string, src []byte, mode scanner.Mode, eh scanner.ErrorHandler) (*scanner.Scanner, *gotok.File) {
	fset := gotok.NewFileSet()
	f := fset.AddFile(name, -1, len(src))
	s := &scanner.Scanner{}
	s.Init(f, src, eh, mode)
	return s, f
}

// DumpEqual compares two documents.
func DumpEqual(a, b *ref.Doc, fl int) (string, string, bool) {
	x := ref.AppendDoc(nil, a, fl)
	y := ref.AppendDoc(nil, b, fl)
	return string(x), string(y), bytes.Equal(x, y)
}
