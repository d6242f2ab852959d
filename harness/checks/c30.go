package checks

import (
	"fmt"
	gotok "go/token"
	"reflect"
	"strings"

	"verif/core"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// Classes of tokens.
const (
	clNone = iota
	clCommand
	clLiteral
	clString
	clOperator
)

// vocabTokens has the class of every token.
var vocabTokens = map[token.Token]int{
	token.Illegal: clNone, token.EOF: clNone, token.TexComment: clNone,
	token.Abbrev: clCommand, token.Comment: clCommand, token.Preamble: clCommand, token.BibEntry: clCommand,
	token.Ident: clLiteral, token.String: clLiteral, token.BraceString: clLiteral, token.Number: clLiteral,
	token.DoubleQuote: clString, token.StringLBrace: clString, token.StringRBrace: clString, token.StringSpace: clString, token.StringNBSP: clString,
	token.StringContents: clString, token.StringHyphen: clString, token.StringMath: clString, token.StringComma: clString,
	token.StringBackslash: clString, token.StringAccent: clString, token.StringMacro: clString,
	token.Assign: clOperator, token.LParen: clOperator, token.LBrace: clOperator, token.RParen: clOperator, token.RBrace: clOperator,
	token.Concat: clOperator, token.Comma: clOperator,
}

// evalTokens: aux is a number.
func evalTokens(w *core.W, aux string, _ []byte) string {
	n := 0
	fmt.Sscan(aux, &n)
	t := token.Token(n)
	w.Trace++
	w.Trans += 5
	name := t.String()
	if name == "" {
		return bad("token %d has no name", n)
	}
	cl, known := vocabTokens[t]
	if known {
		for u := range vocabTokens {
			if u != t && u.String() == name {
				return bad("tokens %d and %d are both named %q", t, u, name)
			}
		}
	} else {
		for u := range vocabTokens {
			if u.String() == name {
				return bad("no token has the number %d, but its name %q is that of token %d", t, name, u)
			}
		}
	}
	for c, got := range map[int]bool{clCommand: t.IsCommand(), clLiteral: t.IsLiteral(), clString: t.IsStringLiteral(), clOperator: t.IsOperator()} {
		if got != (c == cl) {
			return bad("token %s: class %d is %t, want class %d", name, c, got, cl)
		}
	}
	w.Outcome([]byte(name))
	return ""
}

// docName is what the documentation says about names.
func docName(r rune) bool {
	return r < 128 && r > 0 && strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-!$&*+./:;<>?[]^`|", r)
}

// evalRunes: aux is a number of 4096 characters.
func evalRunes(w *core.W, aux string, _ []byte) string {
	page := 0
	fmt.Sscan(aux, &page)
	for i := 0; i < 4096; i++ {
		r := rune(page*4096 + i)
		w.Trans++
		if got := scanner.IsName(r); got != docName(r) {
			return bad("IsName(%q) is %t", r, got)
		}
		letter := 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z'
		if got := scanner.IsAsciiLetter(r); got != letter {
			return bad("IsAsciiLetter(%q) is %t", r, got)
		}
		if r < 0 || r > 0x10ffff || r >= 0xd800 && r < 0xe000 {
			continue
		}
		w.Trace++
		src := []byte("@a{k" + string(r) + "j,")
		file := gotok.NewFileSet().AddFile("n.bib", -1, len(src))
		var s scanner.Scanner
		s.Init(file, src, nil, 0)
		s.Scan()
		s.Scan()
		_, tok, lit := s.Scan()
		one := tok == token.Ident && lit == "k"+string(r)+"j"
		if one != docName(r) {
			return bad("the scanner reads %q as %s %q", src[3:], tok, lit)
		}
		if !one && (tok != token.Ident || lit != "k") {
			return bad("the scanner reads %q as %s %q, want the name k", src[3:], tok, lit)
		}
	}
	return ""
}

var vocabNodes = []ast.Node{
	&ast.TexComment{}, &ast.TexCommentGroup{}, &ast.BadExpr{}, &ast.Ident{}, &ast.Number{}, ast.Authors{}, &ast.Author{}, &ast.UnparsedText{}, &ast.ParsedText{},
	&ast.Text{}, &ast.TextComma{}, &ast.TextEscaped{}, &ast.TextHyphen{}, &ast.TextMath{}, &ast.TextNBSP{}, &ast.TextSpace{}, &ast.TextMacro{}, &ast.ConcatExpr{},
	&ast.BadStmt{}, &ast.TagStmt{}, &ast.BadDecl{}, &ast.AbbrevDecl{}, &ast.BibDecl{}, &ast.PreambleDecl{}, &ast.File{}, &ast.Package{},
}

var vocabKinds = map[string]ast.NodeKind{
	"TexComment": ast.KindTexComment, "TexCommentGroup": ast.KindTexCommentGroup, "BadExpr": ast.KindBadExpr, "Ident": ast.KindIdent, "Number": ast.KindNumber,
	"Authors": ast.KindAuthors, "Author": ast.KindAuthor, "UnparsedText": ast.KindUnparsedText, "ParsedText": ast.KindParsedText, "Text": ast.KindText,
	"TextComma": ast.KindTextComma, "TextEscaped": ast.KindTextEscaped, "TextHyphen": ast.KindTextHyphen, "TextMath": ast.KindTextMath, "TextNBSP": ast.KindTextNBSP,
	"TextSpace": ast.KindTextSpace, "TextMacro": ast.KindTextMacro, "ConcatExpr": ast.KindConcatExpr, "BadStmt": ast.KindBadStmt, "TagStmt": ast.KindTagStmt,
	"BadDecl": ast.KindBadDecl, "AbbrevDecl": ast.KindAbbrevDecl, "BibDecl": ast.KindBibDecl, "PreambleDecl": ast.KindPreambleDecl, "File": ast.KindFile, "Package": ast.KindPackage,
}

// evalNodeKinds: aux is two numbers of nodes.
func evalNodeKinds(w *core.W, aux string, _ []byte) string {
	i, j := 0, 0
	fmt.Sscan(aux, &i, &j)
	a, b := vocabNodes[i], vocabNodes[j]
	w.Trace++
	w.Trans += 2
	typ := reflect.TypeOf(a)
	if typ.Kind() == reflect.Ptr {
		typ = typ.Elem()
	}
	if k, ok := vocabKinds[typ.Name()]; !ok || a.Kind() != k {
		return bad("a %s is of kind %d", typ.Name(), a.Kind())
	}
	if a.Kind().String() != typ.Name() {
		return bad("the kind of a %s is named %q", typ.Name(), a.Kind())
	}
	if i != j && (a.Kind() == b.Kind() || a.Kind().String() == b.Kind().String()) {
		return bad("a %T and a %T have the same kind, %s", a, b, a.Kind())
	}
	w.Outcome([]byte(typ.Name()))
	return ""
}

var vocabStrings = [][2]string{
	{bibtex.EntryArticle, "article"}, {bibtex.EntryBook, "book"}, {bibtex.EntryBooklet, "booklet"}, {bibtex.EntryInBook, "inbook"}, {bibtex.EntryInCollection, "incollection"},
	{bibtex.EntryInProceedings, "inproceedings"}, {bibtex.EntryManual, "manual"}, {bibtex.EntryMastersThesis, "mastersthesis"}, {bibtex.EntryMisc, "misc"}, {bibtex.EntryPhDThesis, "phdthesis"},
	{bibtex.EntryProceedings, "proceedings"}, {bibtex.EntryTechReport, "techreport"}, {bibtex.EntryUnpublished, "unpublished"},
	{bibtex.FieldAddress, "address"}, {bibtex.FieldAnnote, "annote"}, {bibtex.FieldAuthor, "author"}, {bibtex.FieldBookTitle, "booktitle"}, {bibtex.FieldChapter, "chapter"},
	{bibtex.EntryDOI, "doi"}, {bibtex.FieldCrossref, "crossref"}, {bibtex.FieldEdition, "edition"}, {bibtex.FieldEditor, "editor"}, {bibtex.FieldHowPublished, "howpublished"},
	{bibtex.FieldInstitution, "institution"}, {bibtex.FieldJournal, "journal"}, {bibtex.FieldKey, "key"}, {bibtex.FieldMonth, "month"}, {bibtex.FieldNote, "note"}, {bibtex.FieldNumber, "number"},
	{bibtex.FieldOrganization, "organization"}, {bibtex.FieldPages, "pages"}, {bibtex.FieldPublisher, "publisher"}, {bibtex.FieldSchool, "school"}, {bibtex.FieldSeries, "series"},
	{bibtex.FieldTitle, "title"}, {bibtex.FieldType, "type"}, {bibtex.FieldVolume, "volume"}, {bibtex.FieldYear, "year"},
	{ast.Bad.String(), "bad"}, {ast.Entry.String(), "entry"}, {ast.Abbrev.String(), "abbrev"},
	{ast.QuoteDelimiter.String(), "QuoteDelimiter"}, {ast.BraceDelimiter.String(), "BraceDelimiter"},
}

// evalConstants: aux is the number of a constant. A bibliography that uses it in
// capitals has to be found under it.
func evalConstants(w *core.W, aux string, _ []byte) string {
	n := 0
	fmt.Sscan(aux, &n)
	c := vocabStrings[n]
	w.Trace++
	w.Trans++
	if c[0] != c[1] {
		return bad("the constant for %q is %q", c[1], c[0])
	}
	for _, name := range []string{c[1], strings.ToUpper(c[1]), strings.ToUpper(c[1][:1]) + c[1][1:]} {
		b := bibtex.New()
		f, err := b.Parse(strings.NewReader("@" + name + "{k, " + name + " = {v}}"))
		if err != nil {
			return bad("@%s: %v", name, err)
		}
		es, err := b.Resolve(f)
		if err != nil || len(es) != 1 || es[0].Type != strings.ToLower(c[1]) || len(es[0].Tags) != 1 || es[0].Tags[strings.ToLower(c[1])] == nil {
			return bad("@%s: entries %v, error %v", name, es, err)
		}
	}
	return ""
}

// vocabParts are the parts of constructed authors.
func vocabPart(c byte) ast.Expr {
	switch c {
	case 'e':
		return &ast.Text{}
	case 'o':
		return &ast.Text{Value: "others"}
	case 'O':
		return &ast.Text{Value: "Others"}
	case 'x':
		return &ast.Text{Value: "x"}
	case 's':
		return &ast.Text{Value: " "}
	case 'p':
		return &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "others"}}}
	case 'P':
		return &ast.ParsedText{}
	case 'a':
		return &ast.TextAccent{}
	}
	return nil
}

// evalAuthorClass: aux is a letter for each part of an author.
func evalAuthorClass(w *core.W, aux string, _ []byte) string {
	a := &ast.Author{First: vocabPart(aux[0]), Prefix: vocabPart(aux[1]), Last: vocabPart(aux[2]), Suffix: vocabPart(aux[3])}
	w.Trace++
	w.Trans += 2
	if got := a.IsEmpty(); got != (aux == "eeee") {
		return bad("author of parts %s: IsEmpty is %t", aux, got)
	}
	if got := a.IsOthers(); got != (aux == "eeoe") {
		return bad("author of parts %s: IsOthers is %t", aux, got)
	}
	return ""
}

func init() {
	reg(&core.Check{ID: "C30", Rule: "every token number from -1000 to 1000, all pairs of node types, all characters (each in a name, through the scanner), all constants (each as type and field of an entry in three spellings) and all authors of four parts out of nine",
		Run: func(r *core.Run) {
			r.Par("tokens", func(w *core.W) {
				for i := -1000; i <= 1000; i++ {
					w.Emit(fmt.Sprint(i), nil)
				}
			}, evalTokens)
			r.ParChunk("characters", 1, func(w *core.W) {
				for i := -2; i <= 0x110; i++ {
					w.Emit(fmt.Sprint(i), nil)
				}
				for _, i := range []int{-0x80000, 0x1000, 0x7ffff} {
					w.Emit(fmt.Sprint(i), nil)
				}
			}, evalRunes)
			r.Par("nodes", func(w *core.W) {
				for i := range vocabNodes {
					for j := range vocabNodes {
						w.Emit(fmt.Sprint(i, j), nil)
					}
				}
			}, evalNodeKinds)
			r.Par("constants", func(w *core.W) {
				for i := range vocabStrings {
					w.Emit(fmt.Sprint(i), nil)
				}
			}, evalConstants)
			r.Par("authors", func(w *core.W) {
				const parts = "eoOxspPan"
				for _, a := range parts {
					for _, b := range parts {
						for _, c := range parts {
							for _, d := range parts {
								w.Emit(string([]rune{a, b, c, d}), nil)
							}
						}
					}
				}
			}, evalAuthorClass)
		}})
}
