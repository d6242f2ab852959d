package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// partText is the text of a part of an author.
func partText(x ast.Expr) (string, string) {
	if x == nil {
		return "", ""
	}
	if t, ok := x.(*ast.Text); ok {
		return ref.Squeeze(t.Value), ""
	}
	c := adapt.Conv{}
	b, ok, _ := ref.Text(nil, c.Expr(x))
	if !ok {
		return "", bad("a part of an author is a %T", x)
	}
	return ref.Squeeze(string(b)), ""
}

func fields(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' })
}

// dump shows everything about an expression, including positions.
func dump(x ast.Expr) string {
	c := adapt.Conv{}
	return string(ref.AppendNode(nil, c.Expr(x), ref.DPos))
}

func namesOf(as []ref.Name) string {
	var s []string
	for _, n := range as {
		s = append(s, fmt.Sprintf("%q", n.Words))
	}
	return strings.Join(s, " ")
}

// evalAuthors compares the authors extracted from the string src with the
// model's. If parts, it compares the parts of every name, otherwise the list.
func evalAuthors(parts bool) func(w *core.W, aux string, src []byte) string {
	return func(w *core.W, _ string, src []byte) string {
		m, v, _ := ref.ParseExpr(src, w.St)
		if v == ref.Reject || m != nil && m.K != ref.KParsed {
			return ""
		}
		var x ast.Expr
		var err error
		adapt.Guard(func() { x, err = parser.ParseExpr(string(src)) })
		txt, ok := x.(*ast.ParsedText)
		if err != nil || !ok || txt == nil {
			return "" // C03 decides that
		}
		before := dump(txt)
		var as ast.Authors
		if p := adapt.Guard(func() { as, err = bibtex.ExtractAuthors(txt) }); p != nil {
			return p.Error()
		}
		w.Trace++
		if after := dump(txt); after != before {
			return bad("the input was changed from %s\nto %s", clip([]byte(before)), clip([]byte(after)))
		}
		if v != ref.Accept {
			return ""
		}
		want := ref.ParseAuthors(m)
		w.Trans += int64(len(m.Kids))
		if !want.Known {
			w.Count("unspecified", 1)
			return ""
		}
		if want.Error {
			if err == nil && !parts {
				return bad("a name is empty, but no error; got %d authors", len(as))
			}
			return ""
		}
		if err != nil {
			if parts {
				return ""
			}
			return bad("names %s, but: %v", namesOf(want.Names), err)
		}
		if len(as) != len(want.Names) {
			if parts {
				return ""
			}
			return bad("want %d authors %s, got %d", len(want.Names), namesOf(want.Names), len(as))
		}
		var out []byte
		for i, n := range want.Names {
			a := as[i]
			if a == nil {
				return bad("author %d is nil", i)
			}
			var t [4]string
			for j, e := range []ast.Expr{a.First, a.Prefix, a.Last, a.Suffix} {
				var s string
				if t[j], s = partText(e); s != "" {
					return s
				}
				out = append(append(out, t[j]...), '|')
			}
			if !n.Known {
				continue
			}
			got := fmt.Sprintf("author %d is first %q prefix %q last %q suffix %q", i, t[0], t[1], t[2], t[3])
			if !parts {
				if i == len(want.Names)-1 && n.Others != a.IsOthers() {
					if n.Others || t[2] != "others" {
						return bad("%s; IsOthers is %v", got, a.IsOthers())
					}
				}
				x := fields(strings.Join(t[:], " "))
				y := append([]string{}, n.Words...)
				sort.Strings(x)
				sort.Strings(y)
				if strings.Join(x, " ") != strings.Join(y, " ") {
					return bad("%s, of the words %q", got, n.Words)
				}
				continue
			}
			if n.Exact {
				if t[0] != n.First || t[1] != n.Prefix || t[2] != n.Last || t[3] != n.Suffix {
					return bad("%s, want first %q prefix %q last %q suffix %q", got, n.First, n.Prefix, n.Last, n.Suffix)
				}
				w.Count("names_exact", 1)
			}
			// Nothing is lost or reordered.
			var order []string
			switch n.Commas {
			case 0:
				order = []string{t[0], t[1], t[2]}
				if t[3] != "" {
					return bad("%s, but there is no comma", got)
				}
			case 1:
				order = []string{t[1], t[2], t[0]}
				if t[3] != "" {
					return bad("%s, but there is one comma", got)
				}
			default:
				order = []string{t[1], t[2], t[3], t[0]}
			}
			if s := fields(strings.Join(order, " ")); strings.Join(s, " ") != strings.Join(n.Words, " ") {
				return bad("%s, of the words %q", got, n.Words)
			}
			if n.Before > 0 && t[2] == "" {
				return bad("%s: no last name", got)
			}
		}
		w.Outcome(out)
		return ""
	}
}

// Elements of author lists.
var authorElems = []string{"A", "bb", "and", " ", ",", "~", "{B b}", "{and}", "{,}", "\\'{E}", "\\'e", "-", "others", "Ande", "AND", "\\&", "\\v ", "$m$", "\n", "1", "É", "é", "{}", "\\url{u}", "{\\\"U}"}

// Words of names and what separates them.
var (
	nameWords = []string{"Aa", "bb", "{C c}", "\\'Ee", "de-Fg", "H.", "J{k}", "l'"}
	nameSeps  = []string{" ", "~", ", ", " and ", ","}
)

// nameFam has every sequence of up to n words with every choice of separators.
func nameFam(words, seps []string, n int, name string) gen.Fam {
	return gen.Fam{Name: fmt.Sprintf("names%d%s", n, name), Gen: func(f gen.F) bool {
		buf := make([]byte, 0, 256)
		var rec func(b []byte, n int) bool
		rec = func(b []byte, n int) bool {
			for _, w := range words {
				x := append(b, w...)
				if !f(append(x, '}')) {
					return false
				}
				if n > 1 {
					for _, s := range seps {
						if !rec(append(x, s...), n-1) {
							return false
						}
					}
				}
			}
			return true
		}
		return rec(append(buf, '{'), n)
	}}
}

// longLists have many names, words or elements.
func longLists(max int) gen.Fam {
	return gen.Fam{Name: "long-lists", Gen: func(f gen.F) bool {
		for n := 1; n <= max; n++ {
			for _, u := range []string{"A and ", "Aa, Bb and ", "bb Cc,Jr,D and ", "Aa ", "bb ", "a~b ", "A,", "{and}", "and ", "A,B,C,D and "} {
				s := strings.Repeat(u, n)
				for _, e := range []string{"Z", "others", "zz", "", "Z, Y"} {
					if !f([]byte("{"+s+e+"}")) || !f([]byte("\""+s+e+"\"")) {
						return false
					}
				}
			}
		}
		return true
	}}
}

// nestedGroups have 'and', commas and spaces at every depth.
func nestedGroups(depth int) gen.Fam {
	return gen.Fam{Name: "nested-groups", Gen: func(f gen.F) bool {
		in := []string{"and", " and ", "A and B", ",", "a, b", "others", "bb", "~", "A and b, C"}
		for d := 1; d <= depth; d++ {
			o, c := strings.Repeat("{", d), strings.Repeat("}", d)
			for _, x := range in {
				for _, pre := range []string{"", "A ", "A and ", "bb ", "A, ", "x", "{A} and", " "} {
					for _, suf := range []string{"", " Z", " and Z", " zz", ", Z", "x", " and{Z}", " "} {
						if !f([]byte("{" + pre + o + x + c + suf + "}")) {
							return false
						}
					}
				}
			}
		}
		return true
	}}
}

// Particles, suffixes and separators that a name could be expected to treat
// specially, and places where they can stand.
var (
	nameVocab = []string{"von", "van", "der", "de", "la", "d'", "al-", "bin", "ibn", "di", "y", "e", "et", "al.", "et al.", "und", "AND", "And", "aNd", "or", "&", "\\&", "with", "Jr", "Jr.", "jr", "Sr.", "II", "III", "IV", "2nd", "Ph.D.", "PhD", "MD", "Dr.", "Prof.", "Inc.", "{Inc.}", "O'Neil", "McA", "J.-P.", "Jean-Paul", "\u01c5x", "\u00df", "\u0130", "\u0131", "\u4e2d\u6587", "\u0414", "\u0434", "\u00aa", "\u2160", "\U0001d400", "a\u0301", ".", "...", "?", "()", "(ed.)", "[A]", "*", "A;B", ";", "A/B", "A.B.", "\"", "'", "`", "$", "$x$ y", "--", "---", "-", "%", "#", "@", "=", "\t", "\r\n", "\u00a0", "\u2003", "\u200b"}
	nameTmpl  = []string{"@", "A @", "@ A", "A @ B", "A@", "@A", "A @B", "@, A", "A, @", "A B, @", "A @, B", "@ A, B", "A, @, B", "A, B, @", "@ and A", "A and @", "A @ and @ B", "a @", "@ a", "A @ b C", "A b @ C", "{@}", "A {@}", "{A @} B", "A~@", "@~A", "A and{@}", "A,@ and B", "@ and others", "A, @ @, B @", "others @", "@ others"}
)

func authorFams(r *core.Run) []gen.Fam {
	n := r.Pick(4, 5)
	fs := []gen.Fam{
		{Name: fmt.Sprintf("elements%d-brace", n), Gen: func(f gen.F) bool { return gen.Words("{", "}", authorElems, 0, n, f) }},
		{Name: fmt.Sprintf("elements%d-quote", n-1), Gen: func(f gen.F) bool { return gen.Words("\"", "\"", authorElems, 0, n-1, f) }},
		nameFam(nameWords, nameSeps, r.Pick(4, 5), ""),
		nameFam([]string{"Aa", "bb", "{C c}"}, []string{" ", ", ", " and "}, r.Pick(6, 8), "-few"),
		nameFam([]string{"Aa", "bb"}, []string{" ", ","}, r.Pick(9, 11), "-two"),
		longLists(r.Pick(120, 600)),
		nestedGroups(r.Pick(12, 60)),
	}
	ctxs := []gen.Ctx{{Name: "name", Pre: "{A ", Suf: " and B}"}, {Name: "von", Pre: "{A", Suf: " bb C}"}, {Name: "comma", Pre: "{bb A,", Suf: ", C}"}}
	fs = append(fs, gen.Lexical(ctxs, 3)...)
	fs = append(fs, gen.OddWords(ctxs, false), gen.BytePairs(ctxs[:1]))
	fs = append(fs, gen.Fam{Name: "vocabulary", Gen: func(f gen.F) bool {
		// Every word that a bibliography can hold, everywhere in a name.
		words := append(append(append([]string{}, gen.FieldNames...), gen.CiteKeys...), nameVocab...)
		for _, m := range gen.Macros {
			words = append(words, "\\"+m, "\\"+m+" ", "\\"+m+"{}", "{\\"+m+"}", "{\\"+m+"{a}}", "{\\"+m+" a}", "\\"+m+"{}b")
		}
		for _, x := range words {
			for _, t := range nameTmpl {
				if !f([]byte("{" + strings.ReplaceAll(t, "@", x) + "}")) {
					return false
				}
			}
		}
		return true
	}})
	return fs
}

func init() {
	reg(&core.Check{
		ID:   "C13",
		Rule: "every author list of the families, parsed and split by the implementation, against a word-level model of author lists: number of authors, errors for empty names, the words of each name, a final 'others', the input unchanged",
		Run:  func(r *core.Run) { runFams(r, authorFams(r), evalAuthors(false)) },
	})
	reg(&core.Check{
		ID:   "C14",
		Rule: "every author list of the families against a word-level model of names: the exact parts for names whose words are all clearly capitalised or lower-case, and for all names no word lost, cut, reordered or in a part that the commas exclude",
		Run:  func(r *core.Run) { runFams(r, authorFams(r), evalAuthors(true)) },
	})
}
