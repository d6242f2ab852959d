package gen

// The vocabulary of real bibliographies.
var (
	// EntryTypes are the usual types of entries.
	EntryTypes = []string{"article", "book", "booklet", "inbook", "incollection", "inproceedings", "manual", "mastersthesis", "misc", "phdthesis", "proceedings", "techreport", "unpublished",
		"conference", "online", "artwork", "audio", "bibnote", "bookinbook", "commentary", "customa", "dictionary", "entry", "file", "hyphenation", "image", "inreference", "jurisdiction", "legislation", "letter", "mvbook", "mvcollection", "movie", "music", "newspaper", "nofields", "performance", "review", "standard", "suppbook", "suppperiodical", "video", "webpage", "bibtex", "key", "abbrev", "macro", "include", "bib", "www", "electronic", "thesis", "report", "patent", "dataset", "software", "periodical", "collection", "reference", "url", "control", "xdata", "set", "comments", "strings", "preambles", "string_", "Misc", "ARTICLE", "InProceedings"}
	// FieldNames are the usual names of fields.
	FieldNames = []string{"address", "annote", "author", "booktitle", "chapter", "doi", "crossref", "edition", "editor", "howpublished", "institution", "journal", "key", "month", "note", "number", "organization", "pages", "publisher", "school", "series", "title", "type", "volume", "year",
		"url", "urldate", "urls", "biburl", "bibsource", "timestamp", "abstract", "keywords", "eprint", "archiveprefix", "primaryclass", "isbn", "issn", "language", "date", "file", "link", "href", "path", "pdf", "shortauthor", "translator", "authors", "day", "xref", "ids", "options", "comment", "string", "preamble", "and", "others", "http", "a", "and-others", "Author", "TITLE", "Crossref", "bdsk-url-1"}
	// CiteKeys are the usual forms of cite keys.
	CiteKeys = []string{"knuth84", "Knuth:1984", "DBLP:conf/popl/KnuthB84", "2004foo", "1984", "10.1000/182", "a_b", "a-b.c", "a+b", "key", "author", "url", "title", "jan", "string", "comment", "_", "-", "K", "and", "others", "[KB84]", "http://x.y/z", "knuth*"}
	// FieldValues are the usual forms of values, and some that a name could be
	// expected to treat specially.
	FieldValues = [][]T{
		{"{Donald E. Knuth and Bendix, Peter and others}"}, {`"von Neumann, John and {The {\TeX} Group}"`}, {"{The {T}itle: of {\\emph{Things}} $x^2$, \\& more}"},
		{"jan"}, {"1984"}, {"007"}, {"0"}, {"00", "#", "0010"}, {"9223372036854775808"}, {"00123456789012345678901234567890"}, {"0x1F"}, {"1e5"}, {"{007}"}, {`"1 " # jan`}, {`"23~"`, "#", "dec"}, {"{1--10}"}, {"{10.1000/182_x}"}, {"{10.1000/182\\_x}"}, {"{https://doi.org/10.1000/a~b,c}"}, {`"https://x.y/a~b,c"`}, {"{\\url{https://x.y/a~b,c}}"}, {`"\url{https://x.y/a~b,c}"`}, {"{a,b; c~d}"}, {`"and"`}, {"{}"}, {`" "`}, {"{others}"}, {"{\\\"{u}ber \\'{e}t\\'e}"}, {"{http}"}, {"{{http://x~y,z}}"},
	}
	// Macros are LaTeX commands that show up in bibliographies.
	Macros = []string{"aa", "AA", "ae", "AE", "alpha", "b", "bf", "bibinfo", "bm", "boldsymbol", "c", "cal", "cC", "cite", "citep", "cprime", "copyright", "d", "dag", "dots", "em", "emph", "enquote", "ensuremath", "etalchar", "eprint", "footnote", "frac", "H", "href", "hspace", "hyperref", "i", "it", "j", "k", "l", "L", "label", "langle", "LaTeX", "ldots", "lowercase", "mathbb", "mathcal", "mathrm", "mbox", "mkbibquote", "natexlab", "newblock", "newline", "nocite", "nolinkurl", "noopsort", "o", "O", "oe", "OE", "path", "penalty", "pounds", "protect", "r", "ref", "relax", "rm", "sc", "sf", "sl", "sortas", "ss", "string", "t", "TeX", "text", "textasciitilde", "textbackslash", "textbf", "textit", "textquoteright", "textsc", "textsuperscript", "textunderscore", "tt", "u", "underline", "uppercase", "ur", "url", "URL", "Url", "urls", "urlprefix", "v", "verb", "x"}
)

// Vocab has every usual entry type with every field name, every field name with
// every value and every other field name, every form of a cite key, and every
// macro in every string, followed by whatever can follow one.
func Vocab() Fam {
	return Fam{"vocabulary", func(f F) bool {
		e := func(ts ...T) bool { return f(Plain(ts)) }
		for _, t := range EntryTypes {
			for _, k := range CiteKeys {
				if !e("@"+t, "{", k, ",", "x", "=", k, "#", "1", "}") {
					return false
				}
			}
			for _, n := range FieldNames {
				if !e("@"+t, "{", "k", ",", n, "=", "{a~b, c}", "}") || !e("@"+t, "(", n, "=", `"a~b, c"`, ",", ")") {
					return false
				}
			}
		}
		// Entries with little in them, alone and next to each other.
		for _, t := range EntryTypes {
			for _, b := range []string{"{}", "{k}", "(k)", "{k,}", "{k,j}", "{,}", "{x=1}", "{k,x=1,x=2}", "{k,x={}}", "{k,x=\"\",}"} {
				if !f([]byte("@"+t+b)) || !f([]byte("@"+t+b+"\n@"+t+b+"\n")) || !f([]byte("@a{k,y=1}@"+t+b+"@b{k}")) {
					return false
				}
			}
			for _, u := range EntryTypes {
				if !f([]byte("@"+t+"{k,x=1}\n@"+u+"{k}")) || !f([]byte("@"+t+"{k,crossref={j}}\n@"+u+"{j,x=1}")) {
					return false
				}
			}
		}
		for _, n := range FieldNames {
			for _, v := range FieldValues {
				a := append([]T{"@a", "{", "k", ",", n, "="}, v...)
				if !f(Plain(append(a[:len(a):len(a)], "}"))) || !f(Spaced(append(a[:len(a):len(a)], ",", "}", "@b", "{", "j", "}"), "\n")) || !f(Plain(append(append([]T{"@string", "{", n, "="}, v...), "}"))) {
					return false
				}
			}
			for _, m := range FieldNames {
				if !e("@a", "{", "k", ",", n, "=", "{http://a~b,c}", ",", m, "=", "{http://c~d,e}", "}") || !e("@a", "{", n, ",", m, "=", n, "#", m, ",", m, "}") {
					return false
				}
			}
		}
		for _, c := range []Ctx{{"b", "@a{k,f={", "}}"}, {"q", "@a{k,f=\"", "\"}"}, {"n", "@a{k,author={A and {", "}}}"}, {"m", "@a{k,f={$", "$}}"}} {
			for _, m := range Macros {
				for _, s := range []string{"", "{}", "{a}", "{a b}", "{a}{b}", " a", "~a", ",a", "\\x", "{\\" + m + "{a}}", "\n", "-", "1", "é", "*", "[a]{b}", "_", "$x$", " and ", ".", "=", "/"} {
					if !f([]byte(c.Pre+"\\"+m+s+c.Suf)) || !f([]byte(c.Pre+"A{\\"+m+s+"}"+c.Suf)) {
						return false
					}
				}
			}
		}
		return true
	}}
}
