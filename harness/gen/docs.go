package gen

import "strings"

// T is a token of a generated document. Two adjacent tokens that need
// whitespace between them are found by Glue.
type T = string

// Values of fields, as tokens.
var Values = [][]T{
	{"1"}, {"2004"}, {"jan"}, {`""`}, {"{}"}, {`"q"`}, {"{b}"}, {`"a {b "c" d} e"`}, {"{a \"b\" {c}}"}, {`" lead trail "`},
	{`"q"`, "#", "jan"}, {"1", "#", "{b}", "#", `"q"`}, {"{b}", "#", "{c}"}, {`{\'{e} \& \alpha $x_1$ a~b, c}`}, {`"\"{o}{\"u}\c c"`}, {"{a\n  b\tc}"},
	{"{é ü 漢字}"}, {"{50\\% \\_ \\{\\} \\\\ \\$}"}, {`"and others and {A and B}"`}, {"{http://x.y/~z}"}, {"{\\url{http://x.y/~z,%20}}"}, {"0a"},
}

// Decls are declarations, as tokens.
var Decls = [][]T{
	{"@a", "{", "k", "}"},
	{"@a", "{", "}"},
	{"@article", "{", "key:1", ",", "title", "=", "{T {U} v}", ",", "year", "=", "2004", "}"},
	{"@B", "(", "k", ",", "x", "=", `"q"`, ")"},
	{"@c", "{", "k", ",", "X", "=", "1", ",", "x", "=", "2", ",", "}"},
	{"@d", "{", "k", ",", "j", ",", "l", ",", "x", "=", "n", "}"},
	{"@e", "{", "x", "=", "1", "}"},
	{"@string", "{", "n", "=", `"v w"`, "}"},
	{"@STRING", "(", "Nn", "=", "{v}", "#", "n", ",", ")"},
	{"@preamble", "{", `"p"`, "#", "n", "}"},
	{"@Preamble", "(", "{p}", ")"},
	{"@f", "{", "k", ",", "url", "=", "{http://a.b/c~d}", ",", "Url", "=", `"http://a.b/c,d"`, "}"},
	{"@g", "{", "1a", ",", "x", "=", "1", "#", `"s"`, "#", "{t}", ",", "y", "=", "{}", "}"},
	{"@h", "{", "k", "j", "x", "=", "1", "y", "=", "{z}", "}"},
	{"@i_j", "{", "a-b.c", ",", "x-y", "=", "{\\'e}", "}", ","},
	{"@é", "{", "k", ",", "x", "=", "{é}", "}"},
	{"@j", "(", "k", ",", "x", "=", "{)}", ",", "y", "=", "\")\"", ",", ")"},
	{"@k", "{", "k", ",", "author", "=", "{A B and C, D}", ",", "month", "=", "jan", "#", `"~1"`, "}"},
}

// isWord reports whether c can continue a name or a command.
func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80 || strings.IndexByte("!$&*+-./:;<>?[]^`|", c) >= 0
}

// Glue reports whether tokens a and b can stand next to each other.
func Glue(a, b T) bool {
	x, y := a[len(a)-1], b[0]
	// '}' and '"' end what starts with { or ".
	return !(isWord(x) && isWord(y))
}

// Concat joins tokens with gaps: gap(i) is what stands before token i, for i up
// to len(ts).
func Concat(ts []T, gap func(i int) string) []byte {
	var b []byte
	for i, t := range ts {
		g := gap(i)
		if g == "" && i > 0 && !Glue(ts[i-1], t) {
			g = " "
		}
		b = append(b, g...)
		b = append(b, t...)
	}
	return append(b, gap(len(ts))...)
}

// Plain joins tokens as tightly as possible.
func Plain(ts []T) []byte { return Concat(ts, func(int) string { return "" }) }

// Spaced joins tokens with a separator.
func Spaced(ts []T, sep string) []byte { return Concat(ts, func(i int) string { return sep }) }

// Docs has sequences of up to n declarations, with a few separators.
func Docs(n int) Fam {
	return Fam{"documents", func(f F) bool {
		seps := []string{"", "\n", " ", "\r\n\t"}
		var rec func(ts []T, n int) bool
		rec = func(ts []T, n int) bool {
			if n == 0 {
				for _, s := range seps {
					if !f(Spaced(ts, s)) {
						return false
					}
				}
				return true
			}
			for _, d := range Decls {
				if !rec(append(ts[:len(ts):len(ts)], d...), n-1) {
					return false
				}
			}
			return true
		}
		for i := 0; i <= n; i++ {
			if !rec(nil, i) {
				return false
			}
		}
		return true
	}}
}

// ValueDocs has every sequence of up to n values as fields of an entry.
func ValueDocs(n int) Fam {
	return Fam{"values", func(f F) bool {
		var rec func(ts []T, n int) bool
		rec = func(ts []T, n int) bool {
			if n == 0 {
				return f(Plain(append(ts[:len(ts):len(ts)], "}"))) && f(Spaced(append(ts[:len(ts):len(ts)], ",", "}"), "\n "))
			}
			for _, v := range Values {
				u := append(ts[:len(ts):len(ts)], ",", "f", "=")
				if !rec(append(u, v...), n-1) {
					return false
				}
			}
			return true
		}
		for i := 1; i <= n; i++ {
			if !rec([]T{"@a", "{", "k"}, i) {
				return false
			}
		}
		for _, v := range Values {
			s := string(Plain(v))
			for _, d := range []string{"@string{n=" + s + "}", "@string ( n = " + s + ",)", "@preamble{" + s + "}", "@preamble ( " + s + " )", "@a{x=" + s + "}@b{k}"} {
				if !f([]byte(d)) {
					return false
				}
			}
		}
		return true
	}}
}

// URLValues are values of url fields, besides Values.
var URLValues = [][]T{
	{"{http://x}"}, {`"http://x"`}, {"{\\url{http://x}}"}, {`"\url{http://x}"`}, {`"\url{}"`}, {"{\\url{}}"}, {"{{http://x}}"}, {`"{http://x}"`}, {"{see http://x~y, z}"}, {`"see \url{http://x~y} z"`},
	{"{http://x}", "#", `"~y"`}, {`"http://x"`, "#", "{~y}"}, {"n", "#", "{http://x~y}"}, {"{ http://x}"}, {"{http://x }"}, {"{http}"}, {"{https://x~,}"}, {"{ftp://x~}"}, {"{\n}"}, {"{www.x~y,z}"}, {"{\\href{http://x}{t~u}}"}, {`"\href{http://x}{t~u}"`}, {"{http://é}"}, {"{~}"}, {"{,}"}, {"{-}"}, {"{a b}"}, {`"~"`}, {`","`}, {`" "`}, {"{ }"},
}

// URLDocs has every sequence of up to n values as fields named url, in any case,
// and as fields whose names are near that.
func URLDocs(n int) Fam {
	names := []string{"url", "URL", "Url", "urL", "url2", "ur", "xurl", "url-x"}
	all := append(append([][]T{}, Values...), URLValues...)
	return Fam{"urls", func(f F) bool {
		var rec func(ts []T, n int) bool
		rec = func(ts []T, n int) bool {
			if n == 0 {
				if !f(Plain(append(ts[:len(ts):len(ts)], "}"))) || !f(Spaced(append(ts[:len(ts):len(ts)], ",", "}"), "\n ")) || !f(Plain(append(ts[:len(ts):len(ts)], ",", "y", "=", "{~,a}", "}", "@b", "{", "j", "}"))) {
					return false
				}
				return true
			}
			for _, nm := range names {
				if n > 1 && nm != "url" && nm != "URL" {
					continue
				}
				for _, v := range all {
					if !rec(append(append(ts[:len(ts):len(ts)], ",", nm, "="), v...), n-1) {
						return false
					}
				}
			}
			return true
		}
		for i := 1; i <= n; i++ {
			if !rec([]T{"@a", "{", "k"}, i) {
				return false
			}
		}
		for _, v := range all {
			s := string(Plain(v))
			for _, d := range []string{"@string{url=" + s + "}", "@string ( URL = " + s + ",)", "@preamble{" + s + "}", "@url{url,url=" + s + "}", "@a{url=" + s + "}@b{url}"} {
				if !f([]byte(d)) {
					return false
				}
			}
			for i := range s {
				if !f([]byte("@a{k,url="+s[:i])) || !f([]byte("@a{k,url="+s[:i]+"}")) || !f([]byte("@a{k,url="+s[:i]+"}}@b{j}")) {
					return false
				}
			}
		}
		return true
	}}
}

// Mutations has every document of up to n declarations with one token removed,
// doubled, swapped with its successor or replaced, and every document cut off
// after every byte.
func Mutations(n int) Fam {
	subs := []T{"{", "}", "(", ")", ",", "=", "#", "k", "1", `"q"`, "{b}", "@a", "@string", "@preamble", "\"", "\\", "\x00", "%c\n", "x=1", "@"}
	return Fam{"mutations", func(f F) bool {
		var one func(ts []T) bool
		one = func(ts []T) bool {
			full := Spaced(ts, " ")
			for i := range full {
				if !f(full[:i:i]) {
					return false
				}
			}
			for i := range ts {
				rest := ts[i+1:]
				head := ts[:i:i]
				if !f(Spaced(append(head, rest...), " ")) || !f(Spaced(append(append(head, ts[i], ts[i]), rest...), " ")) {
					return false
				}
				if len(rest) > 0 && !f(Spaced(append(append(head, rest[0], ts[i]), rest[1:]...), " ")) {
					return false
				}
				for _, s := range subs {
					if !f(Spaced(append(append(head, s), rest...), " ")) || !f(Spaced(append(append(head, s, ts[i]), rest...), " ")) {
						return false
					}
				}
			}
			return true
		}
		var rec func(ts []T, n int) bool
		rec = func(ts []T, n int) bool {
			if n == 0 {
				return one(ts)
			}
			for _, d := range Decls {
				if !rec(append(ts[:len(ts):len(ts)], d...), n-1) {
					return false
				}
			}
			return true
		}
		for i := 1; i <= n; i++ {
			if !rec(nil, i) {
				return false
			}
		}
		return true
	}}
}

// Gaps are what can stand between two tokens.
var Gaps = []string{"", " ", "\n", "\r\n", "\t", "  \n\n", "%c\n", "\n%c\n", " %é, \"{ @x}\n", "\n%a\n%b\n", "\n%a\n\n%b\n", "%a\n%b\n", " %c\r\n", "\n%a\n \t%b\n\n", "%\n", "\r"}

// Layouts has every document of n declarations with up to dev gaps that deviate
// from a common one.
func Layouts(n, dev int) Fam {
	return Fam{strings.Join([]string{"layouts", string(rune('0' + n)), "-", string(rune('0' + dev))}, ""), func(f F) bool {
		one := func(ts []T) bool {
			gaps := make([]string, len(ts)+1)
			for _, base := range []string{"", " ", "\n"} {
				for i := range gaps {
					gaps[i] = base
				}
				emit := func() bool { return f(Concat(ts, func(i int) string { return gaps[i] })) }
				var rec func(from, dev int) bool
				rec = func(from, dev int) bool {
					if !emit() {
						return false
					}
					if dev == 0 {
						return true
					}
					for i := from; i < len(gaps); i++ {
						for _, g := range Gaps {
							if g == base {
								continue
							}
							gaps[i] = g
							if !rec(i+1, dev-1) {
								return false
							}
						}
						gaps[i] = base
					}
					return true
				}
				if !rec(0, dev) {
					return false
				}
			}
			return true
		}
		var rec func(ts []T, n int) bool
		rec = func(ts []T, n int) bool {
			if n == 0 {
				return one(ts)
			}
			for _, d := range Decls {
				if !rec(append(ts[:len(ts):len(ts)], d...), n-1) {
					return false
				}
			}
			return true
		}
		return rec(nil, n)
	}}
}

// Comments has every sequence of up to n comments, newlines, blanks and tokens
// that form an entry's parts.
func Comments(n int) []Fam {
	sym := []string{"%a\n", "\n", " ", "%b\r\n", "%c"}
	var fs []Fam
	for _, c := range []Ctx{
		{"top", "", "@a{k,x=1}"}, {"top-end", "@a{k}", ""}, {"between", "@a{k}", "@b{j}\n"}, {"between-strings", "@string{n={v}}", "@preamble{{p}}"},
		{"key", "@a{", "k,\nx=1}"}, {"field", "@a{k,", "x=1,y=2}"}, {"second", "@a{k,x={a\nb},", "y=2,\nz=3}"}, {"last", "@a{k,x=\"a\nb\"", "}"}, {"value", "@a{k,x=", "{v}}"}, {"after-value", "@a{k,x={v\n\nw}", ",y=1}"},
		{"assign", "@a{k,x", "=1}"}, {"concat", "@a{k,x={v}", "#{w},y=1}"}, {"concat-op", "@a{k,x={v\n}#", "\"w\",y=1}"}, {"abbrev", "@string{", "n=1}"}, {"open", "@a", "{k,x=1}"}, {"after-open-nl", "@a{k,\n", "x=1}"}, {"top-bom", "\ufeff", "@a{k}"}, {"nl-top", "\n", "@a{k}"},
	} {
		c := c
		fs = append(fs, Fam{"comments-" + c.Name, func(f F) bool {
			suf := c.Suf
			return Words(c.Pre, suf, sym, 0, n, func(b []byte) bool {
				// A final comment would swallow the suffix: end it.
				if k := len(b) - len(suf); suf != "" && k > 0 && b[k-1] == 'c' {
					return f(append(append(append([]byte{}, b[:k]...), '\n'), suf...))
				}
				return f(b)
			})
		}})
	}
	return fs
}

// Broken has malformed declarations after well-formed ones: every sequence of up
// to n declarations followed by every sequence of up to k broken ones.
func Broken(n, k int) Fam {
	broken := []string{"@a{k,x=}", "@a{k,x", "@a{k,x={", "@a{k,x=\"", "@a k}", "@a{k)", "@string{n}", "@string{=1}", "@preamble{}", "@preamble 1", "t", "}", "@", "@a{k,x=1 2=3}", "@a{k,x=\"\\\"\"}", "@a{k,x={\\1}}", "@a{k,x={$}}", "\x00", "@a{k,x=\xff}", "@a{k,=1}", "@a{k,x=1#}", "@a{k,1=2}", "@string", "@a{k,x={\\'1},y=1}", "@a{k,x=\"}\"}", "@a{k,x={\n\n\\url{}"}
	good := []string{"@a{k}", "@b{j,x=1,y={b}}", "@string{n=\"v\"}", "@preamble{\"p\"}", "@c(l,x=n # {w\n})", "%c\n@d{\nx=1,\n}", "@e{k},"}
	return Fam{"broken", func(f F) bool {
		var rb func(s string, k int) bool
		rb = func(s string, k int) bool {
			if k == 0 {
				return true
			}
			for _, b := range broken {
				for _, g := range []string{"\n", " "} {
					if !f([]byte(s+b)) || !f([]byte(s+b+g+"@z{k}\n")) || !rb(s+b+g, k-1) {
						return false
					}
				}
			}
			return true
		}
		var rec func(s string, n int) bool
		rec = func(s string, n int) bool {
			if !rb(s, k) {
				return false
			}
			if n == 0 {
				return true
			}
			for _, g := range good {
				if !rec(s+g+"\n", n-1) {
					return false
				}
			}
			return true
		}
		return rec("", n)
	}}
}
