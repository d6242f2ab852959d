package checks

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"sync"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
)

type hash [2]uint64

func hashOf(b []byte) hash {
	h := hash{14695981039346656037, 0x9e3779b97f4a7c15}
	for _, c := range b {
		h[0] = (h[0] ^ uint64(c)) * 1099511628211
		h[1] = (h[1]+uint64(c)+1)*0xbf58476d1ce4e5b9 ^ h[1]>>29
	}
	return h
}

type seen struct {
	other hash
	src   string
	raw   bool
}

// bijection relates debug strings and structures of all expressions of a run.
type bijection struct {
	mu   [64]sync.Mutex
	byS  [64]map[hash]seen
	byD  [64]map[hash]seen
	size int
}

var relation = func() *bijection {
	b := &bijection{}
	for i := range b.byS {
		b.byS[i], b.byD[i] = map[hash]seen{}, map[hash]seen{}
	}
	return b
}()

func (b *bijection) put(m *[64]map[hash]seen, k hash, v seen) (seen, bool) {
	i := k[0] % 64
	b.mu[i].Lock()
	defer b.mu[i].Unlock()
	old, ok := m[i][k]
	if !ok {
		v.src = strings.Clone(v.src)
		m[i][k] = v
	}
	return old, ok
}

// exprOf is the expression of a source: parsed, or raw as a field's value.
func exprOf(src string, isRaw bool, st *ref.Stats) (x ast.Expr, n *ref.N) {
	if !isRaw {
		n, v, _ := ref.ParseExpr([]byte(src), st)
		if v != ref.Accept {
			return nil, nil
		}
		adapt.Guard(func() { x, _ = parser.ParseExpr(src) })
		return x, n
	}
	doc := []byte("@a{k,x=" + src + "}")
	res := ref.Parse(doc, false, st)
	if res.V != ref.Accept || len(res.Doc.Decls) != 1 || len(res.Doc.Decls[0].Kids) != 2 {
		return nil, nil
	}
	f := parsedFile(doc, raw)
	if f == nil || len(f.Entries) != 1 {
		return nil, nil
	}
	return f.Entries[0].(*ast.BibDecl).Tags[0].Value, res.Doc.Decls[0].Kids[1].Kids[0]
}

// evalExprString: aux "p" parses strings, "r" leaves them raw.
func evalExprString(w *core.W, aux string, src []byte) string {
	isRaw := aux == "r"
	x, n := exprOf(string(src), isRaw, w.St)
	if x == nil {
		return ""
	}
	dump := ref.AppendNode(nil, n, 0)
	// The debug string is of the tree that is there.
	if got := flat(x); got != string(dump) {
		return "" // C02 and C04 decide whether the tree is right
	}
	var s string
	if p := adapt.Guard(func() { s = asts.ExprString(x) }); p != nil {
		return bad("ExprString: %v", p)
	}
	w.Trace++
	w.Trans++
	w.Outcome([]byte(s))
	if s2 := asts.ExprString(adapt.CloneExpr(x)); s2 != s {
		return bad("ExprString isn't a function: %s and %s", s, s2)
	}
	if got := flat(x); got != string(dump) {
		return "ExprString changed the expression"
	}
	hs, hd := hashOf([]byte(s)), hashOf(dump)
	if old, ok := relation.put(&relation.byS, hs, seen{hd, string(src), isRaw}); ok && old.other != hd {
		return pairs(w, old, string(src), isRaw)
	}
	if old, ok := relation.put(&relation.byD, hd, seen{hs, string(src), isRaw}); ok && old.other != hs {
		return pairs(w, old, string(src), isRaw)
	}
	return ""
}

func pairs(w *core.W, old seen, src string, isRaw bool) string {
	aux := fmt.Sprintf("%v %v %q", old.raw, isRaw, old.src)
	if what := evalPair(w, aux, []byte(src)); what != "" {
		w.R.Report(core.CaseID{Family: "pair", Aux: aux, Src: []byte(src), Text: src, What: what})
	}
	return ""
}

// evalPair compares two expressions: aux has the first.
func evalPair(w *core.W, aux string, src []byte) string {
	var r1, r2 bool
	var a string
	fmt.Sscanf(aux, "%t %t %q", &r1, &r2, &a)
	x, n := exprOf(a, r1, w.St)
	y, m := exprOf(string(src), r2, w.St)
	if x == nil || y == nil {
		return ""
	}
	s, t := asts.ExprString(x), asts.ExprString(y)
	same := bytes.Equal(ref.AppendNode(nil, n, 0), ref.AppendNode(nil, m, 0))
	if (s == t) != same {
		return bad("%q and %q: same structure: %v, debug strings\n%s\n%s", a, src, same, s, t)
	}
	return ""
}

// evalSubs compares all parts of all expressions with each other: aux says how
// deep the groups in src nest.
func evalSubs(w *core.W, aux string, src []byte) string {
	n, _ := strconv.Atoi(aux)
	byS, byD := map[string]string{}, map[string]string{}
	for i := 0; i <= n; i++ {
		for _, f := range []string{"\"%s\"", "{%s}", "a # {%s}"} {
			s := fmt.Sprintf(f, strings.Repeat("{", i)+string(src)+strings.Repeat("}", i))
			x, err := parser.ParseExpr(s)
			if err != nil {
				return ""
			}
			what := ""
			err = ast.Walk(x, func(y ast.Node, in bool) (ast.WalkStatus, error) {
				e, ok := y.(ast.Expr)
				if !in || !ok {
					return ast.WalkContinue, nil
				}
				w.Trans++
				t, d := asts.ExprString(e), flat(e)
				if old, ok := byS[t]; ok && old != d {
					what = bad("the debug string of %s and of %s is %s", d, old, t)
				}
				if old, ok := byD[d]; ok && old != t {
					what = bad("the debug strings of %s are %s and %s", d, old, t)
				}
				byS[t], byD[d] = d, t
				if what != "" {
					return ast.WalkStop, nil
				}
				return ast.WalkContinue, nil
			})
			if what == "" && err != nil {
				what = err.Error()
			}
			if what != "" {
				return what
			}
			w.Trace++
		}
	}
	w.Outcome([]byte(fmt.Sprint(len(byS))))
	return ""
}

// simple is what the tree constructors make of a string, by their documentation;
// nil if that isn't clear.
func simple(depth int, s string) *ref.N {
	n := &ref.N{Close: -1, Doc: -1}
	switch {
	case strings.TrimSpace(s) == "":
		n.K = ref.KSpace
	case len(s) > 1 && s[0] == '$' && s[len(s)-1] == '$':
		n.K, n.S = ref.KMath, s[1:len(s)-1]
	case s == "~":
		n.K = ref.KTie
	case s == ",":
		n.K = ref.KComma
	case s[0] == '{' && s[len(s)-1] == '}':
		inner := s[1 : len(s)-1]
		n.K, n.Depth, n.Delim, n.Close = ref.KParsed, depth+1, '{', 0
		for i, p := range strings.Split(inner, " ") {
			if p == "" || strings.Count(p, "{") != strings.Count(p, "}") {
				return nil
			}
			if i > 0 {
				n.Kids = append(n.Kids, &ref.N{K: ref.KSpace, Close: -1, Doc: -1})
			}
			k := simple(depth+1, p)
			if k == nil {
				return nil
			}
			n.Kids = append(n.Kids, k)
		}
	case s[0] == '\\':
		if len(s) < 2 || !(s[1] >= 'a' && s[1] <= 'z' || s[1] >= 'A' && s[1] <= 'Z') {
			return nil
		}
		n.K, n.S = ref.KMacro, s[1:]
	case s == "$":
		return nil
	default:
		n.K, n.S = ref.KText, s
	}
	return n
}

// flatN shows a node of the model without positions.
func flatN(n *ref.N) string { return string(ref.AppendNode(nil, n, 0)) }

// evalCons: src is a string for the constructors; aux a depth.
func evalCons(w *core.W, aux string, src []byte) string {
	depth := int(aux[0] - '0')
	s := string(src)
	want := simple(depth, s)
	w.Trace++
	w.Trans++
	check := func(what string, want *ref.N, f func() ast.Expr) string {
		var x ast.Expr
		if p := adapt.Guard(func() { x = f() }); p != nil {
			return bad("%s(%q): %v", what, s, p)
		}
		if want == nil {
			return ""
		}
		c := adapt.Conv{}
		if got, exp := flatN(c.Expr(x)), flatN(want); got != exp {
			return bad("%s(%d, %q): got %s\nwant %s", what, depth, s, got, exp)
		}
		w.Outcome([]byte(flatN(want)))
		return ""
	}
	group := func(delim byte, kids ...*ref.N) *ref.N {
		for _, k := range kids {
			if k == nil {
				return nil
			}
		}
		return &ref.N{K: ref.KParsed, Depth: depth, Delim: delim, Kids: kids, Doc: -1}
	}
	txt := func(k string) *ref.N { return &ref.N{K: ref.KText, S: k, Close: -1, Doc: -1} }
	a := txt("a")
	quoted := want
	if strings.Contains(s, "\\") {
		quoted = nil // the documentation doesn't say
	}
	q2 := group('"', a, quoted)
	for _, what := range []string{
		check("ParseStringExpr", want, func() ast.Expr { return asts.ParseStringExpr(depth, s) }),
		check("BraceText", group('{', want), func() ast.Expr { return asts.BraceText(depth, s) }),
		check("BraceText(a, s, Text, s)", group('{', a, want, txt(s), want), func() ast.Expr { return asts.BraceText(depth, "a", s, asts.Text(s), s) }),
		check("BraceText()", group('{'), func() ast.Expr { return asts.BraceText(depth) }),
		check("QuotedText", group('"', quoted), func() ast.Expr { return asts.QuotedText(depth, s) }),
		check("QuotedText(a, s)", q2, func() ast.Expr { return asts.QuotedText(depth, "a", s) }),
		check("BraceTextExpr", group('{', txt(s), a), func() ast.Expr { return asts.BraceTextExpr(depth, asts.Text(s), asts.Text("a")) }),
		check("QuotedTextExpr", group('"', txt(s)), func() ast.Expr { return asts.QuotedTextExpr(depth, asts.Text(s)) }),
	} {
		if what != "" {
			return what
		}
	}
	if depth != 0 {
		return ""
	}
	n := func(k byte, v string, kids ...*ref.N) *ref.N {
		for _, x := range kids {
			if x == nil {
				return nil
			}
		}
		return &ref.N{K: k, S: v, Close: -1, Doc: -1, Kids: kids}
	}
	acc := n(ref.KAccent, s)
	acc.Acc = '\''
	rq, rb := n(ref.KRaw, s), n(ref.KRaw, s)
	rq.Delim, rb.Delim = '"', '{'
	for _, what := range []string{
		check("ParseAny", want, func() ast.Expr { return asts.ParseAny(s) }),
		check("ParseAny(expr)", txt(s), func() ast.Expr { return asts.ParseAny(asts.Text(s)) }),
		check("Text", txt(s), func() ast.Expr { return asts.Text(s) }),
		check("Math", n(ref.KMath, s), func() ast.Expr { return asts.Math(s) }),
		check("Space", n(ref.KSpace, ""), func() ast.Expr { return asts.Space() }),
		check("NBSP", n(ref.KTie, ""), func() ast.Expr { return asts.NBSP() }),
		check("Comma", n(ref.KComma, ""), func() ast.Expr { return asts.Comma() }),
		check("Ident", n(ref.KIdent, s), func() ast.Expr { return asts.Ident(s) }),
		check("UnparsedText", rq, func() ast.Expr { return asts.UnparsedText(s) }),
		check("UnparsedBraceText", rb, func() ast.Expr { return asts.UnparsedBraceText(s) }),
		check("AccentedText", acc, func() ast.Expr { return asts.AccentedText(token.AccentAcute, s) }),
		check("Macro", n(ref.KMacro, s), func() ast.Expr { return asts.Macro(s) }),
		check("Macro(s, s, expr)", n(ref.KMacro, s, want, txt(s)), func() ast.Expr { return asts.Macro(s, s, asts.Text(s)) }),
		check("Concat", n(ref.KConcat, "", n(ref.KIdent, s), txt(s)), func() ast.Expr { return asts.Concat(asts.Ident(s), asts.Text(s)) }),
	} {
		if what != "" {
			return what
		}
	}
	for _, c := range s {
		c := c
		if what := check("Escaped", n(ref.KEscaped, string(c)), func() ast.Expr { return asts.Escaped(c) }); what != "" {
			return what
		}
		break
	}
	return ""
}

// evalSame: aux is a list of elements, separated by '|': the constructors build
// what the parser does.
func evalSame(w *core.W, aux string, _ []byte) string {
	elems := strings.Split(aux, "|")
	text := strings.Join(elems, "")
	anys := make([]interface{}, len(elems))
	for i, e := range elems {
		anys[i] = e
	}
	for _, q := range []bool{false, true} {
		src := "{" + text + "}"
		build := func() ast.Expr { return asts.BraceText(0, anys...) }
		if q {
			src = "\"" + text + "\""
			build = func() ast.Expr { return asts.QuotedText(0, elems...) }
		}
		n, v, why := ref.ParseExpr([]byte(src), w.St)
		if v != ref.Accept {
			return bad("%q: %s", src, why)
		}
		var x ast.Expr
		if p := adapt.Guard(func() { x = build() }); p != nil {
			return bad("%q: %v", elems, p)
		}
		y, err := parser.ParseExpr(src)
		if err != nil {
			return ""
		}
		w.Trace++
		w.Trans++
		if got, want, parse := flat(x), flatN(n), flat(y); got != want || parse != want {
			return bad("%q builds %s\nwant %s\nthe parser builds %s from %q", elems, got, want, parse, src)
		}
		w.Outcome([]byte(flatN(n)))
	}
	return ""
}

// evalBib: aux is a list of options; the declaration they build is the parsed one.
func evalBib(w *core.W, aux string, _ []byte) string {
	var ty string
	var nk, nt, split int
	fmt.Sscan(aux, &ty, &nk, &nt, &split)
	d := &ast.BibDecl{}
	keys := []string{"k", "l", "m:1", "n"}[:nk]
	src := "@" + ty + "{" + strings.Join(keys, ", ")
	var vals []ast.Expr
	var names []string
	for i := 0; i < nt; i++ {
		names = append(names, fmt.Sprintf("f%d", i%3))
		vals = append(vals, asts.BraceText(0, fmt.Sprintf("v%d", i), " ", "{w}"))
		if nk+i > 0 {
			src += ","
		}
		src += fmt.Sprintf(" f%d = {v%d {w}}", i%3, i)
	}
	src += "}"
	rest := func(from, to int) (r []interface{}) {
		for i := from; i < to; i++ {
			r = append(r, names[i], vals[i])
		}
		return
	}
	again := &ast.BibDecl{} // from the same options
	var opts []func(*ast.BibDecl)
	p := adapt.Guard(func() {
		opts = []func(*ast.BibDecl){asts.WithBibType(ty), asts.WithBibKeys(keys...)}
		if nt > 0 {
			cut := min(max(split, 1), nt)
			opts = append(opts, asts.WithBibTags(names[0], vals[0], rest(1, cut)...))
			if cut < nt {
				opts = append(opts, asts.WithBibTags(names[cut], vals[cut], rest(cut+1, nt)...))
			}
		}
		for _, d := range []*ast.BibDecl{d, again} {
			for _, o := range opts {
				o(d)
			}
		}
	})
	if p != nil {
		return p.Error()
	}
	f := parsedFile([]byte(src), parsed)
	if f == nil || len(f.Entries) != 1 {
		return ""
	}
	w.Trace++
	w.Trans++
	c1, c2 := adapt.Conv{}, adapt.Conv{Base: 1}
	got := string(ref.AppendNode(nil, c1.Decl(d), ref.DRaw))
	want := string(ref.AppendNode(nil, c2.Decl(f.Entries[0]), ref.DRaw))
	w.Outcome([]byte(want))
	c3 := adapt.Conv{}
	if g := string(ref.AppendNode(nil, c3.Decl(again), ref.DRaw)); g != got {
		return bad("options %s build %s\nand the same options then build %s", aux, got, g)
	}
	for i, t := range again.Tags {
		if t == d.Tags[i] {
			return bad("options %s: two declarations share field %d", aux, i)
		}
	}
	// What is done to one of them concerns no other one.
	for _, d := range []*ast.BibDecl{d, again} {
		if d.Key != nil {
			d.Key.Name += "!"
		}
		for _, k := range d.ExtraKeys {
			k.Name += "!"
		}
		for _, t := range d.Tags {
			t.Name, t.RawName, t.Value = "!", "!", nil
		}
		d.ExtraKeys = append(d.ExtraKeys, &ast.Ident{Name: "!"})
		d.Tags = append(d.Tags, &ast.TagStmt{Name: "!"})
	}
	third := &ast.BibDecl{}
	if p := adapt.Guard(func() {
		for _, o := range opts {
			o(third)
		}
	}); p != nil {
		return p.Error()
	}
	c4 := adapt.Conv{}
	if g := string(ref.AppendNode(nil, c4.Decl(third), ref.DRaw)); g != got {
		return bad("options %s build %s\nand after that was changed, the same options build %s", aux, got, g)
	}
	if got != want {
		return bad("options %s build %s\nthe parser builds %s from %q", aux, got, want, src)
	}
	return ""
}

// confusing texts look like debug strings.
var confusing = []string{"<space>", "<comma>", "a", " ", ",", "Ident(a)", "\\$", "$a$", "\\{", "~", "{a}", "{}", "{{a}}", "TextMacro(", ")", "(", "ParsedText[0", "]", "\\\"a", "\\c c", "\\mac ", "\\url{a}", "\\url{b}", "\\href{a}{b}", "#", "\\\\", "é", "$,$", "UnparsedText(", "1", "-", "\\'{e}", "\\mac{a}", "\n", "2"}

func init() {
	reg(&core.Check{
		ID:   "C26",
		Rule: "the relation between debug string and structure of every expression of the families (strings of confusing elements, concatenations, words, parsed and raw), both ways; every constructor on every string of up to 4 (thorough: 5) symbols at depths 0 to 2; every sequence of up to 5 (6) simple elements built and parsed; entries built from options and parsed",
		Run: func(r *core.Run) {
			r.Par("pair", func(w *core.W) {
				ps := [][2]string{{"a", "b"}, {"a", "a"}, {"{a}", "\"a\""}, {"{a b}", "{a  b}"}, {"{a~b}", "{a b}"}, {"1", "{1}"}, {"a#b", "a # b"}, {"{a}#{b}", "{a}#\"b\""}}
				for _, p := range ps {
					for _, x := range []string{"false false", "true true", "true false"} {
						w.Emit(fmt.Sprintf("%s %q", x, p[0]), []byte(p[1]))
					}
				}
			}, evalPair)
			two := func(f func(emit func(aux string, b []byte) bool)) func(w *core.W) {
				return func(w *core.W) { f(func(aux string, b []byte) bool { return w.Emit(aux, b) }) }
			}
			for _, c := range []gen.Ctx{{Name: "brace", Pre: "{", Suf: "}"}, {Name: "quote", Pre: "\"", Suf: "\""}, {Name: "nested", Pre: "{{", Suf: "}a}"}, {Name: "second", Pre: "{a}#\"", Suf: "\""}} {
				c := c
				r.Par("elements-"+c.Name, two(func(emit func(string, []byte) bool) {
					gen.Words(c.Pre, c.Suf, confusing, 0, r.Pick(3, 4), func(b []byte) bool {
						return emit("p", b) && (len(b) > 20 || emit("r", b))
					})
				}), evalExprString)
			}
			r.Par("concatenations", two(func(emit func(string, []byte) bool) {
				ops := []string{"a", "b", "1", "12", "01", "{a}", "\"a\"", "{}", "\"\"", "{a b}", "{a,b}", "{\"}", "\"{}\"", "{1}", "{a}", "{Ident(a)}", "{a\\#b}", "{#}", "\"#\"", "{a # b}"}
				for _, n := range []int{1, 2, 3, r.Pick(3, 4)} {
					gen.Words("", "", ops, n, n, func(b []byte) bool { return true })
				}
				var rec func(s string, n int) bool
				rec = func(s string, n int) bool {
					for _, o := range ops {
						t := s + o
						if !emit("p", []byte(t)) || !emit("r", []byte(t)) || n > 1 && !rec(t+" # ", n-1) {
							return false
						}
					}
					return true
				}
				rec("", r.Pick(3, 4))
			}), evalExprString)
			r.Par("words", two(func(emit func(string, []byte) bool) {
				for _, c := range exprContexts {
					gen.Words(c.Pre, c.Suf, gen.Alphabet, 0, r.Pick(3, 4), func(b []byte) bool { return emit("p", b) && emit("r", b) })
				}
			}), evalExprString)
			r.Par("spelled-strings", two(func(emit func(string, []byte) bool) {
				// Debug strings as values.
				for _, v := range gen.Values {
					s := string(gen.Plain(v))
					for _, aux := range []string{"p", "r"} {
						emit(aux, []byte(s))
						x, _ := exprOf(s, aux == "r", &ref.Stats{States: map[uint32]struct{}{}})
						if x == nil {
							continue
						}
						var d string
						if adapt.Guard(func() { d = asts.ExprString(x) }) != nil {
							continue
						}
						for _, e := range []string{"{" + d + "}", "\"" + d + "\"", "{" + strings.ReplaceAll(d, "\"", "") + "}", "{$" + strings.ReplaceAll(d, "$", "") + "$}"} {
							emit("p", []byte(e))
							emit("r", []byte(e))
						}
					}
				}
			}), evalExprString)
			r.Par("nested", two(func(emit func(string, []byte) bool) {
				for _, s := range []string{"", "a", "a b", "\\{", "a}{b", "\\mac{a}", "$x$", ",~"} {
					emit(fmt.Sprint(r.Pick(130, 300)), []byte(s))
				}
			}), evalSubs)
			r.Par("vocabulary", two(func(emit func(string, []byte) bool) {
				for _, v := range gen.FieldValues {
					emit("p", gen.Plain(v))
					emit("r", gen.Plain(v))
				}
				for _, m := range gen.Macros {
					for _, f := range []string{"{\\%s}", "{\\%s{}}", "{\\%s{a}}", "{\\%s a}", "{\\%s{a}{b}}", "{%s}", "{\\{%s}", "{$\\%s$}", "%s", "{\\%s\\,}", "{{\\%s}}", "{\\%s ,}", "{{\\%s a} b}"} {
						emit("p", []byte(fmt.Sprintf(f, m)))
						emit("r", []byte(fmt.Sprintf(f, m)))
					}
				}
			}), evalExprString)
			r.ParChunk("big", 1, two(func(emit func(string, []byte) bool) {
				// The same large expressions, with a difference at one place.
				for _, n := range bigSizes(r.Thorough()) {
					if n > r.Pick(1100, 10001) {
						break
					}
					for _, c := range [][3]string{{"{", "a ", "}"}, {"{", "a,", "}"}, {"{", "\\& ", "}"}, {"{", "$x$ ", "}"}, {"{", "{a} ", "}"}, {"{", "\\mac ", "}"}, {"{", "\\url{a}", "}"}, {"\"", "\\'{e}~", "\""}, {"{", "b", "}"}, {"{$", "b", "$}"}, {"{\\mac{", "a ", "}}"}, {"{", "-\u00e9", "}"}} {
						for _, at := range []int{0, 1, n / 2, n - 1, n} {
							if at < 0 || at > n {
								continue
							}
							for _, x := range []string{"x ", "y ", "{x}", ""} {
								b := []byte(c[0] + strings.Repeat(c[1], at) + x + strings.Repeat(c[1], n-at) + c[2])
								if !emit("p", b) || n < 200 && !emit("r", b) {
									return
								}
							}
						}
					}
					for _, x := range []string{"x", "y", "{}", "", "{x}{y}"} {
						emit("p", []byte("{"+strings.Repeat("{", n)+x+strings.Repeat("}", n)+"}"))
						emit("p", []byte("{"+strings.Repeat("{", n)+strings.Repeat("}", n)+x+"}"))
						emit("p", []byte("{"+strings.Repeat("{", n)+strings.Repeat("}"+x, n)+"}"))
						emit("p", []byte("{"+strings.Repeat("\\url{", n)+x+strings.Repeat("}", n)+"}"))
						emit("p", []byte("{"+strings.Repeat("\\m{", n)+x+strings.Repeat("}", n)+"}"))
					}
					for _, x := range []string{"x", "2", "{2}", "\"2\"", "{}"} {
						emit("p", []byte(strings.Repeat("1#", n)+x))
						emit("p", []byte(x+strings.Repeat("#1", n)))
						emit("p", []byte(strings.Repeat("{a}#", n)+x+strings.Repeat("#1", n)))
					}
				}
			}), evalExprString)
			r.Par("constructors", func(w *core.W) {
				gen.Words("", "", gen.Alphabet, 0, r.Pick(4, 5), func(b []byte) bool {
					return w.Emit("0", b) && (len(b) > 3 || w.Emit("1", b) && w.Emit("2", b))
				})
				var odd []string
				for c := 0; c < 0x100; c++ {
					odd = append(odd, string([]byte{byte(c)}))
				}
				for _, c := range []rune{0x85, 0xa0, 0x1680, 0x2003, 0x2028, 0x3000, 0xfeff, 0x200b, 'é', 0xfffd} {
					odd = append(odd, string(c))
				}
				for _, a := range odd {
					for _, c := range [][2]string{{"", ""}, {" ", ""}, {"a", ""}, {"", "a"}, {"{", "}"}, {"{a", "b}"}, {"$", "$"}, {"\t", " "}, {"", a}, {a + " ", a}} {
						if !w.Emit("0", []byte(c[0]+a+c[1])) || !w.Emit("1", []byte(c[0]+a+c[1])) {
							return
						}
					}
				}
				gen.Words("", "", []string{" ", "\t", "\n", "\r", "\f", "\v", "~", ","}, 1, 4, func(b []byte) bool { return w.Emit("0", b) && w.Emit("1", b) })
				gen.Words("", "", []string{"{", "}", "a", " ", "$", "\\", "\t", "~"}, 5, r.Pick(6, 7), func(b []byte) bool { return w.Emit("0", b) && w.Emit("3", b) })
			}, evalCons)
			r.Par("built-and-parsed", func(w *core.W) {
				el := []string{"a", "Bc", " ", ",", "~", "$x$", "{a}", "{b c}", "{{a}}", "é1", "{a {b} c}", "$y z$", "{a b c}", "and"}
				word := func(s string) bool { return s == "a" || s == "Bc" || s == "é1" || s == "and" }
				var rec func(ss []string, n int) bool
				rec = func(ss []string, n int) bool {
					for _, e := range el {
						if k := len(ss); k > 0 && (word(e) && word(ss[k-1]) || e == " " && ss[k-1] == " ") {
							continue
						}
						t := append(ss[:len(ss):len(ss)], e)
						if !w.Emit(strings.Join(t, "|"), nil) || n > 1 && !rec(t, n-1) {
							return false
						}
					}
					return true
				}
				rec(nil, r.Pick(5, 6))
			}, evalSame)
			r.Par("entries", func(w *core.W) {
				for _, ty := range []string{"article", "a"} {
					for nk := 0; nk <= 4; nk++ {
						for nt := 0; nt <= 6; nt++ {
							for split := 0; split <= nt; split++ {
								w.Emit(fmt.Sprintf("%s %d %d %d", ty, nk, nt, split), nil)
							}
						}
					}
				}
			}, evalBib)
			r.Note("related_expressions", int64(func() (n int) {
				for i := range relation.byS {
					n += len(relation.byS[i])
				}
				return
			}()))
		},
	})
}
