package checks

import (
	"fmt"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex/parser"
)

// meaning parses src and renders what layout must not change.
func meaning(w *core.W, src []byte, m parser.Mode) (string, string) {
	p := adapt.ParseFile(src, m)
	w.Trace++
	if s := accepted(src, m, p); s != "" {
		return "", s
	}
	d := p.Doc()
	for _, n := range d.Decls {
		n.Doc = -1
	}
	return string(ref.AppendDoc(nil, d, 0)), ""
}

// shape of a declaration: where its delimiters and names are.
type shape struct {
	ts            []gen.T
	opener, close int
	entry         bool
	names         []int
}

func shapeOf(ts []gen.T) shape {
	s := shape{ts: ts, opener: 1}
	for i, t := range ts {
		if (t == "}" || t == ")") && i > s.opener {
			s.close = i
		}
		if t == "=" && i > 0 {
			s.names = append(s.names, i-1)
		}
	}
	c := strings.ToLower(ts[0])
	s.entry = c != "@string" && c != "@preamble"
	if c == "@string" {
		s.names = nil // abbreviation names keep their case
	}
	return s
}

func cased(s string, how int) string {
	switch how {
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []rune(s)
		for i := range b {
			if i%2 == 1 {
				b[i] = []rune(strings.ToUpper(string(b[i])))[0]
			} else {
				b[i] = []rune(strings.ToLower(string(b[i])))[0]
			}
		}
		return string(b)
	case 3:
		return strings.ToLower(s)
	}
	return s
}

// variant number v of the shape; ok is false if it doesn't apply.
func (s shape) variant(v int) ([]gen.T, bool) {
	delim, comma, after, cs := v&1, v>>1&1, v>>2&1, v>>3&3
	var o []gen.T
	for i, t := range s.ts {
		switch {
		case i == 0:
			t = cased(t, cs)
		case i == s.opener && delim == 1:
			t = map[string]string{"{": "(", "(": "{"}[t]
		case i == s.close:
			if comma == 1 {
				switch {
				case s.ts[i-1] == ",":
					o = o[:len(o)-1]
				case strings.EqualFold(s.ts[0], "@preamble") || i-1 == s.opener:
					return nil, false
				default:
					o = append(o, ",")
				}
			}
			if delim == 1 {
				t = map[string]string{"}": ")", ")": "}"}[t]
			}
		case i > s.close && after == 1:
			continue // the comma after an entry
		default:
			for _, n := range s.names {
				if n == i {
					t = cased(t, cs)
				}
			}
		}
		o = append(o, t)
	}
	if after == 1 {
		if !s.entry {
			return nil, false
		}
		if s.close == len(s.ts)-1 {
			o = append(o, ",")
		}
	}
	return o, true
}

const nVariants = 32

// bases are the gaps between all tokens of a variant.
var bases = []string{"", " ", "\n", "\t\r\n", "%c\n", "\n%a\n\n%b \"{@\r\n", "\r"}

func init() {
	evalAgainst := func(w *core.W, aux string, src []byte) string {
		// src: the variant, NUL, the document.
		i := strings.IndexByte(string(src), 0)
		variant, base := src[:i], src[i+1:]
		for _, m := range []parser.Mode{raw, parsed, parsed | parser.ParseComments} {
			if ref.Parse(base, m != raw, w.St).V != ref.Accept {
				continue // not well-formed in this mode
			}
			a, s := meaning(w, base, m)
			if s != "" {
				return s
			}
			b, s := meaning(w, variant, m)
			if s != "" {
				return bad("%s: but it means the same as %q", s, base)
			}
			w.Trans++
			w.Outcome([]byte(a))
			if a != b {
				return bad("mode %s: %q\nmeans %s\nbut %q\nmeans %s", modeName(m), base, clip([]byte(a)), variant, clip([]byte(b)))
			}
		}
		return ""
	}
	reg(&core.Check{ID: "C09", Rule: "every document, every variant of its delimiters, optional commas and letter case, every common gap and every gap that deviates from it; the tree of each variant is compared with that of the plain document, both from the implementation",
		Run: func(r *core.Run) {
			pair := func(w *core.W, variant, base []byte) bool {
				return w.Emit("", append(append(append([]byte{}, variant...), 0), base...))
			}
			var shapes []shape
			for _, d := range gen.Decls {
				shapes = append(shapes, shapeOf(d))
			}
			for _, v := range gen.Values {
				shapes = append(shapes, shapeOf(append(append([]gen.T{"@v", "{", "k", ",", "f", "="}, v...), ",", "g", "=", "1", "}")),
					shapeOf(append(append([]gen.T{"@string", "{", "f", "="}, v...), "}")), shapeOf(append(append([]gen.T{"@preamble", "{"}, v...), "}")))
			}
			r.Par("variants", func(w *core.W) {
				for _, s := range shapes {
					base := gen.Spaced(s.ts, " ")
					for v := 0; v < nVariants; v++ {
						ts, ok := s.variant(v)
						if !ok {
							continue
						}
						for _, g := range bases {
							if !pair(w, gen.Spaced(ts, g), base) {
								return
							}
						}
					}
				}
			}, evalAgainst)
			dev := r.Pick(1, 2)
			r.Par(fmt.Sprintf("gaps-%d", dev), func(w *core.W) {
				for _, s := range shapes {
					base := gen.Spaced(s.ts, " ")
					for _, v := range []int{0, 1, 2, 5} {
						ts, ok := s.variant(v)
						if !ok {
							continue
						}
						if !deviate(ts, dev, func(b []byte) bool { return pair(w, b, base) }) {
							return
						}
					}
				}
			}, evalAgainst)
			r.Par("gaps-2-entries", func(w *core.W) {
				for _, s := range shapes[:len(gen.Decls)] {
					if !deviate(s.ts, 2, func(b []byte) bool { return pair(w, b, gen.Spaced(s.ts, " ")) }) {
						return
					}
				}
			}, evalAgainst)
			r.Par("two-declarations", func(w *core.W) {
				ds := shapes[:len(gen.Decls)]
				for _, s := range ds {
					for _, t := range ds {
						base := gen.Spaced(append(append([]gen.T{}, s.ts...), t.ts...), " ")
						for v := 0; v < nVariants; v++ {
							a, ok := s.variant(v)
							b, ok2 := t.variant(v ^ 5)
							if !ok2 {
								b = t.ts
							}
							if !ok {
								continue
							}
							for _, g := range bases {
								if !pair(w, gen.Spaced(append(append([]gen.T{}, a...), b...), g), base) {
									return
								}
							}
						}
					}
				}
			}, evalAgainst)
			// Every letter case of types and names.
			r.Par("letter-case", func(w *core.W) {
				for _, doc := range []string{"@artic{k,titl=\"v\",url={http://a~b},urls={a~b}}", "@string{n=1}", "@preamb{k,x=1}", "@preamble{\"p\"}", "@a{k,url=\"http://a,b\"}", "@a{k,x-y_Z=1,a1b=2}", "@é{k,x=1}"} {
					var letters []int
					start := true // of a type or name
					for i := 0; i < len(doc); i++ {
						c := doc[i]
						switch {
						case c == '@' || c == ',' && strings.Contains(doc[i:], "="):
							start = true
						case c == '{' || c == '(' || c == '=' || c == '"':
							start = false
						case start && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && !(strings.HasPrefix(doc, "@string") && i > 7):
							letters = append(letters, i)
						}
					}
					// The entry key isn't a name.
					for m := 0; m < 1<<uint(len(letters)); m++ {
						b := []byte(doc)
						for j, i := range letters {
							if m>>uint(j)&1 == 1 {
								b[i] ^= 0x20
							}
						}
						if !pair(w, b, []byte(doc)) {
							return
						}
					}
				}
			}, evalAgainst)
			// Long runs of layout.
			r.Par("long-gaps", func(w *core.W) {
				for _, s := range shapes[:len(gen.Decls)] {
					base := gen.Spaced(s.ts, " ")
					for _, n := range gen.PumpCounts(false) {
						if n == 0 {
							continue
						}
						for _, u := range []string{" ", "\n", "\t", "\r\n", "%c\n", "%\n\n"} {
							if n > 300 && len(u) > 1 {
								continue
							}
							if !pair(w, gen.Spaced(s.ts, strings.Repeat(u, n)), base) {
								return
							}
						}
					}
				}
			}, evalAgainst)
		}})
}

// deviate calls f with the tokens in every layout in which up to dev gaps differ
// from a common one.
func deviate(ts []gen.T, dev int, f func([]byte) bool) bool {
	gaps := make([]string, len(ts)+1)
	for _, base := range []string{"", " ", "\n"} {
		for i := range gaps {
			gaps[i] = base
		}
		var rec func(from, dev int) bool
		rec = func(from, dev int) bool {
			if !f(gen.Concat(ts, func(i int) string { return gaps[i] })) {
				return false
			}
			if dev == 0 {
				return true
			}
			for i := from; i < len(gaps); i++ {
				for _, g := range gen.Gaps {
					if g != base {
						gaps[i] = g
						if !rec(i+1, dev-1) {
							return false
						}
					}
				}
				gaps[i] = base
			}
			return true
		}
		if !rec(0, dev) {
			return false
		}
	}
	return true
}
