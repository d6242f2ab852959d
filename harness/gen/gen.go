// Package gen enumerates inputs: every generator is a deterministic, complete
// enumeration of a finite space, simplest first.
package gen

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// F receives a source and returns false to stop. The source may be overwritten
// after the call.
type F func(src []byte) bool

// Fam is a named enumeration.
type Fam struct {
	Name string
	Gen  func(f F) bool
}

// Words calls f with every sequence of min to max symbols between pre and suf.
func Words(pre, suf string, sym []string, min, max int, f F) bool {
	buf := make([]byte, 0, 256)
	buf = append(buf, pre...)
	var rec func(b []byte, n int) bool
	rec = func(b []byte, n int) bool {
		if n == 0 {
			return f(append(b, suf...))
		}
		for _, s := range sym {
			if !rec(append(b, s...), n-1) {
				return false
			}
		}
		return true
	}
	for n := min; n <= max; n++ {
		if !rec(buf, n) {
			return false
		}
	}
	return true
}

// Ctx is where a word is put.
type Ctx struct{ Name, Pre, Suf string }

// Alphabet has one symbol for every class of characters that the language
// distinguishes.
var Alphabet = []string{"a", " ", "{", "}", "\"", ",", "=", "#", "@", "1", "(", ")", "%", "\n", "\\", "$", "~", "B", "-", "c", "'", "é"}

// Contexts are the places where the language changes its rules.
var Contexts = []Ctx{
	{"top", "", ""},
	{"top-after", "@a{k}", "@b{j}"},
	{"command", "@", "{k}"},
	{"key", "@a{", "}"},
	{"body", "@a{k,", "}"},
	{"body-paren", "@a(k,", ")"},
	{"field", "@a{k,x", "=1}"},
	{"value", "@a{k,x=", "}"},
	{"value-end", "@a{k,x=1", ",y=2}"},
	{"concat", "@a{k,x=1#", ",y=n}"},
	{"quote", "@a{k,x=\"", "\"}"},
	{"brace", "@a{k,x={", "}}"},
	{"quote-brace", "@a{k,x=\"{", "}\"}"},
	{"brace-brace", "@a{k,x={{", "}}}"},
	{"abbrev", "@string{", "}"},
	{"abbrev-value", "@string{n=", "}"},
	{"preamble", "@preamble{", "}"},
	{"math", "@a{k,x=\"$", "$\"}"},
	{"escape", "@a{k,x=\"\\", "\"}"},
	{"escape-brace", "@a{k,x={\\", "}}"},
	{"cedilla", "@a{k,x={\\c", "}}"},
	{"accent", "@a{k,x={\\'", "}}"},
	{"url-macro", "@a{k,x={\\url{", "}}}"},
	{"url-quote", "@a{k,url=\"", "\"}"},
	{"url-open", "@a{k,url={", "}}"},
	{"url-brace", "@a{k,url={http://", "}}"},
	{"comment", "@a{k,%", "\nx=1}"},
}

// StringContexts are those inside of strings.
func StringContexts() []Ctx {
	var cs []Ctx
	for _, c := range Contexts {
		switch c.Name {
		case "quote", "brace", "quote-brace", "brace-brace", "math", "escape", "escape-brace", "cedilla", "accent", "url-macro", "url-quote", "url-open", "url-brace":
			cs = append(cs, c)
		}
	}
	return cs
}

// Lexical has, for every context, every word of up to n symbols, completed and
// cut off.
func Lexical(ctxs []Ctx, n int) []Fam {
	var fs []Fam
	for _, c := range ctxs {
		c := c
		fs = append(fs, Fam{fmt.Sprintf("words%d-%s", n, c.Name), func(f F) bool {
			if !Words(c.Pre, c.Suf, Alphabet, 0, n, f) {
				return false
			}
			if c.Suf == "" {
				return true
			}
			return Words(c.Pre, "", Alphabet, 0, n-1, f)
		}})
	}
	return fs
}

// Tokens are the symbols of token sequences.
var Tokens = []string{"k", "1", "=", ",", "\"q\"", "{b}", "#", "{", "}", "(", ")", "@a", "@string", "@preamble", "%c\n", "x=1"}

// Sequences has every sequence of up to n tokens with and without a prefix.
func Sequences(n int) []Fam {
	var fs []Fam
	sp := make([]string, len(Tokens))
	for i, t := range Tokens {
		sp[i] = t + " "
	}
	fs = append(fs,
		Fam{fmt.Sprintf("tokens%d-top", n), func(f F) bool { return Words("", "", sp, 0, n, f) }},
		Fam{fmt.Sprintf("tokens%d-entry", n), func(f F) bool { return Words("@a {", "}", sp, 0, n, f) }},
		Fam{fmt.Sprintf("tokens%d-paren", n-1), func(f F) bool { return Words("@a ( k , ", " )", Tokens, 0, n-1, f) }},
		Fam{fmt.Sprintf("tokens%d-tight", n-1), func(f F) bool { return Words("@a{k", "", Tokens, 0, n-1, f) }},
		Fam{fmt.Sprintf("tokens%d-value", n-1), func(f F) bool { return Words("@a{k,x=", "}", sp, 0, n-1, f) }},
		Fam{fmt.Sprintf("tokens%d-string", n-1), func(f F) bool { return Words("@string", "", sp, 0, n-1, f) }},
		Fam{fmt.Sprintf("tokens%d-preamble", n-1), func(f F) bool { return Words("@preamble{", " @a{k}", sp, 0, n-1, f) }},
	)
	return fs
}

// BytePairs has every pair of bytes in every context.
func BytePairs(ctxs []Ctx) Fam {
	return Fam{"byte-pairs", func(f F) bool {
		var b []byte
		for _, c := range ctxs {
			for x := 0; x < 256; x++ {
				for y := 0; y < 256; y++ {
					b = append(append(append(b[:0], c.Pre...), byte(x), byte(y)), c.Suf...)
					if !f(b) {
						return false
					}
				}
			}
		}
		return true
	}}
}

// Bytes has every single byte in every context, completed and cut off.
func Bytes(ctxs []Ctx) Fam {
	return Fam{"bytes", func(f F) bool {
		var b []byte
		for _, c := range ctxs {
			for x := 0; x < 256; x++ {
				b = append(append(append(b[:0], c.Pre...), byte(x)), c.Suf...)
				if !f(b) {
					return false
				}
				b = append(append(b[:0], c.Pre...), byte(x))
				if !f(b) {
					return false
				}
			}
		}
		return true
	}}
}

// Odd characters: control characters, spaces that aren't whitespace to the
// language, combining characters, byte order marks, invalid UTF-8.
var Odd = []string{"\x00", "\x01", "\v", "\f", "\x7f", "\u0085", "\u00a0", "\u2028", "\u3000", "e\u0301", "\u00e9", "\u0131", "\ufeff", "\ufffd", "\U0001F600", "\xff", "\xc3", "\xc0\x80", "\xed\xa0\x80", "\r", "\r\n", "\t"}

// OddWords has every odd character between any two ordinary ones, everywhere.
func OddWords(ctxs []Ctx, two bool) Fam {
	return Fam{"odd-characters", func(f F) bool {
		for _, c := range ctxs {
			for _, o := range Odd {
				for _, l := range append([]string{""}, Alphabet...) {
					for _, r := range append([]string{""}, Alphabet...) {
						if !f([]byte(c.Pre + l + o + r + c.Suf)) {
							return false
						}
					}
				}
				if two {
					for _, p := range Odd {
						if !f([]byte(c.Pre+o+p+c.Suf)) || !f([]byte(c.Pre+o+p)) || !f([]byte(o+c.Pre+p+c.Suf)) {
							return false
						}
						for _, lr := range [][2]string{{"a", "a"}, {" ", " "}, {"%a", "\n"}, {"{", "}"}, {"", o}} {
							if !f([]byte(c.Pre + lr[0] + o + p + lr[1] + c.Suf)) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}}
}

// number stands for the number of the repetition.
const number = "\x02"

// Pump describes a construct that can be repeated.
type Pump struct{ Name, Pre, Unit, Suf string }

// Pumps are all repeatable constructs.
var Pumps = []Pump{
	{"decls", "", "@a{k}\n", ""},
	{"strings", "", "@string{n=1}", ""},
	{"preambles", "", "@preamble{\"p\"}\n", ""},
	{"fields", "@a{k", ",x={v}", "}"},
	{"fields-distinct-layout", "@a{k,\n", "  name = \"v w\",\n", "}"},
	{"keys", "@a{k", ",k", "}"},
	{"key-length", "@a{", "k", "}"},
	{"name-length", "@a{k,x", "x", "=1}"},
	{"type-length", "@a", "a", "{k}"},
	{"number-length", "@a{k,x=", "1", "}"},
	{"concats", "@a{k,x=1", "#1", "}"},
	{"concat-strings", "@a{k,x=\"a\"", " # \"b\"", "}"},
	{"spaces", "@a{k,", " ", "x=1}"},
	{"newlines", "@a{k,", "\n", "x=1}"},
	{"comments", "@a{k,", "%c\n", "x=1}"},
	{"comment-groups", "", "%c\n\n", "@a{k}"},
	{"comment-length", "%", "c", "\n@a{k}"},
	{"text-quote", "@a{k,x=\"", "t", "\"}"},
	{"text-brace", "@a{k,x={", "t", "}}"},
	{"text-multibyte", "@a{k,x={", "é", "}}"},
	{"words", "@a{k,x={", "w ", "}}"},
	{"string-spaces", "@a{k,x={a", " ", "b}}"},
	{"string-newlines", "@a{k,x={a", "\n", "b}}"},
	{"commas", "@a{k,x={", ",", "}}"},
	{"ties", "@a{k,x={", "~", "}}"},
	{"maths", "@a{k,x={", "$m$", "}}"},
	{"math-length", "@a{k,x={$", "m", "$}}"},
	{"math-escape", "@a{k,x={$", "\\$", "$}}"},
	{"escapes", "@a{k,x={", "\\&", "}}"},
	{"backslashes", "@a{k,x={", "\\\\", "}}"},
	{"accents", "@a{k,x={", "\\'e", "}}"},
	{"accent-braces", "@a{k,x={", "\\c{c}", "}}"},
	{"accent-spaces", "@a{k,x={\\c", " ", "c}}"},
	{"macros", "@a{k,x={", "\\mac ", "}}"},
	{"macro-length", "@a{k,x={\\m", "m", " }}"},
	{"groups", "@a{k,x={", "{g}", "}}"},
	{"empty-groups", "@a{k,x=\"", "{}", "\"}"},
	{"url-args", "@a{k,x={", "\\url{u}", "}}"},
	{"url-length", "@a{k,x={\\url{", "u", "}}}"},
	{"url-tildes", "@a{k,x={\\url{http://", "~,", "}}}"},
	{"url-field", "@a{k,url={http://x/", "a~b,", "}}"},
	{"entries-mixed", "", "@a{k,x={a {b}}#\"c {d}\",y=1#n,url={http://u~v}}\n", ""},
	{"strings-mixed", "@string{n=", "{a}#", "n}"},
	{"preambles-mixed", "", "@preamble{\"p {q}\" # {r {s}}}%c\n", ""},
	{"authors", "@a{k,author={A", " and {B} C", "}}"},
	{"url-quote", "@a{k,url=\"http://x/", "a~b,", "\"}"},
	// all of them different
	{"fields-numbered", "@a{k", ",f" + number + "={v " + number + "}", "}"},
	{"keys-numbered", "@a{k", ",k" + number, ",x=1}"},
	{"decls-numbered", "", "@t{k" + number + ",x=" + number + "}\n", ""},
	{"strings-numbered", "", "@string{n" + number + "=\"" + number + "\"}\n", "@a{k,x=n1}"},
	{"concats-numbered", "@a{k,x=0", "#" + number + "#n" + number, "}"},
	{"comments-numbered", "", "% " + number + "\n", "@a{k}"},
	{"groups-numbered", "@a{k,x=\"", "{" + number + "} \\'e$" + number + "$,", "\"}"},
	// cut off or malformed
	{"open-entries", "", "@a{", ""},
	{"open-braces", "@a{k,x={", "{", ""},
	{"open-quote", "@a{k,x=\"", "t", ""},
	{"open-math", "@a{k,x=\"$", "t", "\"}"},
	{"open-comment", "@a{k", "%", ""},
	{"ats", "", "@", ""},
	{"closers", "", "}", ""},
	{"quotes", "@a{k,x=", "\"", "}"},
	{"bad-text", "", "t ", ""},
	{"nuls", "@a{k,x={", "\x00", "}}"},
	{"invalid", "@a{k,x={", "\xff", "}}"},
	{"nuls-top", "", "\x00", ""},
	{"missing-values", "@a{k", ",x=", "}"},
	{"bad-values", "@a{k", ",x=@", "}"},
	{"bad-entries", "", "@a{k,x=}\n", "@b{k}"},
	{"bad-strings", "", "@string{=}\n", "@b{k}"},
	{"bad-escapes", "@a{k,x={", "\\", "}}"},
	{"bad-accents", "@a{k,x={", "\\'1", "}}"},
	{"bad-groups", "", "@a{k,x={a{b\\1}}}\n", "@b{k}"},
	{"bad-concats", "@a{k}", "@a{k,x={{}}#}\n", "@b{k}"},
	{"at-comments", "", "@comment{c}\n", ""},
	{"hashes", "@a{k,x=1", "#", "}"},
}

// Nest describes a construct that can be nested.
type Nest struct{ Name, Pre, Open, Mid, Close, Suf string }

// Nests are all nestable constructs.
var Nests = []Nest{
	{"brace", "@a{k,x=", "{", "t", "}", "}"},
	{"brace-words", "@a{k,x=", "{a ", "t", " b}", "}"},
	{"quote", "@a{k,x=\"a", "{", "\"", "}", "b\"}"},
	{"preamble", "@preamble{", "{", "", "}", "}"},
	{"string", "@string(n=", "{", ",", "}", ")"},
}

// Do builds the construct with n repetitions.
func (p Pump) Do(n int) []byte {
	b := make([]byte, 0, len(p.Pre)+n*len(p.Unit)+len(p.Suf))
	b = append(b, p.Pre...)
	if strings.Contains(p.Unit, number) {
		for i := 0; i < n; i++ {
			b = append(b, strings.ReplaceAll(p.Unit, number, strconv.Itoa(i))...)
		}
	} else {
		b = append(b, bytes.Repeat([]byte(p.Unit), n)...)
	}
	return append(b, p.Suf...)
}

// Do builds the construct with n levels.
func (p Nest) Do(n int) []byte {
	return []byte(p.Pre + strings.Repeat(p.Open, n) + p.Mid + strings.Repeat(p.Close, n) + p.Suf)
}

// PumpCounts are repetition counts: all small ones and those around sizes of
// buffers and counters.
func PumpCounts(big bool) []int {
	var ns []int
	for n := 0; n <= 70; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097)
	if big {
		ns = append(ns, 8192, 16384, 65535, 65536, 65537, 100000)
	}
	return ns
}

// pumpCtx is a place with what can be there.
type pumpCtx struct {
	Pre, Suf string
	Syms     []string
}

var pumpCtxs = []pumpCtx{
	{"@a{", ",x=1}", []string{"1", "0", "a", "Z", "-", ":", "/", "_", "."}},
	{"@a{k,x", "=1}", []string{"1", "a", "Z", "-", ":", "."}},
	{"@a", "{k}", []string{"a", "Z", "é", "本", "_"}},
	{"@a{k,x=", "}", []string{"1", "0", "a", "-", "Z"}},
	{"@a{k,x={", "}}", []string{"t", "1", " ", "\n", "\t", "~", ",", "-", "é", "\"", "\\&", "\\\\", "$m$", "{g}", "\\'e", "\\m ", "{}"}},
	{"@a{k,x=\"", "\"}", []string{"t", " ", "\r\n", "~", ",", "é", "{\"}", "\\&", "$m$", "{g}", "\\c c", "\\m{}"}},
	{"@a{k,x={{", "} y}}", []string{"t", " ", "~", "\"", "\\&", "$m$", "{g}"}},
	{"@a{k,url={http://", "}}", []string{"a", "~", ",", "%41", ".", "#", "-", "é", "/"}},
	{"@a{k,url=\"http://", "\"}", []string{"a", "~", ",", "%41", ".", "#"}},
	{"@a{k,x={\\url{http://", "}}}", []string{"a", "~", ",", "%41", ".", "#"}},
	{"@a{k,x={$", "$}}", []string{"m", "\\$", "\\\\", "{", "}", "^", " ", "é"}},
	{"%", "\n@a{k}", []string{"c", "%", "@", "{", "é", "\r", "\t"}},
	{"@a{k,author={A", "}}", []string{" and B", " B", " b", ", B", "~C", " {G}", "\n"}},
	{"@a{k,", "x=1}", []string{" ", "\n", "\t", "\r\n", "%c\n", "y=1,", "z,"}},
	{"", "@a{k}", []string{"@a{k}\n", "@string{n=1}\n", "%c\n", "\n", "@preamble{{p}}\n", "@b{j,x={v}},\n"}},
}

// badSyms make most sources malformed.
var badSyms = []string{"@", "\\1", "}", "\"", "\x00", "=", "{", "#"}

// pumpPairs repeats everything in front of everything else, and around it.
func pumpPairs(f F) bool {
	var ns []int
	for n := 1; n <= 20; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257)
	for _, c := range pumpCtxs {
		for _, n := range ns {
			for i, x := range c.Syms {
				xs := strings.Repeat(x, n)
				for j, y := range c.Syms {
					if i == j {
						continue
					}
					if !f([]byte(c.Pre+xs+y+c.Suf)) || !f([]byte(c.Pre+y+xs+y+c.Suf)) || n <= 129 && !f([]byte(c.Pre+xs+y+xs+c.Suf)) {
						return false
					}
				}
				for _, y := range badSyms {
					if !f([]byte(c.Pre + xs + y + c.Suf)) {
						return false
					}
				}
			}
		}
	}
	return true
}

// PumpFam repeats every construct.
func PumpFam(big bool) Fam {
	return Fam{"pumped", func(f F) bool {
		if !pumpPairs(f) {
			return false
		}
		for _, n := range PumpCounts(big) {
			for _, p := range Pumps {
				if !f(p.Do(n)) {
					return false
				}
			}
			if n == 0 {
				continue
			}
			for _, p := range Nests {
				if !f(p.Do(n)) {
					return false
				}
			}
		}
		return true
	}}
}

// LargeFam has constructs repeated and nested more often than the parser's limit
// on nesting, in well-formed sources that don't nest that deeply, and nests right
// at that limit.
func LargeFam(big bool) Fam {
	return Fam{"large", func(f F) bool {
		for _, n := range []int{99999, 100000} {
			for _, p := range Nests {
				if !f(p.Do(n)) {
					return false
				}
			}
			for _, p := range Pumps {
				switch p.Name {
				case "concats", "strings-mixed":
					if !f(p.Do(n - 1)) {
						return false
					}
				}
			}
		}
		counts := []int{100003}
		if big {
			counts = []int{65535, 65536, 65537, 100003, 262145}
		}
		for _, n := range counts {
			for _, p := range Pumps {
				switch p.Name {
				case "concats", "concat-strings", "strings-mixed", "concats-numbered", "open-braces", "hashes":
					continue // these nest
				}
				if !f(p.Do(n)) {
					return false
				}
			}
		}
		return true
	}}
}
