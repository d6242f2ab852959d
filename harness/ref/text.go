package ref

import "strings"

// documented are the combinations of accent and letter that are supported.
var documented = map[rune]string{
	'`': "aeiouAEIOU", '\'': "aeiouyAEIOUY", '^': "aeiouAEIOU", '"': "aeiouAEIOU",
	'~': "anoANO", 'c': "cC", '.': "cegzCEGZI",
}

// Accent composes. sure is false if both an error and that character are
// acceptable; 0 means that it must be an error.
func Accent(acc rune, text string) (r rune, sure bool) {
	rs := []rune(text)
	if len(rs) != 1 || string(rs) != text {
		return 0, true
	}
	if acc == '.' && text == "i" {
		return 'i', false // a dotted i; it has no other dot to get
	}
	c := Composed[acc][rs[0]]
	if c == 0 {
		return 0, true
	}
	return c, strings.ContainsRune(documented[acc], rs[0])
}

// Text appends the text that x denotes: escapes unescaped, accents composed,
// macro names and braces dropped, whitespace and ties as one space, math
// verbatim. ok is false if x has no such text, known is false if it's open.
func Text(b []byte, x *N) (t []byte, ok, known bool) {
	ok, known = true, true
	all := func(kids []*N) {
		for _, k := range kids {
			if !ok {
				return
			}
			var ok1, known1 bool
			b, ok1, known1 = Text(b, k)
			ok, known = ok && ok1, known && known1
		}
	}
	switch x.K {
	case KText, KEscaped:
		b = append(b, x.S...)
	case KSpace, KTie:
		b = append(b, ' ')
	case KComma:
		b = append(b, ',')
	case KHyphen:
		b = append(b, '-')
	case KMath:
		b = append(b, '$')
		b = append(b, x.S...)
		b = append(b, '$')
	case KAccent:
		r, sure := Accent(x.Acc, x.S)
		known = sure
		if r == 0 {
			return b, false, known
		}
		b = append(b, string(r)...)
	case KParsed, KMacro:
		all(x.Kids)
	case KConcat:
		all(x.Kids[:1])
		if ok {
			b = append(b, '#')
			all(x.Kids[1:])
		}
	default:
		return b, false, true
	}
	return b, ok, known
}
