package ref

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Name is what the model says about one name of an author list.
type Name struct {
	// Words are the words of the whole name, in order: those before the first
	// comma, then those of the other parts.
	Words []string
	// Exact reports whether the parts are specified; otherwise only the words
	// are.
	Exact                       bool
	First, Prefix, Last, Suffix string
	Commas                      int
	Before                      int // words before the first comma
	Others                      bool
	Known                       bool // the words are specified
}

// Authors is the meaning of an author list.
type Authors struct {
	Names []Name
	Error bool // has an empty name
	Known bool // false if nothing is specified
}

func isBlank(n *N) bool { return n.K == KSpace || n.K == KTie }

type word struct {
	text  string
	kids  []*N
	known bool
	class byte // l lower, u upper, ? open
}

// wordText is the text of a word: as rendered, but for escapes and math, which
// keep their TeX spelling, as do accents that have no character.
func wordText(kids []*N) (string, bool) {
	known := true
	var b []byte
	var all func(kids []*N)
	all = func(kids []*N) {
		for _, k := range kids {
			switch k.K {
			case KEscaped:
				b = append(append(b, '\\'), k.S...)
			case KParsed, KMacro:
				all(k.Kids)
			case KAccent:
				r, sure := Accent(k.Acc, k.S)
				known = known && sure
				if r == 0 {
					b = append(b, "\\"+string(k.Acc)+"{"+k.S+"}"...)
				} else {
					b = append(b, string(r)...)
				}
			default:
				t, ok, kn := Text(b, k)
				known = known && ok && kn
				b = t
			}
		}
	}
	all(kids)
	s := Squeeze(string(b))
	for _, r := range s {
		if r != ' ' && unicode.IsSpace(r) {
			known = false // could be trimmed
		}
	}
	return s, known
}

// Squeeze removes what isn't specified about the spelling of author parts: the
// number of spaces between words.
func Squeeze(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' }), " ")
}

func classOf(k *N) byte {
	switch k.K {
	case KText:
		r, _ := utf8.DecodeRuneInString(k.S)
		if unicode.IsLower(r) {
			return 'l'
		}
		if unicode.IsUpper(r) {
			return 'u'
		}
	case KParsed:
		return 'u'
	case KAccent, KEscaped, KMacro, KMath:
		return 'u' // doesn't begin with a lower-case letter
	}
	return '?'
}

func words(kids []*N) (ws []word) {
	for i := 0; i < len(kids); {
		if isBlank(kids[i]) {
			i++
			continue
		}
		j := i
		for j < len(kids) && !isBlank(kids[j]) {
			j++
		}
		w := word{kids: kids[i:j], class: classOf(kids[i])}
		w.text, w.known = wordText(w.kids)
		ws = append(ws, w)
		i = j
	}
	return
}

func join(ws []word) string {
	var s []string
	for _, w := range ws {
		if w.text != "" {
			s = append(s, w.text)
		}
	}
	return strings.Join(s, " ")
}

// ParseAuthors is the meaning of the string p as an author list.
func ParseAuthors(p *N) Authors {
	a := Authors{Known: true}
	var start int
	add := func(kids []*N) {
		for len(kids) > 0 && isBlank(kids[0]) {
			kids = kids[1:]
		}
		for len(kids) > 0 && isBlank(kids[len(kids)-1]) {
			kids = kids[:len(kids)-1]
		}
		if len(kids) == 0 {
			a.Error = true
			return
		}
		n := parseName(kids)
		if strings.TrimSpace(strings.Join(n.Words, "")) == "" && (n.Known || len(n.Words) > 0) {
			a.Known = false // only commas, only {}, only odd spaces
		}
		a.Names = append(a.Names, n)
	}
	for i, k := range p.Kids {
		if k.K != KText || k.S != "and" {
			continue
		}
		l := i == 0 || isBlank(p.Kids[i-1])
		r := i == len(p.Kids)-1 || isBlank(p.Kids[i+1])
		if !l || !r {
			continue
		}
		if i > 0 && p.Kids[i-1].K == KTie || i < len(p.Kids)-1 && p.Kids[i+1].K == KTie {
			a.Known = false
		}
		add(p.Kids[start:i])
		start = i + 1
	}
	add(p.Kids[start:])
	return a
}

func parseName(kids []*N) Name {
	n := Name{Known: true, Exact: true}
	var parts [][]word
	start := 0
	for i, k := range kids {
		if k.K == KComma && n.Commas < 2 {
			parts = append(parts, words(kids[start:i]))
			start = i + 1
			n.Commas++
		}
	}
	parts = append(parts, words(kids[start:]))
	for _, p := range parts {
		for _, w := range p {
			n.Known = n.Known && w.known
			if w.text != "" {
				n.Words = append(n.Words, strings.Split(w.text, " ")...)
			}
		}
	}
	p0 := parts[0]
	n.Before = len(p0)
	if len(p0) > 0 && p0[len(p0)-1].text == "" {
		n.Before = 0 // like {}
	}
	var class []byte
	for i, w := range p0 {
		if w.class == '?' && i < len(p0)-1 {
			n.Exact = false
		}
		class = append(class, w.class)
	}
	n.Exact = n.Exact && n.Known
	if n.Exact && len(p0) > 0 {
		// The words before the last are u* l* u*: the last name begins after
		// the run of lower-case words.
		m := len(p0) - 1
		i := 0
		for i < m && class[i] == 'u' {
			i++
		}
		j := i
		for j < m && class[j] == 'l' {
			j++
		}
		for k := j; k < m; k++ {
			if class[k] == 'l' {
				n.Exact = false
			}
		}
		if n.Commas > 0 && i < j && i > 0 {
			n.Exact = false // upper-case words before von in "von Last"
		}
		if n.Commas > 0 && i == j {
			i, j = 0, 0
		}
		if n.Commas == 0 && i == j {
			i, j = m, m
		}
		n.First, n.Prefix, n.Last = join(p0[:i]), join(p0[i:j]), join(p0[j:])
	}
	switch n.Commas {
	case 1:
		n.First = join(parts[1])
	case 2:
		n.Suffix, n.First = join(parts[1]), join(parts[2])
	}
	n.Others = len(kids) == 1 && kids[0].K == KText && kids[0].S == "others"
	return n
}
