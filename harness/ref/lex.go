package ref

import (
	"unicode"
	"unicode/utf8"
)

// TK is the kind of a token of the model.
type TK byte

const (
	TEOF    TK = iota
	TBad       // lexical error
	TUnspec    // the model doesn't say
	TCommentCmd
	TStringCmd
	TPreambleCmd
	TEntryCmd
	TIdent
	TNumber
	TRawQuote // "..." in raw mode
	TRawBrace // {...} in raw mode
	TAssign
	TLParen
	TRParen
	TLBrace
	TRBrace
	TConcat
	TComma
	TTexComment
	// inside parsed strings
	TQuote  // " that opens or closes
	TSBrace // { that opens a string or a group
	TEBrace // } that closes a string or a group
	TSpace
	TTie
	TContents
	TMath
	TSComma
	TEscaped
	TAccent
	TMacro
	nTK
)

var tkNames = [...]string{"EOF", "Bad", "Unspec", "@comment", "@string", "@preamble", "@entry", "Ident", "Number", "RawQuote", "RawBrace",
	"=", "(", ")", "{", "}", "#", ",", "%", "Quote", "SBrace", "EBrace", "Space", "Tie", "Contents", "Math", "SComma", "Escaped", "Accent", "Macro"}

func (k TK) String() string { return tkNames[k] }

// Tok is a token: src[Off:End] is its source, delimiters included.
type Tok struct {
	K        TK
	Off, End int
	Lit      string
	Letter   byte // of an accent
	Acc      byte // of an accent
}

// Stats counts what the model visits.
type Stats struct {
	States map[uint32]struct{}
	Trans  int64
}

func (s *Stats) visit(cfg uint32) {
	if s == nil {
		return
	}
	s.Trans++
	if _, ok := s.States[cfg]; !ok {
		s.States[cfg] = struct{}{}
	}
}

func isNameByte(c byte) bool {
	switch {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		return true
	}
	switch c {
	case '!', '$', '&', '*', '+', '-', '.', '/', ':', ';', '<', '>', '?', '[', ']', '^', '_', '`', '|':
		return true
	}
	return false
}

func asciiLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool       { return c >= '0' && c <= '9' }
func blank(c byte) bool       { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// badChar reports whether the character at i can't occur anywhere: NUL, invalid
// UTF-8 or a byte order mark (other than the one at offset 0).
func badChar(src []byte, i int) bool {
	c := src[i]
	if c == 0 {
		return true
	}
	if c < utf8.RuneSelf {
		return false
	}
	r, w := utf8.DecodeRune(src[i:])
	return r == utf8.RuneError && w == 1 || r == 0xFEFF && i > 0
}

func charLen(src []byte, i int) int {
	_, w := utf8.DecodeRune(src[i:])
	return w
}

type lexer struct {
	src  []byte
	toks []Tok
	prev TK
	st   *Stats
}

// Lex splits src into tokens. Lexing stops after the first TBad or TUnspec.
func Lex(src []byte, parsed bool, st *Stats) []Tok { return lexFrom(src, parsed, TBad, st, nil) }

func lexFrom(src []byte, parsed bool, prev TK, st *Stats, buf []Tok) []Tok {
	l := &lexer{src: src, prev: prev, st: st, toks: buf[:0]}
	i := 0
	if len(src) >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF {
		i = 3
	}
	for {
		for i < len(src) && blank(src[i]) {
			i++
		}
		if i == len(src) {
			l.add(Tok{K: TEOF, Off: i, End: i})
			return l.toks
		}
		t := l.one(i, parsed)
		if t.K == TQuote || t.K == TSBrace {
			l.add(t)
			var ok bool
			if i, ok = l.str(t); !ok {
				return l.toks
			}
			// The prev for '{' classification is the closing delimiter.
			l.prev = TEBrace
			continue
		}
		l.add(t)
		if t.K == TBad || t.K == TUnspec {
			return l.toks
		}
		if t.K != TTexComment {
			l.prev = t.K
		}
		i = t.End
	}
}

func (l *lexer) add(t Tok) {
	l.toks = append(l.toks, t)
	l.st.visit(1<<16 | uint32(l.prev)<<8 | uint32(t.K))
}

// one lexes the token at i, outside of parsed strings.
func (l *lexer) one(i int, parsed bool) Tok {
	src := l.src
	c := src[i]
	bad := Tok{K: TBad, Off: i, End: i + 1}
	switch {
	case digit(c):
		j := i
		for j < len(src) && digit(src[j]) {
			j++
		}
		k := TNumber
		for j < len(src) && isNameByte(src[j]) {
			k = TIdent
			j++
		}
		return Tok{K: k, Off: i, End: j, Lit: string(src[i:j])}
	case isNameByte(c):
		j := i
		for j < len(src) && isNameByte(src[j]) {
			j++
		}
		return Tok{K: TIdent, Off: i, End: j, Lit: string(src[i:j])}
	}
	simple := func(k TK) Tok { return Tok{K: k, Off: i, End: i + 1} }
	switch c {
	case '=':
		return simple(TAssign)
	case ',':
		return simple(TComma)
	case '#':
		return simple(TConcat)
	case '(':
		return simple(TLParen)
	case ')':
		return simple(TRParen)
	case '}':
		return simple(TRBrace)
	case '%':
		j := i
		for j < len(src) && src[j] != '\n' {
			if badChar(src, j) {
				return Tok{K: TBad, Off: j, End: j + 1}
			}
			j += charLen(src, j)
		}
		return Tok{K: TTexComment, Off: i, End: j, Lit: string(src[i:j])}
	case '@':
		j := i + 1
		for j < len(src) {
			if badChar(src, j) {
				break
			}
			r, w := utf8.DecodeRune(src[j:])
			if r != '_' && !(r < utf8.RuneSelf && asciiLetter(byte(r))) && !(r >= utf8.RuneSelf && unicode.IsLetter(r)) {
				break
			}
			j += w
		}
		if j == i+1 {
			return bad
		}
		lit := string(src[i:j])
		k := TEntryCmd
		switch asciiLower(lit) {
		case "@comment":
			k = TCommentCmd
		case "@string":
			k = TStringCmd
		case "@preamble":
			k = TPreambleCmd
		default:
			if odd(lit) {
				k = TUnspec // letters that fold in unusual ways
			}
		}
		return Tok{K: k, Off: i, End: j, Lit: lit}
	case '"':
		if parsed {
			return simple(TQuote)
		}
		return l.raw(i, '"')
	case '{':
		switch l.prev {
		case TAssign, TConcat, TLBrace, TLParen:
			if parsed {
				return simple(TSBrace)
			}
			return l.raw(i, '}')
		}
		return simple(TLBrace)
	}
	return bad
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// odd reports whether s has a non-ASCII letter whose case folding meets ASCII,
// like U+017F or U+212A.
func odd(s string) bool {
	for _, r := range s {
		if r == 0x17F || r == 0x212A || r == 0x130 || r == 0x131 {
			return true
		}
	}
	return false
}

// raw lexes a raw string whose opening delimiter is at i.
func (l *lexer) raw(i int, end byte) Tok {
	src := l.src
	depth := 0
	unspec := false
	for j := i + 1; j < len(src); {
		if badChar(src, j) {
			return Tok{K: TBad, Off: i, End: j + 1}
		}
		c := src[j]
		switch {
		case c == end && depth == 0:
			if unspec {
				return Tok{K: TUnspec, Off: i, End: j + 1}
			}
			k := TRawBrace
			if end == '"' {
				k = TRawQuote
			}
			return Tok{K: k, Off: i, End: j + 1, Lit: string(src[i+1 : j])}
		case c == '{':
			depth++
		case c == '}':
			if depth == 0 {
				unspec = true // a surplus brace inside quotes
			} else {
				depth--
			}
		}
		j += charLen(src, j)
	}
	return Tok{K: TBad, Off: i, End: len(src)}
}

// str lexes the contents of a parsed string up to and including its closing
// delimiter and returns the offset after it.
func (l *lexer) str(open Tok) (int, bool) {
	src := l.src
	quote := open.K == TQuote
	depth := 0
	i := open.End
	fail := func(k TK, off int) (int, bool) {
		l.toks = append(l.toks, Tok{K: k, Off: off, End: off})
		l.st.visit(2<<16 | uint32(k))
		return 0, false
	}
	for {
		if i >= len(src) {
			return fail(TBad, i)
		}
		if badChar(src, i) {
			return fail(TBad, i)
		}
		t := Tok{Off: i, End: i + 1}
		c := src[i]
		done := false
		switch {
		case c == '"' && quote && depth == 0:
			t.K = TQuote
			done = true
		case c == '{':
			t.K = TSBrace
			depth++
		case c == '}':
			t.K = TEBrace
			if depth > 0 {
				depth--
			} else if quote {
				return fail(TBad, i)
			} else {
				done = true
			}
		case blank(c):
			t.K = TSpace
			for t.End < len(src) && blank(src[t.End]) {
				t.End++
			}
		case c == ',':
			t.K = TSComma
			t.Lit = ","
		case c == '~':
			t.K = TTie
			t.Lit = "~"
		case c == '$':
			t.K = TMath
			j := i + 1
			for {
				if j >= len(src) || src[j] == '\n' || badChar(src, j) {
					return fail(TBad, i)
				}
				if src[j] == '$' {
					break
				}
				if src[j] == '\\' && j+1 < len(src) {
					j++
					if badChar(src, j) {
						return fail(TBad, i)
					}
					if src[j] == '\n' {
						return fail(TUnspec, i)
					}
				}
				j += charLen(src, j)
			}
			t.Lit = string(src[i+1 : j])
			t.End = j + 1
		case c == '\\':
			k := l.escape(&t, quote && depth == 0)
			if k != 0 {
				return fail(k, i)
			}
		default:
			t.K = TContents
			j := i
			for j < len(src) && !l.stop(src[j], quote && depth == 0) {
				if badChar(src, j) {
					return fail(TBad, j)
				}
				j += charLen(src, j)
			}
			t.End = j
			t.Lit = string(src[i:j])
		}
		l.toks = append(l.toks, t)
		if l.st != nil {
			d := uint32(depth)
			if d > 63 {
				d = 63
			}
			q := uint32(0)
			if quote {
				q = 1
			}
			l.st.visit(3<<16 | q<<15 | d<<8 | uint32(t.K))
		}
		i = t.End
		if done {
			return i, true
		}
	}
}

// stop reports whether c ends a run of ordinary text.
func (l *lexer) stop(c byte, quoteStops bool) bool {
	switch c {
	case '$', '{', '}', ',', '~', '\\', ' ', '\t', '\r', '\n':
		return true
	case '"':
		return quoteStops
	}
	return false
}

// escape lexes what starts with a backslash. It returns 0, TBad or TUnspec.
func (l *lexer) escape(t *Tok, quoteStops bool) TK {
	src := l.src
	i := t.Off + 1
	if i >= len(src) || badChar(src, i) {
		return TBad
	}
	c := src[i]
	at := func(j int) byte {
		if j < len(src) {
			return src[j]
		}
		return 0
	}
	switch c {
	case '\\', '$', '&', '%', '{', '}', '_':
		t.K = TEscaped
		t.End = i + 1
		t.Lit = string(src[t.Off:t.End])
		return 0
	case ',', ';', '[', ']', '(', ')':
		t.K = TMacro
		t.End = i + 1
		t.Lit = string(src[t.Off:t.End])
		return 0
	}
	accent := c == '\'' || c == '^' || c == '.' || c == '`' || c == '~' || c == '"'
	if c == 'c' && !(asciiLetter(at(i+1)) && asciiLetter(at(i+2))) {
		accent = true
	}
	if accent {
		t.K = TAccent
		t.Acc = c
		j := i + 1
		switch {
		case at(j) == '{':
			if !asciiLetter(at(j+1)) || at(j+2) != '}' {
				return TBad
			}
			t.Letter = at(j + 1)
			t.End = j + 3
		case at(j) == ' ':
			for at(j) == ' ' {
				j++
			}
			if !asciiLetter(at(j)) {
				return TBad
			}
			t.Letter = at(j)
			t.End = j + 1
		default:
			if !asciiLetter(at(j)) {
				return TBad
			}
			t.Letter = at(j)
			t.End = j + 1
		}
		t.Lit = string(src[t.Off:t.End])
		return 0
	}
	j := i
	for j < len(src) && asciiLetter(src[j]) {
		j++
	}
	if j == i {
		return TBad
	}
	if j < len(src) && !l.stop(src[j], quoteStops) {
		return TUnspec // a name that runs into other text, like \alpha-x
	}
	t.K = TMacro
	t.End = j
	t.Lit = string(src[i:j])
	return 0
}
