package ref

import (
	"bytes"
	"sort"
	"strings"
)

// Verdict of the model.
type Verdict byte

const (
	Accept Verdict = iota
	Reject
	Unspec
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unspecified"}[v] }

// Result of the model for one source.
type Result struct {
	V   Verdict
	Doc Doc // for Reject, the declarations before the first malformed one
	// FailOff is where the first malformed declaration (or other text) begins.
	FailOff int
	Why     string
	Toks    []Tok
}

type fail struct {
	v   Verdict
	why string
}

type parser struct {
	src    []byte
	parsed bool
	toks   []Tok
	i      int // index of the current (non-comment) token
	doc    *Doc
	lead   []int // lead[i]: comment group documenting the token at i, -1 if none
	st     *Stats
}

// Parse returns the meaning of src. parsed selects string-parsing mode.
func Parse(src []byte, parsed bool, st *Stats) *Result {
	res := &Result{}
	p := &parser{src: src, parsed: parsed, doc: &res.Doc, st: st}
	all := lexFrom(src, parsed, TBad, st, make([]Tok, 0, 16+len(src)/3))
	res.Toks = all
	p.comments(all)
	declOff := 0
	func() {
		defer func() {
			if e := recover(); e != nil {
				f, ok := e.(fail)
				if !ok {
					panic(e)
				}
				res.V, res.Why = f.v, f.why
				res.FailOff = declOff
			}
		}()
		for p.tok().K != TEOF {
			declOff = p.tok().Off
			p.doc.Decls = append(p.doc.Decls, p.decl())
		}
	}()
	return res
}

// ParseExpr returns the meaning of the expression src, in string-parsing mode.
func ParseExpr(src []byte, st *Stats) (*N, Verdict, string) {
	// An expression stands after an '=', so a byte order mark isn't leading.
	if len(src) >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF {
		return nil, Reject, "byte order mark"
	}
	var doc Doc
	p := &parser{src: src, parsed: true, doc: &doc, st: st}
	all := lexFrom(src, true, TAssign, st, nil)
	p.comments(all)
	var n *N
	v := Accept
	why := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				f, ok := e.(fail)
				if !ok {
					panic(e)
				}
				v, why = f.v, f.why
			}
		}()
		n = p.value("")
	}()
	if v == Accept && p.tok().K != TEOF {
		return nil, Unspec, "text after the expression"
	}
	return n, v, why
}

// comments splits off the comments, groups them and finds what they document.
func (p *parser) comments(all []Tok) {
	p.doc.FileDoc = -1
	hasComment := false
	for _, t := range all {
		if t.K == TTexComment {
			hasComment = true
			break
		}
	}
	if !hasComment {
		p.toks = all
		return
	}
	var ends []int // the offsets of the newlines
	for i := 0; i < len(p.src); i++ {
		if p.src[i] == '\n' {
			ends = append(ends, i)
		}
	}
	line := func(off int) int { return 1 + sort.SearchInts(ends, off) }
	p.toks = make([]Tok, 0, len(all))
	p.lead = make([]int, 0, len(all))
	for i := 0; i < len(all); {
		if all[i].K != TTexComment {
			if len(p.lead) == len(p.toks) {
				p.lead = append(p.lead, -1)
			}
			p.toks = append(p.toks, all[i])
			i++
			continue
		}
		prevLine := 0
		if n := len(p.toks); n > 0 {
			prevLine = line(p.toks[n-1].End - 1)
			if p.toks[n-1].End == 0 {
				prevLine = 1
			}
		}
		j := i
		last := -1
		lastGroup := -1
		for ; j < len(all) && all[j].K == TTexComment; j++ {
			c := Comment{all[j].Off, all[j].Lit}
			ln := line(c.Pos)
			switch {
			case ln == prevLine:
				// shares its line with the token before it: a group of its own
				p.doc.Groups = append(p.doc.Groups, []Comment{c})
			case last >= 0 && ln == last+1:
				g := len(p.doc.Groups) - 1
				p.doc.Groups[g] = append(p.doc.Groups[g], c)
				last = ln
			default:
				p.doc.Groups = append(p.doc.Groups, []Comment{c})
				last = ln
			}
			lastGroup = len(p.doc.Groups) - 1
		}
		lead := -1
		if j < len(all) && last >= 0 && line(all[j].Off) == last+1 {
			lead = lastGroup
		}
		if len(p.toks) == 0 {
			switch {
			case lead < 0:
				p.doc.FileDoc = -1
			case lead == 0:
				p.doc.FileDoc = 0
			default:
				p.doc.FileDoc = -2
			}
			if j < len(all) && all[j].K == TEOF {
				p.doc.FileDoc = -2
			}
		}
		p.lead = append(p.lead, lead)
		i = j
	}
}

func (p *parser) tok() Tok {
	t := p.toks[p.i]
	return t
}

func (p *parser) leadOf() int {
	if p.lead == nil {
		return -1
	}
	return p.lead[p.i]
}

func (p *parser) reject(why string) {
	switch p.tok().K {
	case TUnspec:
		panic(fail{Unspec, "unspecified token"})
	case TCommentCmd:
		// Only reached by @comment inside a declaration.
		panic(fail{Reject, why})
	}
	panic(fail{Reject, why})
}

func (p *parser) next(state uint32) Tok {
	t := p.tok()
	p.st.visit(4<<16 | state<<8 | uint32(t.K))
	p.i++
	return t
}

func (p *parser) want(k TK, state uint32) Tok {
	if p.tok().K != k {
		p.reject("expected " + k.String() + ", found " + p.tok().K.String())
	}
	return p.next(state)
}

func (p *parser) open() (closer TK) {
	switch p.tok().K {
	case TLBrace:
		p.next(1)
		return TRBrace
	case TLParen:
		p.next(1)
		return TRParen
	}
	p.reject("expected { or (, found " + p.tok().K.String())
	return 0
}

func (p *parser) decl() *N {
	doc := p.leadOf()
	t := p.tok()
	switch t.K {
	case TPreambleCmd:
		p.next(2)
		closer := p.open()
		v := p.value("")
		c := p.want(closer, 3)
		return &N{K: KPreamble, Pos: t.Off, Close: c.Off, Doc: doc, Kids: []*N{v}}
	case TStringCmd:
		p.next(2)
		closer := p.open()
		tdoc := p.leadOf()
		name := p.tok()
		switch name.K {
		case TIdent:
			if !asciiLetter(name.Lit[0]) {
				panic(fail{Unspec, "abbreviation name that doesn't start with a letter"})
			}
		case TNumber:
			panic(fail{Unspec, "abbreviation name that doesn't start with a letter"})
		default:
			p.reject("expected a name, found " + name.K.String())
		}
		p.next(4)
		p.want(TAssign, 5)
		v := p.value("")
		if p.tok().K == TComma {
			p.next(6)
		}
		c := p.want(closer, 7)
		tag := &N{K: KTag, Pos: name.Off, Close: -1, S: asciiLower(name.Lit), R: name.Lit, Doc: tdoc, Kids: []*N{v}}
		return &N{K: KAbbrev, Pos: t.Off, Close: c.Off, Doc: doc, Kids: []*N{tag}}
	case TEntryCmd:
		return p.entry(doc)
	case TCommentCmd:
		panic(fail{Unspec, "@comment"})
	}
	p.reject("expected a declaration, found " + t.K.String())
	return nil
}

func (p *parser) entry(doc int) *N {
	t := p.next(2)
	e := &N{K: KEntry, Pos: t.Off, S: strings.ToLower(t.Lit[1:]), Doc: doc}
	closer := p.open()
	var tags []*N
	for {
		item := p.tok()
		if item.K != TIdent && item.K != TNumber {
			break
		}
		idoc := p.leadOf()
		p.next(8)
		if p.tok().K == TAssign {
			if !asciiLetter(item.Lit[0]) {
				panic(fail{Reject, "field name that doesn't start with a letter"})
			}
			p.next(9)
			name := asciiLower(item.Lit)
			v := p.value(name)
			tags = append(tags, &N{K: KTag, Pos: item.Off, Close: -1, S: name, R: item.Lit, Doc: idoc, Kids: []*N{v}})
		} else {
			e.Kids = append(e.Kids, &N{K: KKey, Pos: item.Off, Close: -1, S: item.Lit, Doc: -1})
		}
		if p.tok().K == TComma {
			p.next(10)
		}
	}
	e.Close = p.want(closer, 11).Off
	if p.tok().K == TComma {
		p.next(12)
	}
	e.Kids = append(e.Kids, tags...)
	return e
}

// value parses operand ('#' operand)*. field is the lower-case name of the
// field that has the value, or "".
func (p *parser) value(field string) *N {
	if field == "url" && p.parsed {
		return p.urlValue()
	}
	return p.concat(p.operand())
}

func (p *parser) concat(x *N) *N {
	var xs []*N
	var ops []int
	for p.tok().K == TConcat {
		ops = append(ops, p.next(13).Off)
		xs = append(xs, p.operand())
	}
	if len(xs) == 0 {
		return x
	}
	// Concatenation nests to the right.
	y := xs[len(xs)-1]
	for i := len(xs) - 1; i >= 0; i-- {
		l := x
		if i > 0 {
			l = xs[i-1]
		}
		y = &N{K: KConcat, Pos: l.Pos, Close: -1, Op: ops[i], Doc: -1, Kids: []*N{l, y}}
	}
	return y
}

func (p *parser) operand() *N {
	t := p.tok()
	switch t.K {
	case TNumber:
		p.next(14)
		return &N{K: KNumber, Pos: t.Off, Close: -1, S: t.Lit, Doc: -1}
	case TIdent:
		p.next(14)
		return &N{K: KIdent, Pos: t.Off, Close: -1, S: t.Lit, Doc: -1}
	case TRawQuote:
		p.next(14)
		return &N{K: KRaw, Pos: t.Off, Close: -1, S: t.Lit, Delim: '"', Doc: -1}
	case TRawBrace:
		p.next(14)
		return &N{K: KRaw, Pos: t.Off, Close: -1, S: t.Lit, Delim: '{', Doc: -1}
	case TQuote, TSBrace:
		return p.text(0)
	}
	p.reject("expected a value, found " + t.K.String())
	return nil
}

// text parses a string or a group, including its delimiters.
func (p *parser) text(depth int) *N {
	o := p.next(15)
	n := &N{K: KParsed, Pos: o.Off, Depth: depth, Delim: '{', Doc: -1}
	closer := TEBrace
	if o.K == TQuote {
		n.Delim = '"'
		closer = TQuote
	}
	for {
		t := p.tok()
		switch t.K {
		case closer:
			p.next(16)
			n.Close = t.Off
			return n
		case TSBrace:
			n.Kids = append(n.Kids, p.text(depth+1))
			continue
		case TMacro:
			if t.Lit == "url" || t.Lit == "href" {
				n.Kids = append(n.Kids, p.urlMacro())
				continue
			}
		}
		n.Kids = append(n.Kids, p.elem())
	}
}

// elem parses one element that isn't a group.
func (p *parser) elem() *N {
	t := p.tok()
	n := &N{Pos: t.Off, Close: -1, Doc: -1}
	switch t.K {
	case TSpace:
		n.K = KSpace
	case TTie:
		n.K = KTie
	case TContents:
		n.K, n.S = KText, t.Lit
	case TMath:
		n.K, n.S = KMath, t.Lit
	case TSComma:
		n.K = KComma
	case TEscaped:
		n.K, n.S = KEscaped, t.Lit[1:]
	case TAccent:
		n.K, n.S, n.Acc = KAccent, string(t.Letter), rune(t.Acc)
	case TMacro:
		n.K, n.S = KMacro, t.Lit
	default:
		p.reject("unexpected " + t.K.String() + " in a string")
	}
	p.next(17)
	return n
}

// urlMacro parses \url{...} or \href{...}.
func (p *parser) urlMacro() *N {
	t := p.next(18)
	n := &N{K: KMacro, Pos: t.Off, Close: -1, S: t.Lit, Doc: -1}
	if p.tok().K != TSBrace {
		if p.tok().K == TBad {
			p.reject("cut off")
		}
		panic(fail{Unspec, `\url without an argument`})
	}
	p.next(19)
	txt := &N{K: KText, Pos: p.tok().Off, Close: -1, Doc: -1}
	end := txt.Pos
	depth := 0
	for {
		t := p.tok()
		switch t.K {
		case TContents, TSComma, TTie, TMath, TEscaped, TAccent, TMacro:
			end = t.End
			p.next(20)
			continue
		case TSpace:
			p.next(20)
			if depth > 0 || p.tok().K != TEBrace {
				if p.tok().K == TBad {
					p.reject("cut off")
				}
				panic(fail{Unspec, "space inside a URL"})
			}
		case TSBrace:
			depth++
			end = t.End
			p.next(20)
			continue
		case TEBrace:
			if depth > 0 {
				depth--
				end = t.End
				p.next(20)
				continue
			}
		case TBad:
			p.reject("bad character or end of input in a URL")
		default:
			panic(fail{Unspec, "not a URL"})
		}
		break
	}
	txt.S = p.url(txt.Pos, end)
	n.Close = p.next(21).Off
	n.Kids = []*N{txt}
	return n
}

// url is the source text of a URL.
func (p *parser) url(start, end int) string {
	if bytes.ContainsAny(p.src[start:end], " \t\r\n") {
		panic(fail{Unspec, "space in an accent or in math of a URL"})
	}
	return string(p.src[start:end])
}

// urlValue parses the value of a url field in string-parsing mode.
func (p *parser) urlValue() *N {
	t := p.tok()
	var x *N
	switch t.K {
	case TQuote:
		if p.i+1 < len(p.toks) && p.toks[p.i+1].K == TMacro {
			// Text, as in any other field.
			x = p.text(0)
			break
		}
		p.next(22)
		x = &N{K: KText, Pos: t.Off, Close: -1, Doc: -1}
		start := p.tok().Off
		end := start
		for p.tok().K != TQuote {
			switch e := p.tok(); e.K {
			case TContents, TSComma, TTie, TMath, TEscaped, TAccent, TMacro, TSBrace, TEBrace:
				end = e.End
				p.next(24)
			case TBad:
				p.reject("bad character or end of input in a URL")
			default:
				panic(fail{Unspec, "space in a url field"})
			}
		}
		x.S = p.url(start, end)
		p.next(25)
	case TSBrace:
		x = p.text(0)
	default:
		return p.concat(p.operand())
	}
	if p.tok().K == TConcat {
		return p.concat(x)
	}
	if t.K == TSBrace {
		x = urlFix(x)
	}
	return x
}

// urlFix keeps a braced URL in one piece.
func urlFix(x *N) *N {
	if len(x.Kids) == 0 {
		return x
	}
	first := x.Kids[0]
	if first.K == KSpace && len(x.Kids) > 1 && x.Kids[1].K == KText && strings.HasPrefix(x.Kids[1].S, "http") {
		panic(fail{Unspec, "space before a URL"})
	}
	if first.K != KText || !strings.HasPrefix(first.S, "http") {
		return x
	}
	if len(x.Kids) == 1 {
		return x
	}
	var s strings.Builder
	for _, k := range x.Kids {
		switch k.K {
		case KText:
			s.WriteString(k.S)
		case KComma:
			s.WriteByte(',')
		case KTie:
			s.WriteByte('~')
		default:
			// Not just a URL: the text stays as it is.
			return x
		}
	}
	if !strings.HasPrefix(first.S, "http://") && !strings.HasPrefix(first.S, "https://") {
		panic(fail{Unspec, "not quite a URL"})
	}
	return &N{K: KParsed, Pos: x.Pos, Delim: x.Delim, Depth: x.Depth, Close: x.Close, Doc: -1,
		Kids: []*N{{K: KText, Pos: first.Pos, Close: -1, S: s.String(), Doc: -1}}}
}
