// Package ref is the reference model: an independent definition of which
// sources are well-formed bibliographies and of the tree that each denotes.
// It shares no code with the implementation.
package ref

import "strconv"

// N is an abstract tree node. Both the model and the adapter of the
// implementation's tree produce it.
type N struct {
	K     byte   // kind, see the constants
	Pos   int    // byte offset where the item begins
	Close int    // byte offset of the closing delimiter; -1 if none
	Op    int    // byte offset of a '#'
	End   int    // byte offset after the item; only for DEnd, -1 if not specified
	S     string // text, normalized name or type
	R     string // raw name
	Acc   rune   // accent
	Depth int
	Delim byte // '"' or '{'
	Doc   int  // index of the documenting comment group, -1 if none
	Kids  []*N
}

const (
	KEntry    = 'E' // kids: keys, then tags
	KAbbrev   = 'A' // kids: one tag
	KPreamble = 'P' // kids: one value
	KTag      = 't' // kids: one value
	KKey      = 'k'
	KNumber   = 'n'
	KIdent    = 'i'
	KRaw      = 'u'
	KParsed   = 'p'
	KText     = 'x'
	KSpace    = 's'
	KComma    = ','
	KTie      = '~'
	KHyphen   = '-'
	KMath     = '$'
	KEscaped  = 'e'
	KAccent   = 'a'
	KMacro    = 'm'
	KConcat   = '#'
	KBad      = 'b'
	KOther    = '?'
)

// Comment is a %-comment.
type Comment struct {
	Pos  int
	Text string
}

// Doc is a whole document.
type Doc struct {
	Decls  []*N
	Groups [][]Comment
	// FileDoc is the index of the group that documents the file, -1 for none,
	// -2 if not specified.
	FileDoc int
}

// Dump flags.
const (
	DPos  = 1 << iota // positions
	DDoc              // documentation links and comments
	DRaw              // raw spelling of field names
	DFlat             // don't show the elements of parsed strings
	DEnd              // ends
)

// AppendNode appends a canonical rendering of n.
func AppendNode(b []byte, n *N, fl int) []byte {
	if n == nil {
		return append(b, "<nil>"...)
	}
	b = append(b, n.K)
	if fl&DPos != 0 {
		b = append(b, '@')
		b = strconv.AppendInt(b, int64(n.Pos), 10)
		if n.Close >= 0 {
			b = append(b, '.')
			b = strconv.AppendInt(b, int64(n.Close), 10)
		}
		if n.K == KConcat {
			b = append(b, '+')
			b = strconv.AppendInt(b, int64(n.Op), 10)
		}
	}
	if fl&DEnd != 0 {
		b = append(b, ':')
		b = strconv.AppendInt(b, int64(n.End), 10)
	}
	if fl&DDoc != 0 && n.Doc >= 0 {
		b = append(b, '%')
		b = strconv.AppendInt(b, int64(n.Doc), 10)
	}
	switch n.K {
	case KSpace, KComma, KTie, KHyphen:
		return b
	case KParsed:
		if fl&DFlat != 0 {
			return append(b, n.Delim)
		}
		b = append(b, n.Delim)
		b = strconv.AppendInt(b, int64(n.Depth), 10)
	case KRaw:
		if fl&DFlat != 0 {
			b[len(b)-1] = KParsed
			return append(b, n.Delim)
		}
		b = append(b, n.Delim)
	case KAccent:
		b = append(b, string(n.Acc)...)
	}
	if n.S != "" || len(n.Kids) == 0 {
		b = append(b, '<')
		b = append(b, n.S...)
		b = append(b, '>')
	}
	if fl&DRaw != 0 && n.K == KTag {
		b = append(b, '/')
		b = append(b, n.R...)
	}
	if len(n.Kids) > 0 {
		b = append(b, '(')
		for i, k := range n.Kids {
			if i > 0 {
				b = append(b, ' ')
			}
			b = AppendNode(b, k, fl)
		}
		b = append(b, ')')
	}
	return b
}

// AppendDoc appends a canonical rendering of d.
func AppendDoc(b []byte, d *Doc, fl int) []byte {
	for _, n := range d.Decls {
		b = AppendNode(b, n, fl)
		b = append(b, '\n')
	}
	if fl&DDoc != 0 {
		if d.FileDoc > -2 {
			b = append(b, "doc="...)
			b = strconv.AppendInt(b, int64(d.FileDoc), 10)
		}
		for _, g := range d.Groups {
			b = append(b, '[')
			for _, c := range g {
				b = strconv.AppendInt(b, int64(c.Pos), 10)
				b = strconv.AppendQuote(b, c.Text)
			}
			b = append(b, ']')
		}
	}
	return b
}

// SetEnds sets the ends of n, which the model made, and of its elements.
func SetEnds(n *N) {
	if n == nil {
		return
	}
	for _, k := range n.Kids {
		SetEnds(k)
	}
	switch n.K {
	case KEntry, KAbbrev, KPreamble, KParsed:
		n.End = n.Close + 1
	case KTag, KConcat:
		for _, v := range n.Kids {
			if v.K == KText {
				// The quoted plain text of a url field.
				v.End = -1
			}
		}
		n.End = n.Kids[len(n.Kids)-1].End
	case KKey, KNumber, KIdent, KText:
		n.End = n.Pos + len(n.S)
	case KRaw, KMath:
		n.End = n.Pos + 2 + len(n.S)
	case KEscaped:
		n.End = n.Pos + 2
	case KComma, KTie, KHyphen:
		n.End = n.Pos + 1
	case KMacro:
		n.End = n.Pos + 1 + len(n.S)
		if n.Close >= 0 {
			n.End = n.Close + 1
		}
	default: // whitespace and accents
		n.End = -1
	}
}

// CopyEnds forgets the ends in n that aren't specified in the model m.
func CopyEnds(n, m *N) {
	if n == nil || m == nil {
		return
	}
	if m.End < 0 {
		n.End = -1
	}
	for i := range n.Kids {
		if i < len(m.Kids) {
			CopyEnds(n.Kids[i], m.Kids[i])
		}
	}
}
