package checks

import (
	"fmt"
	gotok "go/token"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

var scanModes = []scanner.Mode{0, scanner.ScanComments, scanner.ScanStrings, scanner.ScanComments | scanner.ScanStrings}

// drained is everything that scanning a source shows.
type drained struct {
	toks  []adapt.STok
	errs  []adapt.SErr
	count int
	lines int
}

// drain scans s until end of file and 3 tokens further. It returns a violation
// of what holds for every byte sequence.
func drain(s *scanner.Scanner, f *gotok.File, src []byte, d *drained) string {
	last := 0
	for i := 0; ; i++ {
		var pos gotok.Pos
		var tok token.Token
		var lit string
		if p := adapt.Guard(func() { pos, tok, lit = s.Scan() }); p != nil {
			return bad("token %d: %v", i, p)
		}
		off := int(pos) - f.Base()
		if off < last || off > len(src) {
			return bad("token %d (%v %q) is at offset %d, after offset %d, of %d", i, tok, lit, off, last, len(src))
		}
		last = off
		d.toks = append(d.toks, adapt.STok{Tok: tok, Off: off, Lit: lit})
		if tok == token.EOF {
			break
		}
		if i > len(src) {
			return bad("%d tokens and no end of file", i+1)
		}
	}
	n := len(d.errs)
	for i := 0; i < 3; i++ {
		pos, tok, lit := s.Scan()
		if tok != token.EOF || int(pos)-f.Base() != last || lit != d.toks[len(d.toks)-1].Lit {
			return bad("after end of file: %v %q at %d", tok, lit, int(pos)-f.Base())
		}
	}
	if len(d.errs) != n {
		return "errors after end of file"
	}
	d.count = s.ErrorCount
	if s.ErrorCount != len(d.errs) {
		return bad("ErrorCount is %d after %d calls of the handler", s.ErrorCount, len(d.errs))
	}
	d.lines = f.LineCount()
	return ""
}

func scanAll(src []byte, m scanner.Mode, d *drained) string {
	fset := gotok.NewFileSet()
	f := fset.AddFile("t.bib", -1, len(src))
	s := &scanner.Scanner{}
	if p := adapt.Guard(func() {
		s.Init(f, src, func(p gotok.Position, msg string) { d.errs = append(d.errs, adapt.SErr{Pos: p, Msg: msg}) }, m)
	}); p != nil {
		return bad("Init: %v", p)
	}
	return drain(s, f, src, d)
}

// wantLit checks the literal of a token.
func wantLit(src []byte, t ref.Tok, lit string) bool {
	text := string(src[t.Off:t.End])
	switch t.K {
	case ref.TRawQuote, ref.TRawBrace, ref.TMath:
		return lit == text[1:len(text)-1]
	case ref.TMacro:
		return lit == t.Lit
	case ref.TAccent:
		return lit == text || strings.Contains(text, " ") && lit == text[:2]+string(t.Letter)
	case ref.TEOF, ref.TAssign, ref.TLParen, ref.TRParen, ref.TLBrace, ref.TRBrace, ref.TConcat, ref.TComma, ref.TQuote, ref.TSBrace, ref.TEBrace, ref.TSpace:
		return lit == "" || lit == text
	}
	return lit == text
}

func evalC05(w *core.W, _ string, src []byte) string {
	var d drained
	for _, m := range scanModes {
		d.toks, d.errs = d.toks[:0], d.errs[:0]
		if s := scanAll(src, m, &d); s != "" {
			return bad("mode %d: %s", m, s)
		}
		w.Trace++
		want := ref.Lex(src, m&scanner.ScanStrings != 0, w.St)
		if k := want[len(want)-1].K; k == ref.TBad || k == ref.TUnspec {
			w.Count("not_lexically_valid", 1)
			continue
		}
		w.Count("lexically_valid", 1)
		if d.count != 0 {
			return bad("mode %d: lexically valid text, but: %v", m, d.errs)
		}
		i := 0
		got := d.toks
		for _, t := range want {
			if t.K == ref.TTexComment && m&scanner.ScanComments == 0 && (i >= len(got) || got[i].Tok != token.TexComment) {
				continue
			}
			if i >= len(got) {
				return bad("mode %d: %d tokens, expected %v %q at %d", m, len(got), t.K, t.Lit, t.Off)
			}
			g := got[i]
			k, ok := adapt.Kind(g.Tok)
			if !ok || k != t.K || g.Off != t.Off || !wantLit(src, t, g.Lit) {
				return bad("mode %d, token %d: expected %v %q at %d, got %v %q at %d", m, i, t.K, src[t.Off:t.End], t.Off, g.Tok, g.Lit, g.Off)
			}
			i++
		}
		if i != len(got) {
			return bad("mode %d: %d surplus tokens", m, len(got)-i)
		}
		w.Outcome([]byte(fmt.Sprint(got)))
	}
	return ""
}

func init() {
	reg(&core.Check{ID: "C05", Rule: "every source of the families, in the four scanner modes: invariants for every byte sequence; for lexically valid text the tokens are compared with those of the model",
		Run: func(r *core.Run) {
			var fams []gen.Fam
			fams = append(fams, gen.Docs(r.Pick(1, 2)), gen.ValueDocs(r.Pick(1, 2)), gen.Vocab(), gen.URLDocs(1))
			fams = append(fams, gen.Lexical(gen.Contexts, r.Pick(4, 5))...)
			fams = append(fams, gen.Sequences(r.Pick(3, 4))...)
			fams = append(fams, gen.Bytes(gen.Contexts), gen.OddWords(gen.Contexts, true), gen.BytePairs(gen.Contexts))
			fams = append(fams, gen.PumpFam(r.Thorough()))
			runFams(r, fams, evalC05)
		}})
}
