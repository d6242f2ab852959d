package checks

import (
	"fmt"
	gotok "go/token"
	"strings"

	"verif/adapt"
	"verif/core"
	"verif/gen"

	"github.com/jschaf/bibtex/scanner"
)

// scanObs is what a client of the scanner sees of one source.
type scanObs struct {
	toks  []adapt.STok
	errs  []adapt.SErr
	count int
	lines int
	bad   string
}

func (o *scanObs) String() string {
	return fmt.Sprintf("tokens %v\nerrors %v count %d lines %d %s", o.toks, o.errs, o.count, o.lines, o.bad)
}

// reused is a scanner that is used several times.
type reused struct {
	scanner.Scanner
	late int // calls of an error handler after another one took its place
}

// observe initializes s on src and scans it; n < 0 means to the end, otherwise
// only n tokens.
func observe(r *reused, src []byte, m scanner.Mode, handler bool, n int) *scanObs {
	o := &scanObs{}
	s := &r.Scanner
	done := false
	defer func() { done = true }()
	fset := gotok.NewFileSet()
	f := fset.AddFile("t.bib", -1, len(src))
	var h scanner.ErrorHandler
	if handler {
		h = func(p gotok.Position, msg string) {
			if done {
				r.late++
			}
			o.errs = append(o.errs, adapt.SErr{Pos: p, Msg: msg})
		}
	}
	if p := adapt.Guard(func() {
		s.Init(f, src, h, m)
		for i := 0; i != n && i < len(src)+6; i++ {
			pos, tok, lit := s.Scan()
			o.toks = append(o.toks, adapt.STok{Tok: tok, Off: int(pos) - f.Base(), Lit: lit})
		}
	}); p != nil {
		o.bad = p.Error()
	}
	o.count = s.ErrorCount
	o.lines = f.LineCount()
	return o
}

// Sources that leave a scanner in different states, and that are scanned
// differently in different states.
var reuseSources = []string{
	"", "@a{k}", "@a{k,x=1}", "@a{k,x={", "@a{k,x={a{b", "@a{k,x={a{b{c}}}}", "@a{k,x=\"", "@a{k,x=\"a{b", "@a{k,x=\"a{b}\"}", "x={y} # \"z\"",
	"@a{k,x=", "@a{k,x=1#", "@a{", "@a(", "{x}", "{", "}", "\"q\"", "\"", "x", "= {b}", "={", "=\"", "%c\n%d", "%c", "@string{n=\"v, w~x\"}", "@preamble{{p}}",
	"@a{k,x=\"\\'e \\c c $m$\\alpha~b\"}", "@a{k,x={\\", "@a{k,x={$", "\xef\xbb\xbf@a{k}", "\x00", "@a{k,x={\x00\xff}}", "@\n1\n", "a\r\nb\n\n{c}\n", "@a{k,x={\\'1}}", "1a 2 (b)", "@a{k,x={a}}}\"{", "\"}\"", "={}}{\"",
	"\n\n\n", "ééé", "@a{k,x={{{{", "@a{k,x=\"{{{\"", "~,$ \\", "= \"a\" } {b}",
}

func init() {
	probe := []string{"{x}\"y\" z", "x={y}", "\"a{b}\"\n", "@a{k,x=\"q\"}", "}", "{a}#{b}%c\n\x00", "\xef\xbb\xbf{a}"}
	reg(&core.Check{ID: "C06", Rule: "every pair (and triple) of sources, modes, error handlers and numbers of tokens taken from the first; the tokens, literals, offsets, errors and counts of the re-initialized scanner are compared with those of a fresh one",
		Run: func(r *core.Run) {
			modes := scanModes
			pair := func(w *core.W, s *reused, what string, src []byte, m scanner.Mode, handler bool) string {
				got := observe(s, src, m, handler, -1).String()
				want := observe(&reused{}, src, m, handler, -1).String()
				w.Trace++
				w.Trans += int64(len(src))
				w.Outcome([]byte(want))
				if s.late > 0 {
					return bad("%s, then %q in mode %d: the handler of the earlier source is called", what, src, m)
				}
				if got != want {
					return bad("%s, then %q in mode %d\nreused %s\nfresh  %s", what, src, m, got, want)
				}
				return ""
			}
			// All pairs of the sources above. aux: index, mode, handler.
			r.ParChunk("pairs", 1, func(w *core.W) {
				for i := range reuseSources {
					for _, m := range modes {
						if !w.Emit(fmt.Sprintf("%d/%d", i, m), nil) {
							return
						}
					}
				}
			}, func(w *core.W, aux string, _ []byte) string {
				var i int
				var m scanner.Mode
				fmt.Sscanf(aux, "%d/%d", &i, &m)
				src := []byte(reuseSources[i])
				for n := 0; n <= len(src)+2; n++ {
					for j, next := range reuseSources {
						for _, m2 := range modes {
							for _, handler := range []bool{true, false} {
								s := &reused{}
								observe(s, src, m, j%2 == 0 || !handler, n)
								if v := pair(w, s, fmt.Sprintf("%d tokens of %q in mode %d", n, src, m), []byte(next), m2, handler); v != "" {
									return v
								}
							}
						}
					}
					w.Tick()
				}
				return ""
			})
			// Chains of three.
			r.ParChunk("chains", 1, func(w *core.W) {
				for i := range reuseSources {
					for j := range reuseSources {
						if !w.Emit(fmt.Sprintf("%d/%d", i, j), nil) {
							return
						}
					}
				}
			}, func(w *core.W, aux string, _ []byte) string {
				var i, j int
				fmt.Sscanf(aux, "%d/%d", &i, &j)
				ms := []scanner.Mode{0, scanner.ScanStrings | scanner.ScanComments}
				a, b := []byte(reuseSources[i]), []byte(reuseSources[j])
				step := r.Pick(3, 1)
				for n := 0; n <= len(a); n += step {
					for k := 0; k <= len(b); k += step {
						for _, m1 := range ms {
							for _, m2 := range ms {
								for pi, p := range probe {
									s := &reused{}
									observe(s, a, m1, true, n)
									observe(s, b, m2, false, k)
									if v := pair(w, s, fmt.Sprintf("%d tokens of %q, %d of %q, modes %d %d", n, a, k, b, m1, m2), []byte(p), ms[(pi+i)%2], pi%2 == 0); v != "" {
										return v
									}
								}
							}
						}
					}
				}
				return ""
			})
			// Every short text before, taken in part or entirely.
			for _, c := range gen.Contexts {
				switch c.Name {
				case "top", "body", "value", "quote", "brace", "quote-brace", "brace-brace", "math", "escape":
				default:
					continue
				}
				c := c
				r.Par("after-"+c.Name, func(w *core.W) {
					gen.Words(c.Pre, "", gen.Alphabet, 0, r.Pick(2, 3), func(src []byte) bool { return w.Emit("", src) })
				}, func(w *core.W, _ string, src []byte) string {
					for _, m := range []scanner.Mode{0, scanner.ScanStrings} {
						for n := strings.Count(c.Pre, "") / 3; n <= len(src)+2; n++ {
							for pi, p := range probe {
								s := &reused{}
								observe(s, src, m, true, n)
								if v := pair(w, s, fmt.Sprintf("%d tokens of %q in mode %d", n, src, m), []byte(p), []scanner.Mode{scanner.ScanStrings, 0}[(n+pi)%2], true); v != "" {
									return v
								}
							}
						}
					}
					return ""
				})
			}
			// The same file again.
			r.Par("same-file", func(w *core.W) {
				for _, s := range reuseSources {
					if !w.Emit("", []byte(s)) {
						return
					}
				}
			}, func(w *core.W, _ string, src []byte) string {
				for _, m := range modes {
					for n := 0; n <= len(src)+1; n++ {
						fset := gotok.NewFileSet()
						f := fset.AddFile("t.bib", -1, len(src))
						var d1, d2 drained
						s := &scanner.Scanner{}
						s.Init(f, src, func(p gotok.Position, msg string) {}, m)
						for i := 0; i < n; i++ {
							s.Scan()
						}
						s.Init(f, src, func(p gotok.Position, msg string) { d1.errs = append(d1.errs, adapt.SErr{Pos: p, Msg: msg}) }, m)
						if v := drain(s, f, src, &d1); v != "" {
							return v
						}
						if v := scanAll(src, m, &d2); v != "" {
							return v
						}
						w.Trace++
						// Line information of the first scan is still there.
						if fmt.Sprint(d1.toks, len(d1.errs), d1.count, d1.lines) != fmt.Sprint(d2.toks, len(d2.errs), d2.count, d2.lines) {
							return bad("same file again after %d tokens in mode %d: %v, fresh: %v", n, m, d1, d2)
						}
					}
				}
				return ""
			})
		}})
}
