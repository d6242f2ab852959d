package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"verif/adapt"
	"verif/core"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
)

// rendererOpts is a sequence of options, each a kind and whether it sets a
// renderer ("+") or none ("-"), for example "3+ 17- 3+"; a leading "all" first
// sets one for every kind.
func rendererOpts(aux string) (kinds []ast.NodeKind, set []bool) {
	for _, f := range strings.Fields(aux) {
		if f == "all" {
			for k := 0; k < nKinds; k++ {
				kinds, set = append(kinds, ast.NodeKind(k)), append(set, true)
			}
			continue
		}
		k := 0
		fmt.Sscan(f[:len(f)-1], &k)
		kinds, set = append(kinds, ast.NodeKind(k)), append(set, f[len(f)-1] == '+')
	}
	return
}

// optionRoots are one small tree for every kind, and one with most of them.
var optionRoots = func() (codes []string) {
	seen := map[ast.NodeKind]bool{}
	adapt.Trees(walkRoots, 3, walkAll, func(code []byte) bool {
		if k := adapt.Tree(code).Kind(); !seen[k] && !hasBad(adapt.Tree(code)) {
			seen[k] = true
			codes = append(codes, string(code))
		}
		return true
	})
	return append(codes, "pj"+"Ft4aom,e"+"At#i#n2$~"+"GtLUasu^t-")
}()

// evalOptions checks Bibers made with the options, in order and in reverse.
func evalOptions(w *core.W, aux string, _ []byte) string {
	kinds, set := rendererOpts(aux)
	type rec struct {
		opt int
		c   call
	}
	var got []rec
	opts := make([]bibtex.Option, len(kinds))
	for i := range kinds {
		i := i
		if !set[i] {
			opts[i] = bibtex.WithRenderer(kinds[i], nil)
			continue
		}
		opts[i] = bibtex.WithRenderer(kinds[i], func(wr io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
			got = append(got, rec{i, mkCall(n, enter)})
			return ast.WalkContinue, nil
		})
	}
	rev := make([]bibtex.Option, len(opts))
	for i, o := range opts {
		rev[len(opts)-1-i] = o
	}
	bibs := []*bibtex.Biber{bibtex.New(opts...), bibtex.New(rev...)}
	for bi, b := range bibs {
		// The last option for a kind counts.
		var last [64]int
		for i := range last {
			last[i] = -1
		}
		for i := range kinds {
			if bi == 1 {
				i = len(kinds) - 1 - i
			}
			last[kinds[i]] = i
		}
		for _, code := range optionRoots {
			root := adapt.Tree([]byte(code))
			var want []rec
			fails, changed := false, false
			var model func(n ast.Node)
			model = func(n ast.Node) {
				i := last[n.Kind()]
				if fails {
					return
				}
				if i >= 0 && !set[i] {
					fails = true
					return
				}
				if i >= 0 {
					changed = true
					want = append(want, rec{i, mkCall(n, true)})
				}
				for _, k := range kids(n) {
					if model(k); fails {
						return
					}
				}
				if i >= 0 {
					want = append(want, rec{i, mkCall(n, false)})
				}
			}
			model(root)
			got = got[:0]
			out := &failWriter{at: -1}
			var err error
			if p := adapt.Guard(func() { err = b.Render(out, root) }); p != nil {
				return bad("options %s, reversed: %v, tree %s: %v", aux, bi == 1, code, p)
			}
			w.Trace++
			w.Trans += int64(len(got))
			if fails != (err != nil) {
				return bad("options %s, reversed: %v, tree %s: a renderer is missing: %v, error: %v", aux, bi == 1, code, fails, err)
			}
			for i := 0; i < len(want) || i < len(got); i++ {
				if i >= len(want) || i >= len(got) || want[i].opt != got[i].opt || want[i].c.id != got[i].c.id || want[i].c.enter != got[i].c.enter {
					return bad("options %s, reversed: %v, tree %s: call %d differs\nwant %v\ngot  %v", aux, bi == 1, code, i, want, got)
				}
			}
			if !fails && !changed {
				def := &failWriter{at: -1}
				if err := defaultBiber.Render(def, root); err != nil || !bytes.Equal(def.buf, out.buf) {
					return bad("options %s, reversed: %v, tree %s: rendered %q, not %q as without them", aux, bi == 1, code, clip(out.buf), clip(def.buf))
				}
			}
		}
	}
	w.Outcome([]byte(fmt.Sprint(len(got))))
	return ""
}

// runOptions tries all sequences of up to 3 renderer options.
func runOptions(r *core.Run) {
	r.Par("options", func(w *core.W) {
		for _, pre := range []string{"", "all "} {
			var rec func(aux string, n int) bool
			rec = func(aux string, n int) bool {
				if !w.Emit(aux, nil) {
					return false
				}
				for k := 0; k < nKinds && n > 0; k++ {
					for _, sign := range []string{"+", "-"} {
						if !rec(fmt.Sprintf("%s %d%s", aux, k, sign), n-1) {
							return false
						}
					}
				}
				return true
			}
			rec(pre, 3)
		}
	}, evalOptions)
}
