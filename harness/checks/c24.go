package checks

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/core"
	"verif/gen"
)

// baseline has the result of each operation in a process of its own.
var baseline []string

func init() {
	auxMains["op"] = func(args []string) int {
		out := os.Stdout
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
		n := 0
		fmt.Sscan(args[0], &n)
		own, err := os.MkdirTemp(args[1], "own")
		if err != nil {
			return 2
		}
		e := &opEnv{}
		if strings.HasPrefix(ops[n].name, "parse") {
			e.own = own // nothing else runs before
		} else {
			e = newEnv(args[1], own, opDoc+opDoc2)
		}
		io.WriteString(out, runOp(ops[n], e)())
		return 0
	}
}

func freshResults(dir string) []string {
	res := make([]string, len(ops))
	done := make(chan error, len(ops))
	sem := make(chan bool, 8)
	for i := range ops {
		go func(i int) {
			sem <- true
			defer func() { <-sem }()
			b, err := exec.Command(os.Args[0], "aux", "op", fmt.Sprint(i), dir).Output()
			res[i] = string(b)
			if err != nil {
				err = fmt.Errorf("%s: %w", ops[i].name, err)
			}
			done <- err
		}(i)
	}
	for range ops {
		if err := <-done; err != nil {
			fmt.Fprintln(os.Stderr, "fresh process:", err)
		}
	}
	return res
}

// evalC24: aux is a sequence of operations' numbers; n*i repeats i n times.
func evalC24(w *core.W, aux string, _ []byte) string {
	own := filepath.Join(w.R.Scratch, "own")
	os.MkdirAll(own, 0o755)
	e := newEnv(filepath.Join(w.R.Scratch, "ops"), own, opDoc+opDoc2)
	type done struct {
		i    int
		show func() string
		was  string
	}
	var ds []done
	for _, f := range strings.Fields(aux) {
		n, i := 1, 0
		if strings.Contains(f, "*") {
			fmt.Sscanf(f, "%d*%d", &n, &i)
		} else {
			fmt.Sscan(f, &i)
		}
		for k := 0; k < n; k++ {
			show := runOp(ops[i], e)
			w.Trans++
			got := show()
			if k := strings.Index(got, "WRONG:"); k >= 0 {
				return bad("%s: operation %s: %s", opNames(aux), ops[i].name, clipStr(got[k:]))
			}
			if got != baseline[i] {
				return bad("after %s: operation %s gives\n%s\nin a process of its own it gives\n%s", opNames(aux), ops[i].name, clipStr(got), clipStr(baseline[i]))
			}
			if k < 3 || k == n-1 {
				ds = append(ds, done{i, show, got})
			}
		}
	}
	w.Trace++
	w.Outcome([]byte(aux))
	for _, d := range ds {
		if strings.HasPrefix(ops[d.i].name, "file-") {
			// shows only the tree, which doesn't depend on the file any more
		}
		if now := d.show(); now != d.was {
			return bad("%s: the result of operation %s was\n%s\nand has become\n%s", opNames(aux), ops[d.i].name, clipStr(d.was), clipStr(now))
		}
	}
	if now := treeText(e.tree); now != e.treeDump {
		return bad("%s: the tree that was only read has changed from\n%s\nto\n%s", opNames(aux), clipStr(e.treeDump), clipStr(now))
	}
	return ""
}

func opNames(aux string) string {
	var s []string
	for _, f := range strings.Fields(aux) {
		n, i := 1, 0
		if strings.Contains(f, "*") {
			fmt.Sscanf(f, "%d*%d", &n, &i)
			s = append(s, fmt.Sprintf("%d times %s", n, ops[i].name))
		} else {
			fmt.Sscan(f, &i)
			s = append(s, ops[i].name)
		}
	}
	return strings.Join(s, ", ")
}

func init() {
	reg(&core.Check{
		ID:      "C24",
		Workers: 1, // the histories are sequential
		Rule:    "every sequence of up to 3 (thorough: 4) out of some 50 operations, and every operation after up to 1000 repetitions of another, in one process whose history only grows; every result compared with that of the same operation alone in a fresh process, all results of a sequence once more at its end, and the shared tree",
		Run: func(r *core.Run) {
			dir := filepath.Join(r.Scratch, "ops")
			opFiles(dir, opDoc, opDoc2, opBad)
			baseline = freshResults(dir)
			second := freshResults(dir)
			for i := range ops {
				if baseline[i] != second[i] {
					r.Report(core.CaseID{Family: "fresh", Aux: fmt.Sprint(i), What: fmt.Sprintf("operation %s gives different results in two fresh processes:\n%s\n%s", ops[i].name, baseline[i], second[i])})
					return
				}
			}
			if os.Getenv("VERIF_SHOW") != "" {
				for i := range ops {
					fmt.Fprintf(os.Stderr, "%d %s: %s\n", i, ops[i].name, clipStr(baseline[i]))
				}
			}
			var syms, fast []string
			var huge []string
			var wide []int
			for i := range ops {
				if ops[i].wide {
					wide = append(wide, i)
					continue
				}
				if ops[i].huge {
					huge = append(huge, fmt.Sprintf("%d ", i))
					continue
				}
				if !ops[i].slow {
					fast = append(fast, fmt.Sprintf("%d ", i))
				}
				syms = append(syms, fmt.Sprintf("%d ", i))
			}
			seq := func(syms []string, min, max int) func(w *core.W) {
				return func(w *core.W) {
					gen.Words("", "", syms, min, max, func(b []byte) bool { return w.Emit(string(b), nil) })
				}
			}
			r.ParChunk("pairs", 1, seq(syms, 1, 2), evalC24)
			r.ParChunk("repeated", 1, func(w *core.W) {
				for _, n := range []int{5, 40, r.Pick(260, 1100)} {
					for i := range ops {
						if ops[i].huge || ops[i].wide || ops[i].slow && n > 40 {
							continue
						}
						for j := range ops {
							if ops[j].huge || ops[j].wide {
								continue
							}
							// Each pair once; the history grows anyway.
							if n > 40 && (i*7+j)%len(ops) > r.Pick(3, 12) {
								continue
							}
							if !w.Emit(fmt.Sprintf("%d*%d %d %d", n, i, j, i), nil) {
								return
							}
						}
					}
				}
			}, evalC24)
			r.ParChunk("huge", 1, func(w *core.W) {
				seq(huge, 1, 2)(w)
				for i, o := range syms {
					for k, h := range huge {
						if (i+k)%len(huge) < r.Pick(1, len(huge)) {
							w.Emit(h+o+h, nil)
						}
					}
				}
			}, evalC24)
			// Every ordered pair of wide operations, each of them next to the other
			// ones, and each twice in a row.
			r.ParChunk("wide", 1, func(w *core.W) {
				for k, i := range wide {
					aux := fmt.Sprintf("%d %d", i, i)
					for n, j := range wide[k+1:] {
						if (ops[i].hist || ops[j].hist) && n > 0 && (i+j)%11 > 0 {
							continue // long ones
						}
						aux += fmt.Sprintf(" %d %d", j, i)
						if len(aux) > 400 {
							if !w.Emit(aux, nil) {
								return
							}
							aux = fmt.Sprint(i)
						}
					}
					if !w.Emit(aux, nil) {
						return
					}
				}
				for _, i := range wide {
					aux := fmt.Sprint(i)
					for j, o := range ops {
						if !o.slow && (!ops[i].hist || j%6 == 0) {
							aux += fmt.Sprintf(" %d %d", j, i)
						}
					}
					if !w.Emit(aux, nil) {
						return
					}
				}
			}, evalC24)
			r.ParChunk("triples", 1, seq(fast, 3, 3), evalC24)
			if r.Thorough() {
				var some []string
				for i, o := range ops {
					if !strings.HasPrefix(o.name, "parse-") && !strings.HasSuffix(o.name, "-own") && !o.slow {
						some = append(some, fmt.Sprintf("%d ", i))
					}
				}
				r.ParChunk("quadruples", 1, seq(some, 4, 4), evalC24)
			}
		},
	})
}
