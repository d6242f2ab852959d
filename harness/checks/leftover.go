package checks

import (
	"bytes"
	"fmt"
	gotok "go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verif/adapt"
	"verif/core"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/parser"
)

var leftoverMu sync.Mutex

// leftovers runs f some times and reports files that stay open and goroutines
// that keep running.
func leftovers(f func()) (what string) {
	leftoverMu.Lock()
	defer leftoverMu.Unlock()
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // it closes forgotten files
	fds := func() int {
		es, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			return 0
		}
		return len(es)
	}
	f() // opens what is opened once
	const times = 8
	before := fds()
	for i := 0; i < times; i++ {
		f()
	}
	if n := fds() - before; n >= times {
		return bad("%d calls left %d files open", times, n)
	}
	buf := make([]byte, 1<<20)
	for end := time.Now().Add(3 * time.Second); ; time.Sleep(5 * time.Millisecond) {
		st := buf[:runtime.Stack(buf, true)]
		i := bytes.Index(st, []byte("github.com/jschaf/bibtex"))
		if i < 0 {
			return ""
		}
		if time.Now().After(end) {
			return bad("%d calls left a goroutine running: %s", times+1, clip(st[i:]))
		}
	}
}

// leftDir has the files that are parsed for leftovers.
func leftDir(r *core.Run) string {
	dir := filepath.Join(r.Scratch, "left")
	os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
	for n, s := range map[string]string{"g.bib": "@a{k, x = {y}}\n", "b.bib": "@a{k,x=}\n@b{j}", "m.bib": strings.Repeat("@a{k,1=2}\n", 30), "e.bib": "", "l.bib": strings.Repeat("@a{k, x = {y}}\n", 9000)} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	return dir
}

// evalLeftFile: aux is the name of a file.
func evalLeftFile(w *core.W, aux string, _ []byte) string {
	path := filepath.Join(w.R.Scratch, "left", aux)
	for _, m := range srcModes {
		for _, kind := range []string{"name", "open file", "Biber"} {
			w.Trace++
			w.Trans++
			what := leftovers(func() {
				adapt.Guard(func() {
					switch kind {
					case "name":
						parser.ParseFile(gotok.NewFileSet(), path, nil, m)
					case "open file":
						if f, err := os.Open(path); err == nil {
							parser.ParseFile(gotok.NewFileSet(), "n.bib", f, m)
							f.Close()
						}
					case "Biber":
						if f, err := os.Open(path); err == nil {
							bibtex.New(bibtex.WithParserMode(m)).Parse(f)
							f.Close()
						}
					}
				})
			})
			if what != "" {
				return bad("mode %s, %s: %s", modeName(m), kind, what)
			}
		}
	}
	return ""
}

// evalLeftPackage: aux is names of files.
func evalLeftPackage(w *core.W, aux string, _ []byte) string {
	var paths []string
	for _, n := range strings.Fields(aux) {
		paths = append(paths, filepath.Join(w.R.Scratch, "left", n))
	}
	for _, m := range srcModes {
		w.Trace++
		w.Trans += int64(len(paths))
		if what := leftovers(func() { adapt.Guard(func() { parser.ParsePackage(paths, m) }) }); what != "" {
			return bad("mode %s: %s", modeName(m), what)
		}
	}
	return ""
}

var leftNames = []string{"g.bib", "b.bib", "m.bib", "e.bib", "l.bib", "sub", "missing.bib"}

func leftFiles(r *core.Run) {
	leftDir(r)
	r.ParChunk("leftovers", 1, func(w *core.W) {
		for _, n := range leftNames {
			w.Emit(n, nil)
		}
	}, evalLeftFile)
}

func leftPackages(r *core.Run) {
	leftDir(r)
	r.ParChunk("leftovers", 1, func(w *core.W) {
		w.Emit("", nil)
		for _, a := range leftNames {
			for _, b := range leftNames {
				w.Emit(fmt.Sprint(a, " ", b), nil)
				w.Emit(fmt.Sprint(a, " g.bib ", b, " e.bib"), nil)
			}
		}
	}, evalLeftPackage)
}
