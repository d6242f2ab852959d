package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/iotest"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// script is a reader that follows a script: chunks of the source, which may be
// empty, and what ends it.
type script struct {
	src    []byte
	chunks []int // sizes
	end    error // io.EOF or a failure
	with   bool  // the last chunk comes together with the end
	i      int
	used   int // of the current chunk
	off    int
	reads  int
	done   bool
}

func (s *script) Read(p []byte) (n int, err error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.done || s.i >= len(s.chunks) {
		s.done = true
		return 0, s.end
	}
	n = copy(p, s.src[s.off:s.off+s.chunks[s.i]-s.used])
	s.off += n
	s.used += n
	if s.used == s.chunks[s.i] {
		s.i, s.used = s.i+1, 0
		if s.with && s.i == len(s.chunks) {
			s.done = true
			err = s.end
		}
	}
	// The rest of p is scratch space.
	for j := n; j < len(p) && j < n+40; j++ {
		p[j] = '}'
	}
	return n, err
}

// valueReader is a reader that isn't a pointer.
type valueReader struct{ s *script }

func (v valueReader) Read(p []byte) (int, error) { return v.s.Read(p) }

var srcModes = []parser.Mode{raw, parsed, parsed | parser.ParseComments | parser.AllErrors}

// outcome is what a parse gives, for comparison.
func outcome(f *ast.File, err error) string {
	if f == nil {
		return fmt.Sprintf("nil file, error %v", err)
	}
	c := adapt.Conv{Base: 1}
	b := ref.AppendDoc([]byte(f.Name+" "), c.File(f), ref.DPos|ref.DRaw|ref.DDoc)
	if l, ok := adapt.ErrList(err); ok {
		for _, e := range l {
			b = append(b, e.Error()...)
			b = append(b, '\n')
		}
	} else if err != nil {
		b = append(b, err.Error()...)
	}
	return string(b)
}

// refParse is the outcome of parsing the bytes as a slice.
func refParse(name string, src []byte, m parser.Mode) (string, *adapt.Panic) {
	var f *ast.File
	var err error
	p := adapt.Guard(func() { f, err = parser.ParseFile(gotok.NewFileSet(), name, append([]byte{}, src...), m) })
	if p != nil {
		return "", p
	}
	return outcome(f, err), nil
}

// Readers with methods besides Read that say nothing about what is to be read.
type (
	lenReader struct {
		io.Reader
		n int
	}
	sizeReader struct {
		io.Reader
		n int64
	}
	failingCloser struct{ io.Reader }
	failingSeeker struct{ io.Reader }
	otherMethods  struct{ io.Reader }
	fileLike      struct{ io.Reader }
	packets       struct{ parts []string }
)

func (r lenReader) Len() int                            { return r.n }
func (r lenReader) Cap() int                            { return r.n }
func (r sizeReader) Size() int64                        { return r.n }
func (failingCloser) Close() error                      { return errRead }
func (failingSeeker) Seek(int64, int) (int64, error)    { return 0, errRead }
func (failingSeeker) ReadAt([]byte, int64) (int, error) { return 0, errRead }
func (otherMethods) String() string                     { return "@other{string}" }
func (otherMethods) Bytes() []byte                      { return []byte("@other{bytes}") }
func (otherMethods) Text() string                       { return "@other{text}" }
func (otherMethods) Error() string                      { return "no error" }
func (otherMethods) Reset()                             {}
func (fileLike) Name() string                           { return "/nonexistent/other.bib" }
func (fileLike) Stat() (fs.FileInfo, error)             { return nil, errRead }
func (fileLike) Close() error                           { return nil }

// Read gives the next part; an empty one isn't the end.
func (p *packets) Read(b []byte) (int, error) {
	if len(p.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.parts[0])
	if p.parts[0] = p.parts[0][n:]; p.parts[0] == "" {
		p.parts = p.parts[1:]
	}
	return n, nil
}

// sameSource compares parsing from mk's sources with parsing src.
func sameSource(w *core.W, src []byte, what string, mk func() interface{}) string {
	for _, m := range srcModes {
		want, p := refParse("n.bib", src, m)
		if p != nil {
			return "" // another property
		}
		var f *ast.File
		var err error
		s := mk()
		if p := adapt.Guard(func() { f, err = parser.ParseFile(gotok.NewFileSet(), "n.bib", s, m) }); p != nil {
			return bad("%s, mode %s: %v", what, modeName(m), p)
		}
		w.Trace++
		got := outcome(f, err)
		w.Outcome([]byte(want))
		if got != want {
			return bad("%s, mode %s:\ngot  %s\nwant %s", what, modeName(m), clipStr(got), clipStr(want))
		}
	}
	// A Biber.
	for i, b := range bibers {
		rd, ok := mk().(io.Reader)
		if !ok {
			break
		}
		var f, g *ast.File
		var err, err2 error
		if p := adapt.Guard(func() {
			f, err = b.Parse(rd)
			g, err2 = b.Parse(bytes.NewReader(append([]byte{}, src...)))
		}); p != nil {
			return bad("%s, Biber %d: %v", what, i, p)
		}
		if x, y := outcome(f, err), outcome(g, err2); x != y {
			return bad("%s, Biber %d:\ngot  %s\nwant %s", what, i, clipStr(x), clipStr(y))
		}
	}
	return ""
}

// evalSchedule: aux is "style sizes..."; style 1 has the end with the last chunk.
func evalSchedule(w *core.W, aux string, src []byte) string {
	var chunks []int
	for _, f := range strings.Fields(aux[1:]) {
		n := 0
		fmt.Sscan(f, &n)
		chunks = append(chunks, n)
	}
	w.Trans += int64(len(chunks))
	return sameSource(w, src, "reads of "+aux, func() interface{} {
		return &script{src: src, chunks: chunks, end: io.EOF, with: aux[0] == '1'}
	})
}

func sizes(n, size int) []int {
	var c []int
	for ; n > size; n -= size {
		c = append(c, size)
	}
	return append(c, n)
}

// evalChunked: aux is "style size": reads of one size.
func evalChunked(w *core.W, aux string, src []byte) string {
	style, size := 0, 0
	fmt.Sscan(aux, &style, &size)
	return sameSource(w, src, "reads of "+aux, func() interface{} {
		return &script{src: src, chunks: sizes(len(src), size), end: io.EOF, with: style == 1}
	})
}

var errRead = errors.New("the reader's error")

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

var readErrs = []error{errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe, tempErr{}, io.ErrNoProgress, fs.ErrNotExist, io.ErrShortBuffer, &fs.PathError{Op: "read", Path: "x", Err: errRead},
	fmt.Errorf("cut: %w", io.EOF), &fs.PathError{Op: "read", Path: "x", Err: io.EOF}, &fs.PathError{Op: "read", Path: "x", Err: syscall.EINTR}, syscall.EAGAIN, os.ErrDeadlineExceeded, context.Canceled, eofLike{}, errors.Join(io.EOF, errRead), bufio.ErrTooLong, bytes.ErrTooLarge, errors.New("EOF")}

// eofLike is an error that says that it is io.EOF.
type eofLike struct{}

func (eofLike) Error() string        { return "EOF" }
func (eofLike) Is(target error) bool { return target == io.EOF }

// evalReadFault: aux is "position size with error": reading fails at position.
func evalReadFault(w *core.W, aux string, src []byte) string {
	var at, size, with, kind int
	fmt.Sscan(aux, &at, &size, &with, &kind)
	e := readErrs[kind]
	mk := func() *script {
		return &script{src: src, chunks: sizes(at, size), end: e, with: with == 1}
	}
	check := func(what string, f *ast.File, err error) string {
		if f != nil {
			return bad("%s: the read failed at byte %d, but there is a tree", what, at)
		}
		if !errors.Is(err, e) {
			return bad("%s: the read failed at byte %d with %q, but the error is: %v", what, at, e, err)
		}
		return ""
	}
	for _, m := range srcModes {
		var f *ast.File
		var err error
		if p := adapt.Guard(func() { f, err = parser.ParseFile(gotok.NewFileSet(), "n.bib", valueReader{mk()}, m) }); p != nil {
			return bad("mode %s: %v", modeName(m), p)
		}
		w.Trace++
		w.Trans++
		if s := check("mode "+modeName(m), f, err); s != "" {
			return s
		}
	}
	for i, b := range bibers {
		var f *ast.File
		var err error
		if p := adapt.Guard(func() { f, err = b.Parse(mk()) }); p != nil {
			return bad("Biber %d: %v", i, p)
		}
		if s := check(fmt.Sprintf("Biber %d", i), f, err); s != "" {
			return s
		}
	}
	w.Outcome([]byte(e.Error()))
	return ""
}

// evalSources tries every type of source.
func evalSources(w *core.W, _ string, src []byte) string {
	s := string(src)
	dir := filepath.Join(w.R.Scratch, fmt.Sprintf("src%d", w.ID))
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, "n.bib")
	if err := os.WriteFile(path, src, 0o644); err != nil {
		panic(err)
	}
	const pad = "}@\"{\\é"
	big := []byte(pad + s + pad + pad)
	orig := string(big)
	view := func() []byte { return big[len(pad) : len(pad)+len(s)] }
	type source struct {
		name string
		mk   func() interface{}
	}
	half := len(s) / 2
	srcs := []source{
		{"string", func() interface{} { return s }},
		{"slice with spare capacity", func() interface{} { return view() }},
		{"full slice", func() interface{} { return view()[:len(s):len(s)] }},
		{"buffer", func() interface{} { return bytes.NewBuffer(view()) }},
		{"buffer string", func() interface{} { return bytes.NewBufferString(s) }},
		{"used buffer", func() interface{} {
			b := bytes.NewBuffer(big[: len(pad)+len(s) : len(pad)+len(s)])
			b.Next(len(pad))
			return b
		}},
		{"written buffer", func() interface{} { b := &bytes.Buffer{}; b.WriteString(s[:half]); b.WriteString(s[half:]); return b }},
		{"bytes reader", func() interface{} { return bytes.NewReader(view()) }},
		{"used bytes reader", func() interface{} { r := bytes.NewReader([]byte(pad + s)); r.Seek(int64(len(pad)), 0); return r }},
		{"strings reader", func() interface{} { return strings.NewReader(s) }},
		{"used strings reader", func() interface{} { r := strings.NewReader(pad + s); io.ReadFull(r, make([]byte, len(pad))); return r }},
		{"bufio", func() interface{} { return bufio.NewReaderSize(strings.NewReader(s), 16) }},
		{"peeked bufio", func() interface{} { r := bufio.NewReaderSize(strings.NewReader(s), 16); r.Peek(5); return r }},
		{"one byte", func() interface{} { return iotest.OneByteReader(strings.NewReader(s)) }},
		{"half", func() interface{} { return iotest.HalfReader(strings.NewReader(s)) }},
		{"data with EOF", func() interface{} { return iotest.DataErrReader(strings.NewReader(s)) }},
		{"limit", func() interface{} { return io.LimitReader(strings.NewReader(s+pad), int64(len(s))) }},
		{"section", func() interface{} {
			return io.NewSectionReader(strings.NewReader(pad+s+pad), int64(len(pad)), int64(len(s)))
		}},
		{"multi", func() interface{} {
			return io.MultiReader(strings.NewReader(s[:half]), strings.NewReader(""), strings.NewReader(s[half:]))
		}},
		{"tee", func() interface{} { return io.TeeReader(strings.NewReader(s), io.Discard) }},
		{"value", func() interface{} { return valueReader{&script{src: src, chunks: sizes(len(src), 5), end: io.EOF}} }},
		{"read writer", func() interface{} { return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(s)), nil) }},
		{"closer", func() interface{} { return io.NopCloser(strings.NewReader(s)) }},
		{"closer that fails", func() interface{} { return failingCloser{strings.NewReader(s)} }},
		{"seeker that fails", func() interface{} { return failingSeeker{strings.NewReader(s)} }},
		{"other methods", func() interface{} { return otherMethods{strings.NewReader(s)} }},
		{"packets", func() interface{} { return &packets{[]string{s[:half], "", s[half:]}} }},
		{"file-like", func() interface{} { return fileLike{strings.NewReader(s)} }},
	}
	if len(s) == 0 {
		srcs = append(srcs, source{"nil slice", func() interface{} { return []byte(nil) }}, source{"empty slice", func() interface{} { return []byte{} }},
			source{"zero buffer", func() interface{} { return new(bytes.Buffer) }}, source{"nil buffer", func() interface{} { return bytes.NewBuffer(nil) }},
			source{"read buffer", func() interface{} { b := bytes.NewBufferString(pad); b.Next(len(pad)); return b }})
	}
	for _, n := range []int{0, 1, half, len(s) - 1, len(s) + 1} {
		n := n
		srcs = append(srcs, source{fmt.Sprintf("length %d", n), func() interface{} { return lenReader{strings.NewReader(s), n} }},
			source{fmt.Sprintf("size %d", n), func() interface{} { return sizeReader{strings.NewReader(s), int64(n)} }})
	}
	for _, x := range srcs {
		if what := sameSource(w, src, x.name, x.mk); what != "" {
			return what
		}
		if string(big) != orig {
			return bad("source %s: the caller's bytes were changed", x.name)
		}
	}
	for _, m := range srcModes {
		// Files: open, partly read, and named.
		want, p := refParse(path, src, m)
		if p != nil {
			return ""
		}
		for _, kind := range []string{"named file", "named file, unclean path", "open file", "seeked file", "used file", "file to write", "pipe", "pipe file", "relative path", "symbolic link", "named pipe"} {
			var in interface{}
			name := path
			var rest func()
			switch kind {
			case "named file, unclean path":
				name = dir + "/./n.bib"
			case "open file", "seeked file":
				f, err := os.Open(path)
				if err != nil {
					panic(err)
				}
				if kind == "seeked file" {
					f.Seek(0, io.SeekEnd)
					f.Seek(0, io.SeekStart)
				}
				rest = func() { f.Close() }
				in = f
			case "used file", "file to write":
				used := filepath.Join(dir, "used.bib")
				f, err := os.OpenFile(used, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o644)
				if err != nil {
					panic(err)
				}
				f.WriteString(pad)
				f.Write(src)
				f.Seek(int64(len(pad)), io.SeekStart)
				if kind == "used file" {
					// The file is longer than it was.
					f.Close()
					if f, err = os.Open(used); err != nil {
						panic(err)
					}
					io.ReadFull(f, make([]byte, len(pad)))
				}
				rest = func() { f.Close() }
				in = f
			case "pipe file":
				pr, pw, err := os.Pipe()
				if err != nil {
					panic(err)
				}
				go func() {
					pw.Write(src[:half])
					pw.Write(src[half:])
					pw.Close()
				}()
				rest = func() { pr.Close() }
				in = pr
			case "relative path":
				wd, err := os.Getwd()
				if err != nil {
					panic(err)
				}
				if name, err = filepath.Rel(wd, path); err != nil {
					panic(err)
				}
			case "symbolic link":
				name = filepath.Join(dir, "link.bib")
				os.Remove(name)
				if err := os.Symlink("n.bib", name); err != nil {
					panic(err)
				}
			case "named pipe":
				name = filepath.Join(dir, "fifo.bib")
				os.Remove(name)
				if err := syscall.Mkfifo(name, 0o644); err != nil {
					continue // not possible here
				}
				opened, done := make(chan bool), make(chan bool)
				go func() {
					defer close(done)
					pw, err := os.OpenFile(name, os.O_WRONLY, 0)
					close(opened)
					if err == nil {
						pw.Write(src)
						pw.Close()
					}
				}()
				rest = func() {
					select {
					case <-opened:
					default: // the parser didn't open it
						if both, err := os.OpenFile(name, os.O_RDWR, 0); err == nil {
							<-opened
							both.Close()
						}
					}
					<-done
				}
			case "pipe":
				pr, pw := io.Pipe()
				go func() {
					pw.Write(src[:half])
					pw.Write(src[half:])
					pw.Close()
				}()
				rest = func() { pr.Close() }
				in = pr
			}
			var f *ast.File
			var err error
			p := adapt.Guard(func() { f, err = parser.ParseFile(gotok.NewFileSet(), name, in, m) })
			if rest != nil {
				rest()
			}
			if p != nil {
				return bad("%s, mode %s: %v", kind, modeName(m), p)
			}
			w.Trace++
			if got := strings.ReplaceAll(outcome(f, err), name, path); got != want {
				return bad("%s, mode %s:\ngot  %s\nwant %s", kind, modeName(m), clipStr(got), clipStr(want))
			}
		}
		// The tree doesn't share memory with the caller's bytes.
		mine := append([]byte{}, src...)
		f, err := parser.ParseFile(gotok.NewFileSet(), path, mine, m)
		if !bytes.Equal(mine, src) {
			return bad("mode %s: the caller's bytes were changed to %q", modeName(m), clip(mine))
		}
		for i := range mine {
			mine[i] = '}'
		}
		if got := outcome(f, err); got != want {
			return bad("mode %s: the tree changed with the caller's bytes:\ngot  %s\nwant %s", modeName(m), clipStr(got), clipStr(want))
		}
		buf := bytes.NewBuffer(append([]byte{}, src...))
		f, err = parser.ParseFile(gotok.NewFileSet(), path, buf, m)
		buf.Reset()
		for i := 0; i < len(src); i++ {
			buf.WriteByte('}')
		}
		if got := outcome(f, err); got != want {
			return bad("mode %s: the tree changed with the caller's buffer:\ngot  %s\nwant %s", modeName(m), clipStr(got), clipStr(want))
		}
	}
	return ""
}

// evalUnsupported: aux is the number of a source that can't be read.
func evalUnsupported(w *core.W, aux string, _ []byte) string {
	n := 0
	fmt.Sscan(aux, &n)
	dir := filepath.Join(w.R.Scratch, "un")
	os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
	os.WriteFile(filepath.Join(dir, "n.bib"), []byte("@a{k}"), 0o644)
	type tc struct {
		name string
		src  interface{}
		is   error
	}
	ok := filepath.Join(dir, "n.bib") // exists, but isn't what is to be read
	cases := []tc{
		{ok, 1, nil}, {ok, (*bytes.Buffer)(nil), nil}, {ok, struct{}{}, nil}, {ok, []int{1}, nil}, {ok, map[string]string{}, nil}, {ok, 'x', nil}, {ok, true, nil}, {ok, 1.5, nil},
		{ok, errors.New("x"), nil}, {ok, func() {}, nil}, {ok, &struct{ x int }{}, nil}, {ok, [3]byte{'@', 'a', '{'}, nil}, {ok, new(string), nil}, {ok, &[]byte{}, nil}, {ok, make(chan int), nil}, {ok, bytes.Buffer{}, nil},
		{filepath.Join(dir, "missing.bib"), nil, fs.ErrNotExist}, {filepath.Join(dir, "sub"), nil, errors.New("any")}, {"", nil, fs.ErrNotExist}, {dir + "/n.bib/x", nil, errors.New("any")}, {dir + "/\x00", nil, errors.New("any")},
	}
	if n >= len(cases) {
		return ""
	}
	c := cases[n]
	for _, m := range srcModes {
		var f *ast.File
		var err error
		if p := adapt.Guard(func() { f, err = parser.ParseFile(gotok.NewFileSet(), c.name, c.src, m) }); p != nil {
			return bad("source %T, file %q: %v", c.src, c.name, p)
		}
		w.Trace++
		w.Trans++
		if err == nil || f != nil {
			return bad("source %T, file %q can't be read, but the result is %v, error %v", c.src, c.name, f, err)
		}
		if c.is == fs.ErrNotExist && !errors.Is(err, fs.ErrNotExist) {
			return bad("file %q is missing, but the error is: %v", c.name, err)
		}
	}
	w.Outcome([]byte(aux))
	return ""
}

// compositions calls f with every way to split n bytes into reads, with up to
// empties empty reads.
func compositions(n, empties int, f func(chunks []int) bool) bool {
	for mask := 0; mask < 1<<max(n-1, 0); mask++ {
		var parts []int
		size := 0
		for i := 0; i < n; i++ {
			size++
			if mask>>i&1 != 0 || i == n-1 {
				parts = append(parts, size)
				size = 0
			}
		}
		var rec func(at, left int, cs []int) bool
		rec = func(at, left int, cs []int) bool {
			if at == len(parts) {
				for e := 0; e <= left; e++ {
					if !f(append(cs[:len(cs):len(cs)], make([]int, e)...)) {
						return false
					}
				}
				return true
			}
			for e := 0; e <= left; e++ {
				c := append(append(cs[:len(cs):len(cs)], make([]int, e)...), parts[at])
				if !rec(at+1, left-e, c) {
					return false
				}
			}
			return true
		}
		if !rec(0, empties, nil) {
			return false
		}
	}
	return true
}

func schedAux(style int, cs []int) string {
	b := []byte{byte('0' + style)}
	for _, c := range cs {
		b = fmt.Append(b, " ", c)
	}
	return string(b)
}

// sizedDoc has exactly n bytes, which depend on their positions.
func sizedDoc(n int) []byte {
	var b []byte
	for i := 0; ; i++ {
		d := fmt.Sprintf("@a%d{k%d, é = {漢 %d \\& {x}},\r\n y = \"%d\" # z}\n", i, i, i, i)
		if len(b)+len(d) > n {
			break
		}
		b = append(b, d...)
	}
	if len(b) < n {
		b = append(b, '%')
	}
	for i := 0; len(b) < n; i++ {
		b = append(b, byte('a'+i%26))
	}
	return bytes.ReplaceAll(b, []byte("é ="), []byte("e  ="))
}

var shortDocs = []string{"", "@a{b}", "@a{é}", "\ufeff@a{}", "@s{=", "@a{\"", "%x\r\n", "{", "@\x00", "\xff", "@a(b)", "@a{b\n}", "\xc3\xa9", "\ufeff", "%é\n", "@a{\r}", "\ufeff%", "@a{}@"}

func mediumDocs() (ds []string) {
	for _, d := range gen.Decls {
		ds = append(ds, string(gen.Spaced(d, "")), string(gen.Spaced(d, "\r\n")))
	}
	for _, v := range gen.Values {
		ds = append(ds, "@a{k,x="+string(gen.Plain(v))+"}")
	}
	return append(ds, "\ufeff% c\n% é\n@a{k}\n", "@a{k, x = {\n", "@a{k} junk @b{j}", "@a{\xff}@b{k}", "@string{s=\"\x00\"}", "@a{k,x={漢字 \ufeff}}", strings.Repeat("@{ ", 15))
}

func init() {
	reg(&core.Check{
		ID:   "C21",
		Rule: "every split of short sources into reads with up to 2 empty ones, all pairs of cuts of medium ones, every chunk size for long ones and every size near powers of two, end of file alone and with data; every type of source; every position of a failing read, with and without data, 8 errors; every unsupported source; compared with parsing the same bytes as a slice (tree, positions, comments, errors), in 3 modes and through Bibers",
		Run: func(r *core.Run) {
			r.Par("schedules", func(w *core.W) {
				for _, d := range shortDocs {
					if len(d) > r.Pick(8, 10) {
						continue
					}
					for style := 0; style < 2; style++ {
						if !compositions(len(d), 2, func(cs []int) bool { return w.Emit(schedAux(style, cs), []byte(d)) }) {
							return
						}
					}
				}
			}, evalSchedule)
			r.Par("words", func(w *core.W) {
				gen.Words("", "", gen.Alphabet, 0, r.Pick(3, 4), func(b []byte) bool {
					for style := 0; style < 2; style++ {
						if !compositions(len(b), 1, func(cs []int) bool { return w.Emit(schedAux(style, cs), b) }) {
							return false
						}
					}
					return true
				})
			}, evalSchedule)
			r.Par("cuts", func(w *core.W) {
				for _, d := range mediumDocs() {
					n := len(d)
					for i := 0; i <= n; i++ {
						for j := i; j <= n; j++ {
							if r.Thorough() || j == i || j <= i+4 || j >= n-2 {
								for style := 0; style < 2; style++ {
									if !w.Emit(schedAux(style, []int{i, j - i, n - j}), []byte(d)) {
										return
									}
								}
							}
						}
					}
				}
			}, evalSchedule)
			r.Par("sources", func(w *core.W) {
				for _, d := range shortDocs {
					w.Emit("", []byte(d))
				}
				for _, d := range mediumDocs() {
					w.Emit("", []byte(d))
				}
				for _, n := range []int{511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 1 << 17} {
					w.Emit("", sizedDoc(n))
				}
				gen.Words("", "", gen.Alphabet, 0, r.Pick(2, 2), func(b []byte) bool { return w.Emit("", b) })
				gen.Mutations(1).Gen(func(b []byte) bool { return w.Emit("", b) })
			}, evalSources)
			r.Par("chunks", func(w *core.W) {
				for _, n := range []int{1500, 4096, 5000} {
					d := sizedDoc(n)
					for size := 1; size <= 1100; size++ {
						if !r.Thorough() && size > 70 && (size < 500 || size > 520) && size < 1020 {
							continue
						}
						for _, style := range []string{"0", "1"} {
							w.Emit(fmt.Sprintf("%s %d", style, size), d)
						}
					}
				}
				for n := 0; n <= r.Pick(1100, 4300); n++ {
					d := sizedDoc(n)
					for _, size := range []int{1, 512, 1 << 20} {
						w.Emit(fmt.Sprintf("%d %d", n&1, size), d)
					}
				}
				for _, p := range []int{1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 20} {
					for n := p - 2; n <= p+2; n++ {
						for _, size := range []int{1, 511, 512, 4096, 1 << 22} {
							if r.Thorough() || n < 1<<17 || size > 4000 && n >= p && n < p+2 {
								w.Emit(fmt.Sprintf("%d %d", n&1, size), sizedDoc(n))
							}
						}
					}
				}
			}, evalChunked)
			r.Par("faults", func(w *core.W) {
				docs := append(append([]string{}, shortDocs...), mediumDocs()...)
				for _, d := range docs {
					for at := 0; at <= len(d); at++ {
						for _, size := range []int{1, 3, 1000} {
							for with := 0; with < 2; with++ {
								for k := range readErrs {
									if k > 0 && size == 3 {
										continue
									}
									if !w.Emit(fmt.Sprintf("%d %d %d %d", at, size, with, k), []byte(d)) {
										return
									}
								}
							}
						}
					}
				}
				d := sizedDoc(70000)
				for _, at := range []int{511, 512, 513, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 70000} {
					for with := 0; with < 2; with++ {
						for k := range readErrs {
							w.Emit(fmt.Sprintf("%d 512 %d %d", at, with, k), d)
						}
					}
				}
			}, evalReadFault)
			r.Par("unsupported", func(w *core.W) {
				for i := 0; i < 24; i++ {
					w.Emit(fmt.Sprint(i), nil)
				}
			}, evalUnsupported)
			leftFiles(r)
		},
	})
	reg(&core.Check{
		ID:   "C22",
		Rule: "every list of up to 4 (thorough: 5) paths out of good, empty, malformed (few and many errors), missing, directory and unclean paths, repetitions included, and every position of one failing path in lists of up to 24, in 3 modes; compared with parsing each file alone",
		Run: func(r *core.Run) {
			dir := filepath.Join(r.Scratch, "pkg")
			os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
			for name, text := range pkgFiles() {
				if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
					panic(err)
				}
			}
			os.Symlink("g.bib", filepath.Join(dir, "l.bib"))
			for _, c := range "nw" {
				os.WriteFile(pkgPath(dir, byte(c)), []byte("@a{k,x={"+string(c)+"}}"), 0o644)
			}
			r.ParChunk("many", 1, func(w *core.W) {
				for _, n := range []int{25, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025} {
					for _, x := range "mMxdg" {
						for _, i := range []int{0, 1, n / 2, n - 1} {
							for _, j := range []int{0, n / 3, n - 1} {
								b := []byte(strings.Repeat("0123456789gGeun", n)[:n])
								b[i] = byte(x)
								b[j] = 'm'
								if !w.Emit(string(b), nil) {
									return
								}
								b[j] = 'w'
								if !w.Emit(string(b), nil) {
									return
								}
							}
						}
					}
				}
			}, evalC22)
			r.Par("lists", func(w *core.W) {
				var syms []string
				for _, c := range pkgPaths {
					syms = append(syms, string(c))
				}
				gen.Words("", "", syms, 0, r.Pick(4, 5), func(b []byte) bool { return w.Emit(string(b), nil) })
			}, evalC22)
			leftPackages(r)
			r.Par("positions", func(w *core.W) {
				for n := 1; n <= 24; n++ {
					for i := 0; i < n; i++ {
						for j := i; j < n; j++ {
							for _, x := range "mMxds" {
								for _, y := range "Mxs" {
									b := []byte(strings.Repeat("0123456789", 3)[:n])
									b[i] = byte(x)
									b[j] = byte(y)
									if !w.Emit(string(b), nil) {
										return
									}
								}
							}
						}
					}
				}
			}, evalC22)
		},
	})
}

const pkgPaths = "gGemMxdsuvlnw"

func pkgFiles() map[string]string {
	m := map[string]string{
		"g.bib": "@a{k,x={é}}\n", "G.bib": "\ufeff% doc\n@string{n=\"v\"}\r\n@a{k,\n x = n # {w {u}}, y = 2}@preamble{\"p\"}\n", "e.bib": "",
		"m.bib": "@a{k}\n@b{j,x=}\n@c{l}", "M.bib": strings.Repeat("@a{k,1=2}\n", 25), "s.bib": "@a{k,x={\x00}",
	}
	for i := 0; i < 10; i++ {
		m[fmt.Sprintf("%d.bib", i)] = fmt.Sprintf("@a{k%d, x%d = {%d}}%s", i, i, i, strings.Repeat("\n", i))
	}
	return m
}

func pkgPath(dir string, c byte) string {
	switch c {
	case 'x':
		return filepath.Join(dir, "missing.bib")
	case 'd':
		return filepath.Join(dir, "sub")
	case 'u':
		return dir + "/sub/../g.bib"
	case 'v':
		return dir + "/.//g.bib"
	case 'n':
		return filepath.Join(dir, "n") // no suffix
	case 'w':
		return filepath.Join(dir, ".a b\u00e9*[1]$HOME.BIB")
	}
	return filepath.Join(dir, string(c)+".bib")
}

// relOutcome shows a file with positions relative to its start.
func relOutcome(f *ast.File, base int) string {
	c := adapt.Conv{Base: base}
	return f.Name + " " + string(ref.AppendDoc(nil, c.File(f), ref.DPos|ref.DRaw|ref.DDoc))
}

func firstPos(f *ast.File) int {
	if len(f.Entries) > 0 {
		return int(f.Entries[0].Pos())
	}
	return 0
}

func evalC22(w *core.W, aux string, _ []byte) string {
	dir := filepath.Join(w.R.Scratch, "pkg")
	var paths []string
	for i := 0; i < len(aux); i++ {
		paths = append(paths, pkgPath(dir, aux[i]))
	}
	saved := append([]string{}, paths...)
	for _, m := range []parser.Mode{raw, parsed, parsed | parser.ParseComments | parser.AllErrors} {
		want := map[string]*ast.File{}
		var first error
		for _, p := range paths {
			f, err := parser.ParseFile(gotok.NewFileSet(), p, nil, m)
			if err == nil {
				want[p] = f
			} else if first == nil {
				first = err
			}
		}
		var pkg *ast.Package
		var err error
		if p := adapt.Guard(func() { pkg, err = parser.ParsePackage(paths, m) }); p != nil {
			return bad("mode %s: %v", modeName(m), p)
		}
		w.Trace++
		w.Trans += int64(len(paths))
		if pkg == nil {
			return bad("mode %s: no package", modeName(m))
		}
		for i := range paths {
			if paths[i] != saved[i] {
				return "the list of paths was changed"
			}
		}
		if (err == nil) != (first == nil) || err != nil && err.Error() != first.Error() {
			return bad("mode %s: the error is %v, want that of the first failing path: %v", modeName(m), err, first)
		}
		if errors.Is(first, fs.ErrNotExist) && !errors.Is(err, fs.ErrNotExist) {
			return bad("mode %s: the error lost its cause: %v", modeName(m), err)
		}
		if a, ok := adapt.ErrList(first); ok {
			b, ok := adapt.ErrList(err)
			if !ok || len(a) != len(b) {
				return bad("mode %s: the error is %v, want the list %v", modeName(m), err, first)
			}
		}
		if len(pkg.Files) != len(want) {
			return bad("mode %s: the package has %d files, want %d", modeName(m), len(pkg.Files), len(want))
		}
		for p, f := range want {
			g := pkg.Files[p]
			if g == nil {
				return bad("mode %s: file %q is missing", modeName(m), p)
			}
			x, y := relOutcome(f, 1), relOutcome(g, 1+firstPos(g)-firstPos(f))
			if x != y {
				return bad("mode %s: file %q differs from the file parsed alone\nwant %s\ngot  %s", modeName(m), p, clipStr(x), clipStr(y))
			}
		}
		w.Outcome([]byte(fmt.Sprint(len(want), first)))
	}
	return ""
}

var _ = bibtex.New
