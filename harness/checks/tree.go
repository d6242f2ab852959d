package checks

import (
	"context"
	"errors"
	"fmt"
	goscan "go/scanner"
	"io"
	"io/fs"
	"reflect"
	"sort"
	"syscall"

	"verif/adapt"
	"verif/ref"

	"github.com/jschaf/bibtex/ast"
)

// kids are the children that a walk visits, in source order.
func kids(n ast.Node) (ks []ast.Node) {
	add := func(xs ...ast.Expr) {
		for _, x := range xs {
			if x != nil {
				ks = append(ks, x)
			}
		}
	}
	switch n := n.(type) {
	case ast.Authors:
		for _, a := range n {
			ks = append(ks, a)
		}
	case *ast.Author:
		add(n.First, n.Prefix, n.Last, n.Suffix)
	case *ast.File:
		for _, d := range n.Entries {
			ks = append(ks, d)
		}
	case *ast.Package:
		for _, f := range n.Files {
			ks = append(ks, f)
		}
	case *ast.BibDecl:
		for _, t := range n.Tags {
			ks = append(ks, t)
		}
	case *ast.AbbrevDecl:
		if n.Tag != nil {
			ks = append(ks, n.Tag)
		}
	case *ast.TagStmt:
		add(n.Value)
	case *ast.PreambleDecl:
		add(n.Text)
	case *ast.ParsedText:
		add(n.Values...)
	case *ast.ConcatExpr:
		add(n.X, n.Y)
	case *ast.TextMacro:
		add(n.Values...)
	}
	return
}

// nodeID identifies a node of a tree.
type nodeID struct {
	p uintptr
	n int
}

func idOf(n ast.Node) nodeID {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Slice {
		return nodeID{v.Pointer(), v.Len() + 1}
	}
	return nodeID{v.Pointer(), 0}
}

// call is one call of a walker.
type call struct {
	id    nodeID
	enter bool
	typ   string
}

func (c call) String() string {
	if c.enter {
		return "+" + c.typ
	}
	return "-" + c.typ
}

// mkCall describes a call; types are only for people, so they are cheap.
func mkCall(n ast.Node, enter bool) call {
	return call{idOf(n), enter, n.Kind().String()}
}

// answer is what a walker answers: a status and maybe an error.
type answer struct {
	st  ast.WalkStatus
	err bool
	e   error
}

var errWalk = errors.New("the walker's error")

// walkModel is the specification of a walk. It appends the calls and reports
// whether the walk goes on and whether it ended with an error.
func walkModel(n ast.Node, ans func(i int) answer, calls []call) (cs []call, stop, failed bool) {
	ask := func(enter bool) answer {
		a := ans(len(calls))
		calls = append(calls, mkCall(n, enter))
		return a
	}
	a := ask(true)
	if a.err || a.st == ast.WalkStop {
		return calls, true, a.err
	}
	if a.st != ast.WalkSkipChildren {
		for _, k := range kids(n) {
			if calls, stop, failed = walkModel(k, ans, calls); stop {
				return calls, true, failed
			}
		}
	}
	a = ask(false)
	return calls, a.err || a.st == ast.WalkStop, a.err
}

func sameCalls(want, got []call) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i < len(want) && i < len(got) && want[i].id == got[i].id && want[i].enter == got[i].enter {
			continue
		}
		return fmt.Sprintf("call %d differs\nwant %v\ngot  %v", i, clipCalls(want), clipCalls(got))
	}
	return ""
}

func clipCalls(cs []call) []call {
	if len(cs) > 40 {
		return cs[:40]
	}
	return cs
}

// nodeDump shows a whole tree.
func nodeDump(n ast.Node) string {
	c := adapt.Conv{}
	switch n := n.(type) {
	case *ast.File:
		return string(ref.AppendDoc(nil, c.File(n), ref.DPos|ref.DRaw|ref.DDoc))
	case ast.Decl:
		return string(ref.AppendNode(nil, c.Decl(n), ref.DPos|ref.DRaw))
	case ast.Expr:
		return string(ref.AppendNode(nil, c.Expr(n), ref.DPos|ref.DRaw))
	case *ast.TagStmt:
		return n.Name + "=" + n.RawName + "=" + nodeDump(n.Value)
	case *ast.Package:
		s := ""
		var names []string
		for k := range n.Files {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			s += k + nodeDump(n.Files[k])
		}
		return s
	}
	return fmt.Sprintf("%T", n)
}

var errWrite = errors.New("the writer's error")

// failErrs are errors that code could treat specially.
var failErrs = append([]error{errWrite, io.EOF, io.ErrShortWrite, fs.SkipDir, fs.SkipAll, fs.ErrClosed, fs.ErrPermission, fs.ErrExist, syscall.EPIPE, syscall.ENOSPC, syscall.EINTR, context.DeadlineExceeded, errors.ErrUnsupported,
	errors.New(""), &goscan.Error{Msg: "m"}, &fs.PathError{Op: "write", Path: "x", Err: io.EOF}, fmt.Errorf("%w and %w", io.EOF, io.ErrShortWrite), anyErr{}, (*nilErr)(nil), errWalk}, readErrs...)

// anyErr is an error that says that it is every other.
type anyErr struct{}

func (anyErr) Error() string   { return "any" }
func (anyErr) Is(error) bool   { return true }
func (anyErr) Temporary() bool { return true }
func (anyErr) Timeout() bool   { return false }

type nilErr struct{ _ int }

func (*nilErr) Error() string { return "<nil>" }

// isErr reports whether err is or wraps e itself.
func isErr(err, e error) bool {
	if err == e {
		return true
	}
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		return isErr(x.Unwrap(), e)
	case interface{ Unwrap() []error }:
		for _, y := range x.Unwrap() {
			if isErr(y, e) {
				return true
			}
		}
	}
	return false
}

// failWriter fails at write number at, after part of it. Other writes succeed.
type failWriter struct {
	buf   []byte
	n     int
	at    int // -1: never
	err   error
	part  int // bytes of the failing write that are written
	after int // writes after the failure
	sizes []int
}

func (w *failWriter) Write(b []byte) (int, error) {
	if w.at >= 0 && w.n > w.at {
		w.after++
	}
	if w.n == w.at {
		w.n++
		k := w.part
		if k > len(b) {
			k = len(b)
		}
		w.buf = append(w.buf, b[:k]...)
		return k, w.err
	}
	w.n++
	if len(w.sizes) < 10000 {
		w.sizes = append(w.sizes, len(b))
	}
	w.buf = append(w.buf, b...)
	return len(b), nil
}

// faults runs render with every failing write: every write of the successful
// run, failing before its first byte, after it, in the middle, before its last
// byte and after all of it. Of more than 1500 writes only some fail.
func faults(clean *failWriter, render func(w *failWriter) error) (string, int64) {
	return faultsWith(clean, func(i int) error { return failErrs[(len(clean.buf)+i*7+i/3)%len(failErrs)] }, render)
}

// allFaults is faults with every error at every write.
func allFaults(clean *failWriter, render func(w *failWriter) error) (string, int64) {
	n := int64(0)
	for _, e := range failErrs {
		s, k := faultsWith(clean, func(int) error { return e }, render)
		n += k
		if s != "" {
			return s, n
		}
	}
	return "", n
}

// faultsWith is faults in which write i fails with pick(i).
func faultsWith(clean *failWriter, pick func(i int) error, render func(w *failWriter) error) (string, int64) {
	n := int64(0)
	for at := 0; at < clean.n; at++ {
		if clean.n > 1500 && !someCalls(at, clean.n) {
			continue
		}
		sz := 0
		if at < len(clean.sizes) {
			sz = clean.sizes[at]
		}
		for i, part := range []int{0, 1, sz / 2, sz - 1, sz} {
			if part < 0 || part > sz || i > 0 && part == 0 || i == 2 && part <= 1 || i == 3 && part <= sz/2 || i == 4 && part <= 1 {
				continue
			}
			w := &failWriter{at: at, part: part, err: pick(at + i)}
			var err error
			if p := adapt.Guard(func() { err = render(w) }); p != nil {
				return bad("write %d failed: %v", at, p), n
			}
			n++
			if !isErr(err, w.err) {
				return bad("write %d failed after %d bytes with %T %v, but the result is: %T %v", at, part, w.err, w.err, err, err), n
			}
			if w.after > 0 {
				return bad("%d writes after the failure of write %d", w.after, at), n
			}
			if len(w.buf) > len(clean.buf) || string(w.buf) != string(clean.buf[:len(w.buf)]) {
				return bad("write %d failed after %d bytes; wrote %q, which isn't a prefix of %q", at, part, clip(w.buf), clip(clean.buf)), n
			}
		}
	}
	return "", n
}

func modelText(n *ref.N) (string, bool, bool) {
	b, ok, known := ref.Text(nil, n)
	return string(b), ok, known
}

// extent is where an expression is.
func extent(x ast.Expr) (s string) {
	if x == nil {
		return "nil"
	}
	ast.Walk(x, func(n ast.Node, in bool) (ast.WalkStatus, error) {
		s += fmt.Sprintf(" %d-%d", n.Pos(), n.End())
		if len(s) > 1000 {
			return ast.WalkStop, nil
		}
		return ast.WalkContinue, nil
	})
	return s
}

// flat shows an expression without positions.
func flat(x ast.Expr) string {
	c := adapt.Conv{}
	return string(ref.AppendNode(nil, c.Expr(x), 0))
}
