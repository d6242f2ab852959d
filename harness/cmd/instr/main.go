// Command instr copies a module and puts calls of package verifrt into its
// functions, so that executions can be counted and scheduled. It changes
// nothing else.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instr FROM TO")
		os.Exit(2)
	}
	from, to := os.Args[1], os.Args[2]
	if err := run(from, to); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func run(from, to string) error {
	mod, err := os.ReadFile(filepath.Join(from, "go.mod"))
	if err != nil {
		return err
	}
	modPath := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			modPath = f[1]
		}
	}
	if modPath == "" {
		return fmt.Errorf("no module path in %s", from)
	}
	rt := modPath + "/verifrt"
	err = filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, ".") || base == "testdata" || base == "vendor" || strings.HasPrefix(base, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		dst := filepath.Join(to, rel)
		switch {
		case strings.HasSuffix(base, "_test.go"):
			return nil
		case strings.HasSuffix(base, ".go"):
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			b, err = instrument(p, b, rt)
			if err != nil {
				return err
			}
			return write(dst, b)
		case base == "go.mod" || base == "go.sum" || strings.HasSuffix(base, ".s") || fi.Size() < 1<<20:
			b, err := os.ReadFile(p) // embedded files, for example
			if err != nil {
				return err
			}
			return write(dst, b)
		}
		return nil
	})
	if err != nil {
		return err
	}
	for name, text := range runtimeFiles {
		text = strings.ReplaceAll(text, "MODULE", modPath)
		if err := write(filepath.Join(to, "verifrt", name), []byte(text)); err != nil {
			return err
		}
	}
	return nil
}

func write(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

type ins struct {
	off  int
	text string
}

// instrument inserts text only, so that comments, directives and embedded files
// stay as they are.
func instrument(name string, src []byte, rt string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var is []ins
	add := func(p token.Pos, text string) { is = append(is, ins{fset.Position(p).Offset, text}) }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			add(s.Pos(), "verifrt.Point(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			// A value read from shared state can be out of date when it is
			// used, even within an expression.
			for _, x := range n.Args {
				if c, ok := x.(*ast.CallExpr); ok && readsShared(c) {
					add(c.Pos(), "verifrt.After(")
					add(c.End(), ")")
				}
			}
		case *ast.FuncDecl:
			if n.Body != nil {
				add(n.Body.Lbrace+1, " verifrt.Step(); ")
			}
		case *ast.FuncLit:
			add(n.Body.Lbrace+1, " verifrt.Step(); ")
		case *ast.ForStmt:
			add(n.Body.Lbrace+1, " verifrt.Step(); ")
		case *ast.RangeStmt:
			add(n.Body.Lbrace+1, " verifrt.Step(); ")
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// Their bodies are lists of clauses.
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	// Synchronization that the scheduler knows.
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			is = append(is, ins{-1 - fset.Position(im.Path.Pos()).Offset, rt + "/sync"})
		}
	}
	add(f.Name.End(), "; import verifrt "+strconv.Quote(rt)+"; ")
	var out bytes.Buffer
	last := 0
	// Stable order by offset; at equal offsets in order of insertion.
	sortStable(is)
	for _, i := range is {
		off := i.off
		if off < 0 {
			off = -1 - off
		}
		out.Write(src[last:off])
		last = off
		if i.off < 0 {
			// Give the replacement the name of the original.
			fmt.Fprintf(&out, "%q", i.text)
			last = off + len(`"sync"`)
			continue
		}
		out.WriteString(i.text)
	}
	out.Write(src[last:])
	out.WriteString("\nvar _ = verifrt.Step\n")
	b, err := format.Source(out.Bytes())
	if err != nil {
		return nil, fmt.Errorf("%s: %w", name, err)
	}
	return b, nil
}

// readsShared reports whether a call reads a counter that others may change.
func readsShared(c *ast.CallExpr) bool {
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if x, ok := s.X.(*ast.Ident); ok && x.Name == "atomic" {
		return strings.HasPrefix(s.Sel.Name, "Load") || strings.HasPrefix(s.Sel.Name, "Add")
	}
	return len(c.Args) == 0 && (s.Sel.Name == "Base" || s.Sel.Name == "Load")
}

func sortStable(is []ins) {
	abs := func(i ins) int {
		if i.off < 0 {
			return -1 - i.off
		}
		return i.off
	}
	for i := 1; i < len(is); i++ {
		for j := i; j > 0 && abs(is[j]) < abs(is[j-1]); j-- {
			is[j], is[j-1] = is[j-1], is[j]
		}
	}
}
