package checks

import (
	"fmt"
	gotok "go/token"
	"strings"
	"unicode/utf8"

	"verif/adapt"
	"verif/core"
	"verif/gen"
	"verif/ref"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
)

// The names that scope operations use, by letter.
var scopeNames = map[byte]string{'a': "a", 'A': "A", 'e': "", 'u': "é", 'l': strings.Repeat("long", 20)}

// evalC25: aux is a sequence of operations, two bytes each: a scope (0, 1, 2,
// where each is the outer scope of the next) with an operation, and a name.
//
//	0..2 insert an object of kind entry; 3..5 insert one of kind abbrev
//	a..c insert one of kind bad; d one of an unknown kind in scope 1
//	6..8 look up; 9 insert the object that was inserted last again, in scope 1
//	! change the name's object in no way but look at the position of it
func evalC25(w *core.W, aux string, _ []byte) string {
	scopes := []*ast.Scope{ast.NewScope(nil)}
	scopes = append(scopes, ast.NewScope(scopes[0]))
	scopes = append(scopes, ast.NewScope(scopes[1]))
	model := []map[string]*ast.Object{{}, {}, {}}
	var last *ast.Object
	lastDesc := ""
	all := map[*ast.Object]ast.Object{}
	check := func() string {
		for i, s := range scopes {
			for _, n := range scopeNames {
				if got := s.Lookup(n); got != model[i][n] {
					return bad("scope %d: Lookup(%q) = %p, want %p", i, n, got, model[i][n])
				}
			}
			if len(s.Objects) != len(model[i]) {
				return bad("scope %d holds %d objects, want %d", i, len(s.Objects), len(model[i]))
			}
			if i > 0 && s.Outer != scopes[i-1] || i == 0 && s.Outer != nil {
				return bad("scope %d: wrong outer scope", i)
			}
			s.String()
		}
		for o, was := range all {
			if *o != was {
				return bad("object %q was changed: %+v, was %+v", was.Name, *o, was)
			}
		}
		return ""
	}
	for i := 0; i+1 < len(aux); i += 2 {
		op, name := aux[i], scopeNames[aux[i+1]]
		w.Trans++
		insert := func(s int, o *ast.Object) string {
			all[o] = *o
			alt := scopes[s].Insert(o)
			want := model[s][o.Name]
			if want == nil {
				model[s][o.Name] = o
			}
			if alt != want {
				return bad("operation %d of %s: Insert(%q) = %p, want %p", i/2, aux, o.Name, alt, want)
			}
			return ""
		}
		what := ""
		switch {
		case op >= '0' && op <= '2':
			last = ast.NewObj(ast.Entry, name)
			last.Decl = &ast.BibDecl{Key: &ast.Ident{Name: name, NamePos: gotok.Pos(i + 1)}}
			what = insert(int(op-'0'), last)
		case op >= '3' && op <= '5':
			last = ast.NewObj(ast.Abbrev, name)
			what = insert(int(op-'3'), last)
		case op >= '6' && op <= '8':
			s := int(op - '6')
			if got := scopes[s].Lookup(name); got != model[s][name] {
				what = bad("operation %d of %s: Lookup(%q) = %p, want %p", i/2, aux, name, got, model[s][name])
			}
		case op >= 'a' && op <= 'c': // what's inserted need not be well-formed
			last = ast.NewObj(ast.Bad, name)
			what = insert(int(op-'a'), last)
		case op == 'd':
			last = &ast.Object{Name: name, Kind: ast.ObjKind(99)}
			what = insert(1, last)
		case op == '9':
			if last != nil {
				what = insert(1, last)
			}
		}
		if what != "" {
			return what
		}
		if s := check(); s != "" {
			return bad("after operation %d of %s: %s", i/2, aux, s)
		}
		lastDesc = fmt.Sprint(len(model[0]), len(model[1]), len(model[2]))
	}
	w.Trace++
	w.Outcome([]byte(lastDesc + aux[max(0, len(aux)-2):]))
	return ""
}

// evalNames: aux is two names: entries and others are inserted under them, and
// under names like them, in every order, in a scope and in the one around it.
func evalNames(w *core.W, aux string, _ []byte) string {
	var a, b string
	fmt.Sscanf(aux, "%q %q", &a, &b)
	names := []string{a, b, strings.ToUpper(a), strings.ToLower(b), " " + a, b + " ", a + b}
	for _, order := range [][]int{{0, 1}, {1, 0, 0, 1}, {0, 2, 3, 4, 5, 6, 1}, {6, 5, 4, 3, 2, 1, 0, 0}} {
		outer := ast.NewScope(nil)
		s := ast.NewScope(outer)
		models := [2]map[string]*ast.Object{{}, {}}
		for k, i := range order {
			n := names[i]
			for j, t := range []*ast.Scope{s, outer} {
				if j == 1 && k%2 == 1 {
					continue
				}
				o := ast.NewObj([]ast.ObjKind{ast.Entry, ast.Abbrev, ast.Bad}[(i+k)%3], n)
				if o.Kind == ast.Entry {
					o.Decl = &ast.BibDecl{Key: &ast.Ident{Name: n, NamePos: 9}}
				}
				want := models[j][n]
				if got := t.Insert(o); got != want {
					return bad("names %s, order %v: Insert(%q) = %v, want %v", aux, order, n, got, want)
				}
				if want == nil {
					models[j][n] = o
				}
				w.Trans++
			}
			for j, t := range []*ast.Scope{s, outer} {
				for _, m := range names {
					if got := t.Lookup(m); got != models[j][m] {
						return bad("names %s, order %v: Lookup(%q) = %v, want %v", aux, order, m, got, models[j][m])
					}
				}
				if len(t.Objects) != len(models[j]) {
					return bad("names %s, order %v: the scope holds %d objects, want %d", aux, order, len(t.Objects), len(models[j]))
				}
			}
		}
		w.Trace++
	}
	w.Outcome([]byte(aux))
	return ""
}

// evalManyNames: aux is a number of names, all in one scope.
func evalManyNames(w *core.W, aux string, _ []byte) string {
	n := 0
	fmt.Sscan(aux, &n)
	s := ast.NewScope(ast.NewScope(nil))
	var os []*ast.Object
	for i := 0; i < n; i++ {
		o := ast.NewObj(ast.Entry, fmt.Sprint("k", i))
		if alt := s.Insert(o); alt != nil {
			return bad("%d names: the new name %q is there", n, o.Name)
		}
		os = append(os, o)
		w.Trans++
	}
	for i, o := range os {
		if s.Lookup(o.Name) != o {
			return bad("%d names: %q isn't found", n, o.Name)
		}
		if i%7 == 0 && s.Insert(ast.NewObj(ast.Abbrev, o.Name)) != o {
			return bad("%d names: %q could be inserted again", n, o.Name)
		}
		w.Trans++
	}
	for _, m := range []string{"", "k", fmt.Sprint("k", n), "K0"} {
		if s.Lookup(m) != nil || s.Outer.Lookup("k0") != nil {
			return bad("%d names: %q is found", n, m)
		}
	}
	w.Trace++
	w.Outcome([]byte(aux))
	if len(s.Objects) != n {
		return bad("%d names: the scope holds %d", n, len(s.Objects))
	}
	return ""
}

// evalObjPos: aux is "decl kind objname keyname": the position of an object.
func evalObjPos(w *core.W, aux string, _ []byte) string {
	var decl, kind int
	var on, kn byte
	fmt.Sscanf(aux, "%d %d %c%c", &decl, &kind, &on, &kn)
	name, key := scopeNames[on], scopeNames[kn]
	o := ast.NewObj(ast.ObjKind(kind), name)
	if o.Name != name || o.Kind != ast.ObjKind(kind) || o.Decl != nil {
		return bad("NewObj(%d, %q) = %+v", kind, name, *o)
	}
	want := gotok.NoPos
	switch decl {
	case 0:
	case 1:
		o.Decl = &ast.BibDecl{Type: "t", Entry: 5, Key: &ast.Ident{NamePos: 77, Name: key}, RBrace: 90}
		if name == key {
			want = 77
		}
	case 2:
		o.Decl = &ast.BibDecl{Type: "t", Entry: 5, ExtraKeys: []*ast.Ident{{NamePos: 78, Name: name}}}
	case 3:
		o.Decl = &ast.BibDecl{Type: name, Entry: 5, Key: &ast.Ident{NamePos: 77, Name: key}, Tags: []*ast.TagStmt{{NamePos: 80, Name: name, RawName: name}}}
		if name == key {
			want = 77
		}
	case 4:
		o.Decl = ast.NewScope(nil)
	case 5:
		o.Decl = &ast.PreambleDecl{Entry: 5}
	case 6:
		o.Decl = "a string"
	case 7:
		o.Decl = &ast.AbbrevDecl{Entry: 5, Tag: &ast.TagStmt{NamePos: 80, Name: key}}
		want = -1 // the text only speaks of entries
	case 8: // as parsed
		src := "@t{" + key + ", x = 1}"
		if key == "" {
			src = "@t{x = 1}"
		}
		f := parsedFile([]byte(src), parsed)
		if f == nil {
			return ""
		}
		o.Decl = f.Entries[0]
		if name == key && key != "" {
			want = 4
		}
	}
	before := *o
	var got, again gotok.Pos
	if p := adapt.Guard(func() { got = o.Pos(); again = o.Pos() }); p != nil {
		return bad("%s: %v", aux, p)
	}
	w.Trace++
	w.Trans++
	w.Outcome([]byte(aux))
	if want >= 0 && got != want || got != again {
		return bad("object %q declared by %T (key %q): position %d then %d, want %d", name, o.Decl, key, got, again, want)
	}
	if before != *o {
		return "Pos changed the object"
	}
	return ""
}

// evalScopeSrc: sources never give a scope that breaks the rules: an identifier's
// object is found in the file's scope under its name.
func evalScopeSrc(w *core.W, _ string, src []byte) string {
	for _, m := range bothModes {
		p := adapt.ParseFile(src, m|parser.DeclarationErrors)
		if p.Panic != nil || p.File == nil {
			return ""
		}
		w.Trace++
		s := p.File.Scope
		if s == nil {
			return bad("mode %s: a file without a scope", modeName(m))
		}
		for n, o := range s.Objects {
			if o == nil || o.Name != n || s.Lookup(n) != o {
				return bad("mode %s: the scope has %v under %q", modeName(m), o, n)
			}
			d, ok := o.Decl.(*ast.BibDecl)
			if !ok {
				continue
			}
			want := gotok.NoPos
			if d.Key != nil && d.Key.Name == n {
				want = d.Key.NamePos
			}
			if got := o.Pos(); got != want {
				return bad("mode %s: the object %q is at %d, want %d", modeName(m), n, got, want)
			}
		}
	}
	return ""
}

// evalC27: aux is "accent text" in code points, the accent first.
func evalC27(w *core.W, aux string, src []byte) string {
	acc := rune(0)
	fmt.Sscan(aux, &acc)
	return checkAccent(w, acc, string(src))
}

func checkAccent(w *core.W, acc rune, text string) string {
	want, sure := ref.Accent(acc, text)
	if strings.ContainsRune("`'^\"~c.", acc) == false {
		want, sure = 0, true
	}
	var got rune
	var err error
	if p := adapt.Guard(func() { got, err = render.RenderAccent(token.Accent(acc), text) }); p != nil {
		return bad("accent %q on %q: %v", acc, text, p)
	}
	w.Trace++
	w.Trans += int64(len(text)) + 1
	if err == nil {
		w.Outcome([]byte(string(acc) + text))
	}
	switch {
	case err == nil && (want == 0 || got != want):
		return bad("accent %q on %q gives %q (%U), want %s", acc, text, got, got, orError(want))
	case err != nil && want != 0 && sure:
		return bad("accent %q on %q is an error (%v), want %q", acc, text, err, want)
	}
	// The renderer of texts agrees.
	sb := &strings.Builder{}
	var err2 error
	n := &ast.TextAccent{Accent: token.Accent(acc), Text: &ast.Text{Value: text}}
	if p := adapt.Guard(func() { err2 = render.NewTextRenderer().Render(sb, n) }); p != nil {
		return bad("rendering accent %q on %q: %v", acc, text, p)
	}
	if (err == nil) != (err2 == nil) || err == nil && sb.String() != string(got) || err != nil && sb.Len() > 0 {
		return bad("accent %q on %q gives %q, %v, but rendering it as text gives %q, %v", acc, text, got, err, sb.String(), err2)
	}
	if rune(n.Accent) != acc || n.Text.Value != text {
		return "rendering changed the node"
	}
	return ""
}

func orError(r rune) string {
	if r == 0 {
		return "an error"
	}
	return fmt.Sprintf("%q (%U)", r, r)
}

// evalBlock checks a block of 256 code points under every accent.
func evalBlock(w *core.W, aux string, _ []byte) string {
	b := 0
	fmt.Sscan(aux, &b)
	for r := rune(b) << 8; r < rune(b+1)<<8; r++ {
		if !utf8.ValidRune(r) {
			continue
		}
		for _, acc := range "`'^\"~c." {
			if s := checkAccent(w, acc, string(r)); s != "" {
				return s
			}
		}
		// As an accent, on letters.
		for _, t := range []string{"a", "c", "E", "I", "i", "n", "y", "é", "", "ae"} {
			if s := checkAccent(w, r, t); s != "" {
				return s
			}
		}
	}
	return ""
}

// evalAccentSrc renders a source with one accent in every spelling.
func evalAccentSrc(w *core.W, aux string, src []byte) string {
	x := fieldValue(src)
	if x == nil {
		return bad("%q isn't read", src)
	}
	var acc rune
	text := ""
	fmt.Sscanf(aux, "%d %q", &acc, &text)
	want, sure := ref.Accent(acc, text)
	sb := &strings.Builder{}
	var err error
	if p := adapt.Guard(func() { err = render.NewTextRenderer().Render(sb, x) }); p != nil {
		return p.Error()
	}
	w.Trace++
	w.Trans += int64(len(src))
	w.Outcome(src)
	switch {
	case err == nil && (want == 0 || sb.String() != string(want)):
		return bad("%q is rendered as %q, want %s", src, sb.String(), orError(want))
	case err != nil && want != 0 && sure:
		return bad("%q can't be rendered: %v, want %q", src, err, want)
	}
	return ""
}

// fieldValue is the value of the only field of the only entry.
func fieldValue(src []byte) ast.Expr {
	f := parsedFile(src, parsed)
	if f == nil || len(f.Entries) != 1 {
		return nil
	}
	d, ok := f.Entries[0].(*ast.BibDecl)
	if !ok || len(d.Tags) != 1 {
		return nil
	}
	return d.Tags[0].Value
}

func init() {
	reg(&core.Check{
		ID:   "C25",
		Rule: "every sequence of up to 4 (thorough: 6) operations, and up to 7 (8) of a smaller set, insertions and look-ups over three nested scopes and five names, compared after every step with maps; positions of objects for every kind of declaration; the scopes of parsed files",
		Run: func(r *core.Run) {
			var syms []string
			for _, op := range "012345678" {
				for _, n := range "aAeu" {
					if op >= '6' && n != 'a' || op >= '3' && op <= '5' && n == 'u' {
						continue // every look-up is made after every step anyway
					}
					syms = append(syms, string(op)+string(n))
				}
			}
			syms = append(syms, "9a", "aa", "ba", "bA", "ca", "da")
			r.Par("operations", func(w *core.W) {
				gen.Words("", "", syms, 0, r.Pick(4, 6), func(b []byte) bool { return w.Emit(string(b), nil) })
			}, evalC25)
			small := []string{"0a", "0A", "1a", "1A", "2a", "3a", "4a", "9a", "ba"}
			r.Par("longer-operations", func(w *core.W) {
				gen.Words("", "", small, 5, r.Pick(7, 8), func(b []byte) bool { return w.Emit(string(b), nil) })
			}, evalC25)
			r.Par("names", func(w *core.W) {
				var names []string
				for c := rune(0); c < 0x80; c++ {
					names = append(names, string(c))
				}
				names = append(names, "", "_", "__", "é", "\xff", "nil", "<nil>", "init", "main", "iota", "bad", "entry", "abbrev")
				names = append(names, gen.CiteKeys...)
				names = append(names, gen.FieldNames...)
				names = append(names, gen.EntryTypes...)
				if r.Thorough() {
					names = append(names, gen.Macros...)
				}
				for _, a := range names {
					for _, b := range names {
						if !w.Emit(fmt.Sprintf("%q %q", a, b), nil) {
							return
						}
					}
				}
			}, evalNames)
			r.ParChunk("many-names", 1, func(w *core.W) {
				for _, n := range bigSizes(r.Thorough()) {
					w.Emit(fmt.Sprint(n), nil)
				}
				w.Emit(fmt.Sprint(r.Pick(300000, 3000000)), nil)
			}, evalManyNames)
			r.Par("positions", func(w *core.W) {
				for decl := 0; decl <= 8; decl++ {
					for kind := 0; kind < 3; kind++ {
						for _, a := range "aAeul" {
							for _, b := range "aAeul" {
								w.Emit(fmt.Sprintf("%d %d %c%c", decl, kind, a, b), nil)
							}
						}
					}
				}
			}, evalObjPos)
			r.Par("parsed", func(w *core.W) {
				gen.Docs(2).Gen(func(b []byte) bool { return w.Emit("", b) })
				gen.Mutations(1).Gen(func(b []byte) bool { return w.Emit("", b) })
			}, evalScopeSrc)
		},
	})
	reg(&core.Check{
		ID:   "C27",
		Rule: "every accent with every Unicode character, every Unicode character as an accent with some letters, every text of up to 3 symbols (valid and invalid UTF-8) with every accent, and every spelling of every accent and printable character in a source; compared with the canonical compositions of the Unicode database",
		Run: func(r *core.Run) {
			r.ParChunk("characters", 4, func(w *core.W) {
				for b := 0; b <= 0x10ff; b++ {
					w.Emit(fmt.Sprint(b), nil)
				}
			}, evalBlock)
			accs := []string{"96", "39", "94", "34", "126", "99", "46", "0", "117", "61", "67", "-1", "180", "768", "1114112"}
			r.Par("texts", func(w *core.W) {
				for _, a := range accs {
					gen.Words("", "", []string{"a", "e", "C", "i", "I", "Y", "n", "`", "'", "c", ".", " ", "é", "\u0301", "e\u0301", "ı", "\xff", "\xc3", "\xa9", "{", "\\", "\x00", "ff", "Å"}, 0, r.Pick(3, 4), func(b []byte) bool { return w.Emit(a, b) })
				}
			}, evalC27)
			r.Par("sources", func(w *core.W) {
				for _, acc := range "`'^\"~c." {
					for c := 'A'; c <= 'z'; c++ {
						if c > 'Z' && c < 'a' {
							continue
						}
						var spell []string
						if acc == 'c' {
							spell = []string{fmt.Sprintf("\\c{%c}", c), fmt.Sprintf("\\c %c", c), fmt.Sprintf("\\c {%c}", c)}
						} else {
							spell = []string{fmt.Sprintf("\\%c%c", acc, c), fmt.Sprintf("\\%c{%c}", acc, c), fmt.Sprintf("\\%c %c", acc, c)}
						}
						for _, s := range spell {
							for _, d := range []string{"@a{k,x={" + s + "}}", "@a{k,x={{" + s + "}}}", "@a{k,x=\"{" + s + "}\"}", "@a(k,x={{{" + s + "}}})"} {
								if res := ref.Parse([]byte(d), true, nil); res.V == ref.Accept {
									w.Emit(fmt.Sprintf("%d %q", acc, string(c)), []byte(d))
								}
							}
						}
					}
				}
			}, evalAccentSrc)
		},
	})
}
