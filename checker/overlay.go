package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The specification overlay has to survive refactorings of the repository: a
// specified helper that was renamed or folded into its callers is replaced by
// its own specification (so that callers are still compared, with the helper's
// meaning in place), and a specification that no longer type-checks (changed
// signature or field) is left out and reported as not decided.

type overlay struct {
	root    string
	files   map[string][]byte // spec file path -> source
	dropped map[string]bool   // "path#func" left out
	stubs   map[string]bool   // targets provided by their own specification
	why     map[string]string
	changed map[string]bool // targets declared with another signature than specified
}

func newOverlay(root string) *overlay {
	return &overlay{root: root, files: specOverlay(root), dropped: map[string]bool{}, stubs: map[string]bool{}, why: map[string]string{}, changed: map[string]bool{}}
}

// declared lists "Func" and "Type.Method" of a directory's non-test sources,
// with their signatures.
func declared(dir string) map[string]string {
	out := map[string]string{}
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	fset := token.NewFileSet()
	for _, f := range m {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				out[declName(fd)] = sigText(fd)
			}
		}
	}
	return out
}

// sigText spells the types of a declaration's receiver, parameters and
// results.
func sigText(fd *ast.FuncDecl) string {
	var b strings.Builder
	list := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				b.WriteString(typeText(f.Type) + ";")
			}
		}
	}
	list(fd.Recv)
	list(fd.Type.Params)
	b.WriteString("->")
	list(fd.Type.Results)
	return b.String()
}

func typeText(t ast.Expr) string {
	if ft, ok := t.(*ast.FuncType); ok {
		return "func " + sigText(&ast.FuncDecl{Type: ft})
	}
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), t)
	return strings.ReplaceAll(b.String(), "interface{}", "any")
}

// findChanged records the specified functions that the repository declares
// with another signature. References to them in specifications are redirected
// to a stub holding their specification.
func (o *overlay) findChanged() {
	for path, src := range o.files {
		f, err := parser.ParseFile(token.NewFileSet(), path, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		have := declared(filepath.Dir(path))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || specTarget(fd) == "" {
				continue
			}
			_, name, _ := strings.Cut(specTarget(fd), ".")
			if sig, ok := have[name]; ok && sig != sigText(fd) {
				if os.Getenv("CHK_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "CHANGED", specTarget(fd), sig, sigText(fd))
				}
				o.changed[specTarget(fd)] = true
			}
		}
	}
}

// redirect renames references to changed functions within one file.
func (o *overlay) redirect(pkg string, f *ast.File) {
	if len(o.changed) == 0 {
		return
	}
	fns, meths := map[string]bool{}, map[string]bool{}
	for t := range o.changed {
		_, name, _ := strings.Cut(t, ".")
		if _, m, ok := strings.Cut(name, "."); ok {
			meths[m] = true
		} else {
			fns[t] = true
		}
	}
	imported := map[string]bool{}
	for _, is := range f.Imports {
		p := strings.Trim(is.Path.Value, `"`)
		imported[p[strings.LastIndex(p, "/")+1:]] = true
	}
	sels := map[*ast.Ident]bool{}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				sels[x.Sel] = true
				if id, ok := x.X.(*ast.Ident); ok && imported[id.Name] {
					if fns[id.Name+"."+x.Sel.Name] {
						x.Sel.Name = stubPrefix + x.Sel.Name
					}
				} else if meths[x.Sel.Name] {
					x.Sel.Name = stubPrefix + x.Sel.Name
				}
			case *ast.KeyValueExpr:
				if id, ok := x.Key.(*ast.Ident); ok {
					sels[id] = true
				}
			case *ast.Ident:
				if !sels[x] && fns[pkg+"."+x.Name] {
					x.Name = stubPrefix + x.Name
				}
			}
			return true
		})
	}
}

const stubPrefix = "Stub_"

func declName(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return fd.Name.Name
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name + "." + fd.Name.Name
	}
	return fd.Name.Name
}

func specTarget(fd *ast.FuncDecl) string {
	if fd.Doc == nil {
		return ""
	}
	for _, ln := range fd.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(ln.Text, "//"))
		if strings.HasPrefix(t, "spec ") {
			return strings.Fields(t)[1]
		}
	}
	return ""
}

// render gives the overlay sources with dropped functions left out, stubs
// added and imports that became unused blanked.
func (o *overlay) render() map[string][]byte {
	out := map[string][]byte{}
	for path, src := range o.files {
		dir := filepath.Dir(path)
		if _, err := os.Stat(dir); err != nil {
			continue // the package is gone: its specifications are not decided
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		have := declared(dir)
		o.redirect(f.Name.Name, f)
		var body bytes.Buffer
		var used = map[string]bool{}
		emit := func(fd *ast.FuncDecl) {
			ast.Inspect(fd, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok {
						used[id.Name] = true
					}
				}
				return true
			})
			fmt.Fprintf(&body, "\n")
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					fmt.Fprintln(&body, c.Text)
				}
			}
			d := fd.Doc
			fd.Doc = nil
			printer.Fprint(&body, fset, fd)
			fd.Doc = d
			fmt.Fprintln(&body)
		}
		var imports []*ast.GenDecl
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					imports = append(imports, x)
				} else {
					fmt.Fprintln(&body)
					printer.Fprint(&body, fset, x)
					fmt.Fprintln(&body)
					ast.Inspect(x, func(n ast.Node) bool {
						if s, ok := n.(*ast.SelectorExpr); ok {
							if id, ok := s.X.(*ast.Ident); ok {
								used[id.Name] = true
							}
						}
						return true
					})
				}
			case *ast.FuncDecl:
				if o.dropped[path+"#"+x.Name.Name] {
					continue
				}
				emit(x)
				t := specTarget(x)
				if t == "" {
					continue
				}
				_, name, _ := strings.Cut(t, ".")
				stub := path + "#stub:" + t
				if _, ok := have[name]; ok && !o.changed[t] || o.dropped[stub] {
					continue
				}
				if o.changed[t] {
					if typ, m, ok := strings.Cut(name, "."); ok {
						name = typ + "." + stubPrefix + m
					} else {
						name = stubPrefix + name
					}
				}
				if fd := stubDecl(x, name); fd != nil {
					o.stubs[t] = true
					emit(fd)
				}
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
		for _, g := range imports {
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				p := strings.Trim(is.Path.Value, `"`)
				name := p[strings.LastIndex(p, "/")+1:]
				if is.Name != nil {
					name = is.Name.Name
				}
				if used[name] {
					if is.Name != nil {
						fmt.Fprintf(&b, "import %s %q\n", name, p)
					} else {
						fmt.Fprintf(&b, "import %q\n", p)
					}
				}
			}
		}
		b.Write(body.Bytes())
		out[path] = b.Bytes()
	}
	return out
}

// stubDecl turns a specification into a definition of its target.
func stubDecl(fd *ast.FuncDecl, name string) *ast.FuncDecl {
	n := *fd
	n.Doc = nil
	typ, meth, isMeth := strings.Cut(name, ".")
	if !isMeth {
		n.Name = ast.NewIdent(name)
		return &n
	}
	if fd.Type.Params == nil || len(fd.Type.Params.List) == 0 {
		return nil
	}
	first := *fd.Type.Params.List[0]
	if len(first.Names) != 1 {
		return nil
	}
	t := first.Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); !ok || id.Name != typ {
		return nil
	}
	n.Recv = &ast.FieldList{List: []*ast.Field{&first}}
	ft := *fd.Type
	ft.Params = &ast.FieldList{List: fd.Type.Params.List[1:]}
	n.Type = &ft
	n.Name = ast.NewIdent(meth)
	return &n
}

// drop removes the functions holding the given "file:line:col" error
// positions; false when an error is not in a specification.
func (o *overlay) drop(files map[string][]byte, errs map[string]string) bool {
	if len(errs) == 0 {
		return false
	}
	var keys []string
	for k := range errs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	progress := false
	for _, k := range keys {
		ps := strings.Split(k, ":")
		if len(ps) < 2 || filepath.Base(ps[0]) != specFile {
			return false
		}
		var line int
		fmt.Sscan(ps[1], &line)
		src, ok := files[ps[0]]
		if !ok {
			return false
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, ps[0], src, parser.ParseComments)
		if err != nil {
			return false
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fset.Position(fd.Pos()).Line > line || fset.Position(fd.End()).Line < line {
				continue
			}
			key := ps[0] + "#" + fd.Name.Name
			if specTarget(fd) == "" {
				// a stub, or a helper of the specifications
				for t := range o.stubs {
					if _, n, _ := strings.Cut(t, "."); n == strings.Replace(declName(fd), stubPrefix, "", 1) && filepath.Base(filepath.Dir(ps[0])) == strings.SplitN(t, ".", 2)[0] {
						key = ps[0] + "#stub:" + t
						delete(o.stubs, t)
					}
				}
			}
			if !o.dropped[key] {
				o.dropped[key] = true
				o.why[key] = errs[k]
				progress = true
			}
		}
	}
	return progress
}
