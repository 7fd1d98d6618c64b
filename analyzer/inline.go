package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Functions that the pinned tree does not have are inlined into their callers
// before anything is analysed. Extracting a helper is then invisible to the
// rules, and what a new helper does is judged where it is used. The
// transformation preserves the meaning of the program (arguments are
// evaluated once, in order, before the call; only calls whose evaluation can
// be moved in front of their statement are replaced); a call it cannot handle
// stays a call. The result is type-checked again; an edit that does not
// type-check is dropped.

//go:embed basefuncs.txt
var baseFuncsTxt string

// funcKey names a declared function: "dir|recv|name".
func funcKey(dir string, d *ast.FuncDecl) string {
	recv := ""
	if d.Recv != nil && len(d.Recv.List) == 1 {
		t := d.Recv.List[0].Type
		for {
			switch x := t.(type) {
			case *ast.StarExpr:
				t = x.X
				continue
			case *ast.ParenExpr:
				t = x.X
				continue
			case *ast.IndexExpr:
				t = x.X
				continue
			case *ast.IndexListExpr:
				t = x.X
				continue
			}
			break
		}
		if id, ok := t.(*ast.Ident); ok {
			recv = id.Name
		}
	}
	return dir + "|" + recv + "|" + d.Name.Name
}

// relDir is the directory of a file relative to the repository. The packages
// made of templates stand for the directory of the templates.
func relDir(repo, file string) string {
	rel, _ := filepath.Rel(repo, filepath.Dir(file))
	if strings.HasSuffix(file, "_verifstub.go") {
		return "stub"
	}
	if i := strings.Index(rel, "/xgotmpl_verif"); i >= 0 {
		rel = rel[:i] + "/runtime"
	}
	return rel
}

// dumpFuncs lists the functions of every Go file of the repository.
func dumpFuncs(repo string) []string {
	set := map[string]bool{}
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "testdata" || n == "vendir" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(path))
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				set[funcKey(rel, fd)] = true
			}
		}
		return nil
	})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var baseFuncSet map[string]bool

func isBaseFunc(key string) bool {
	if strings.HasPrefix(key, "stub|") {
		return true
	}
	if baseFuncSet == nil {
		baseFuncSet = map[string]bool{}
		for _, l := range strings.Split(baseFuncsTxt, "\n") {
			if l != "" {
				baseFuncSet[l] = true
			}
		}
	}
	return baseFuncSet[key]
}

// inlineNew returns the rewritten text of the files that call new functions,
// and the keys of the new functions no call of which is left.
func inlineNew(repo string, pkgs []*packages.Package, overlay map[string][]byte) (map[string][]byte, map[string]bool, []string) {
	out := map[string][]byte{}
	gone := map[string]bool{}
	var notes []string
	for _, pk := range pkgs {
		if !isRepoPath(pk.PkgPath) || len(pk.Errors) > 0 {
			continue
		}
		hasNew := false
		for _, f := range pk.Syntax {
			rel := relDir(repo, pk.Fset.File(f.FileStart).Name())
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && !isBaseFunc(funcKey(rel, fd)) && fd.Name.Name != "init" && fd.Name.Name != "_" {
					hasNew = true
				}
			}
		}
		if !hasNew {
			continue
		}
		w := &inliner{repo: repo, pk: pk, text: map[string][]byte{}, bad: map[string]bool{}}
		okAll := true
		for _, f := range pk.CompiledGoFiles {
			b, err := os.ReadFile(f)
			if o, has := overlay[f]; has {
				b, err = o, nil
			}
			if err != nil {
				okAll = false
				break
			}
			w.files = append(w.files, f)
			w.text[f] = b
		}
		if !okAll {
			continue
		}
		w.run()
		notes = append(notes, w.notes...)
		for f := range w.changed {
			out[f] = w.text[f]
		}
		for k := range w.goneKeys {
			gone[k] = true
		}
	}
	return out, gone, notes
}

type inliner struct {
	repo     string
	pk       *packages.Package
	files    []string
	text     map[string][]byte
	changed  map[string]bool
	bad      map[string]bool
	goneKeys map[string]bool
	notes    []string
	seq      int

	fset  *token.FileSet
	asts  map[string]*ast.File
	info  *types.Info
	tpkg  *types.Package
	news  map[*types.Func]*newFunc
	calls map[*types.Func]int // uses in call position that are left
}

type newFunc struct {
	decl *ast.FuncDecl
	file string
	key  string
	obj  *types.Func
	// inline: may be expanded in place; literal: may be turned into a
	// function literal (go and defer statements)
	inline, literal bool
	uses            int
}

type edit struct {
	file       string
	start, end int // claimed range
	reps       []rep
	id         string
}

type rep struct {
	start, end int
	text       string
}

func (w *inliner) check(text map[string][]byte) error {
	fset := token.NewFileSet()
	asts := map[string]*ast.File{}
	var list []*ast.File
	for _, f := range w.files {
		a, err := parser.ParseFile(fset, f, text[f], parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		asts[f] = a
		list = append(list, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	cfg := &types.Config{Importer: pkImporter{w.pk}, Sizes: w.pk.TypesSizes}
	if w.pk.Module != nil && w.pk.Module.GoVersion != "" {
		cfg.GoVersion = "go" + w.pk.Module.GoVersion
	}
	tp, err := cfg.Check(w.pk.PkgPath, fset, list, info)
	if err != nil {
		return err
	}
	w.fset, w.asts, w.info, w.tpkg = fset, asts, info, tp
	return nil
}

type pkImporter struct{ pk *packages.Package }

func (i pkImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if d := i.pk.Imports[path]; d != nil && d.Types != nil {
		return d.Types, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func (w *inliner) run() {
	w.changed = map[string]bool{}
	w.goneKeys = map[string]bool{}
	if err := w.check(w.text); err != nil {
		w.notes = append(w.notes, "inlining skipped: "+err.Error())
		return
	}
	for round := 0; round < 200; round++ {
		w.collect()
		edits := w.edits()
		if len(edits) == 0 {
			break
		}
		if next, ok := w.try(edits); ok {
			w.text = next
			for _, e := range edits {
				w.changed[e.file] = true
			}
			continue
		}
		progress := false
		for _, e := range edits {
			// offsets hold for the text at the start of the round only
			if next, ok := w.try([]edit{e}); ok {
				w.text = next
				w.changed[e.file] = true
				progress = true
				break
			}
			w.bad[e.id] = true
			if debugOn {
				b, _ := w.apply([]edit{e})
				fmt.Fprintf(os.Stderr, "inline: dropped %s: %v\n", e.id, w.check(b))
				os.WriteFile("/tmp/inl.go", b[e.file], 0o644)
			}
		}
		if !progress {
			if err := w.check(w.text); err != nil {
				break
			}
		}
	}
	if err := w.check(w.text); err != nil {
		w.changed = map[string]bool{}
		return
	}
	w.collect()
	for _, n := range w.news {
		if n.uses == 0 && !n.obj.Exported() && w.ever(n.key) {
			w.goneKeys[n.key] = true
		}
	}
}

var everInlined = map[string]bool{}

func (w *inliner) ever(key string) bool { return everInlined[key] }

func (w *inliner) apply(edits []edit) (map[string][]byte, bool) {
	next := map[string][]byte{}
	for f, b := range w.text {
		next[f] = b
	}
	by := map[string][]rep{}
	for _, e := range edits {
		by[e.file] = append(by[e.file], e.reps...)
	}
	for f, rs := range by {
		sort.SliceStable(rs, func(i, j int) bool { return rs[i].start < rs[j].start })
		var buf bytes.Buffer
		at := 0
		for _, r := range rs {
			if r.start < at {
				return nil, false
			}
			buf.Write(w.text[f][at:r.start])
			buf.WriteString(r.text)
			at = r.end
		}
		buf.Write(w.text[f][at:])
		next[f] = buf.Bytes()
	}
	return next, true
}

func (w *inliner) try(edits []edit) (map[string][]byte, bool) {
	next, ok := w.apply(edits)
	if !ok {
		return nil, false
	}
	if err := w.check(next); err != nil {
		if debugOn {
			fmt.Fprintf(os.Stderr, "inline: %v\n", err)
		}
		return nil, false
	}
	for _, e := range edits {
		if i := strings.Index(e.id, "#"); i > 0 {
			everInlined[e.id[:i]] = true
		}
	}
	return next, true
}

// collect finds the new functions and what may be done with them.
func (w *inliner) collect() {
	w.news = map[*types.Func]*newFunc{}
	for f, a := range w.asts {
		rel := relDir(w.repo, f)
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "_" || fd.Name.Name == "main" {
				continue
			}
			k := funcKey(rel, fd)
			if isBaseFunc(k) {
				continue
			}
			obj, _ := w.info.Defs[fd.Name].(*types.Func)
			if obj == nil {
				continue
			}
			n := &newFunc{decl: fd, file: f, key: k, obj: obj}
			sig := obj.Type().(*types.Signature)
			if sig.TypeParams().Len() == 0 && sig.RecvTypeParams().Len() == 0 {
				n.inline, n.literal = true, true
			}
			lit := 0
			var visit func(nd ast.Node) bool
			visit = func(nd ast.Node) bool {
				switch x := nd.(type) {
				case *ast.FuncLit:
					lit++
					ast.Inspect(x.Body, visit)
					lit--
					return false
				case *ast.DeferStmt:
					if lit == 0 {
						n.inline = false
					}
				case *ast.LabeledStmt:
					n.inline = false
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok {
						if b, ok := w.info.Uses[id].(*types.Builtin); ok && b.Name() == "recover" && lit == 0 {
							n.inline = false
						}
					}
				}
				return true
			}
			ast.Inspect(fd.Body, visit)
			w.news[obj] = n
		}
	}
	// uses; recursion
	inner := map[*types.Func]map[*types.Func]bool{}
	for _, a := range w.asts {
		for _, d := range a.Decls {
			var self *types.Func
			if fd, ok := d.(*ast.FuncDecl); ok {
				self, _ = w.info.Defs[fd.Name].(*types.Func)
			}
			ast.Inspect(d, func(nd ast.Node) bool {
				id, ok := nd.(*ast.Ident)
				if !ok {
					return true
				}
				fo, ok := w.info.Uses[id].(*types.Func)
				if !ok {
					return true
				}
				if n := w.news[fo]; n != nil {
					n.uses++
					if self != nil {
						if inner[self] == nil {
							inner[self] = map[*types.Func]bool{}
						}
						inner[self][fo] = true
					}
				}
				return true
			})
		}
	}
	for fo, n := range w.news {
		for g := range inner[fo] {
			m := w.news[g]
			if g == fo || m.inline || m.literal {
				// inline the inner ones first; recursive ones never
				if g == fo {
					n.inline, n.literal = false, false
				} else if m.inline && !w.badAll(m) {
					n.inline, n.literal = false, false
				}
			}
		}
	}
}

func (w *inliner) badAll(n *newFunc) bool { return w.bad[n.key] }

func (w *inliner) off(p token.Pos) int { return w.fset.File(p).Offset(p) }

func (w *inliner) src(file string, n ast.Node) string {
	return string(w.text[file][w.off(n.Pos()):w.off(n.End())])
}

func (w *inliner) line(p token.Pos) string {
	q := w.fset.PositionFor(p, false)
	return fmt.Sprintf("/*line %s:%d:%d*/", q.Filename, q.Line, q.Column)
}

func (w *inliner) callee(c *ast.CallExpr) *newFunc {
	f := ast.Unparen(c.Fun)
	switch x := f.(type) {
	case *ast.Ident:
		if fo, ok := w.info.Uses[x].(*types.Func); ok {
			return w.news[fo]
		}
	case *ast.SelectorExpr:
		s := w.info.Selections[x]
		if s == nil || s.Kind() != types.MethodVal || len(s.Index()) != 1 {
			return nil
		}
		if fo, ok := s.Obj().(*types.Func); ok {
			return w.news[fo]
		}
	}
	return nil
}

// edits: at most one per outermost statement that holds a call of an
// inlinable new function.
func (w *inliner) edits() []edit {
	var out []edit
	for _, f := range w.files {
		last := -1
		for _, d := range w.asts[f].Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			w.stmts(f, fd.Body, func(e edit) bool {
				if w.bad[e.id] || e.start < last {
					return false
				}
				last = e.end
				out = append(out, e)
				return true
			})
		}
	}
	return out
}

// candidate: a call inside n, not in a nested function or statement list,
// that could be inlined.
func (w *inliner) candidate(f string, n ast.Node) bool {
	if n == nil {
		return false
	}
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.CallExpr:
			if nf := w.callee(x); nf != nil && nf.inline && !w.bad[w.id(f, nf, x)] {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

func (w *inliner) id(f string, n *newFunc, at ast.Node) string {
	q := w.fset.PositionFor(at.Pos(), false)
	return fmt.Sprintf("%s#%s:%d:%d", n.key, filepath.Base(q.Filename), q.Line, q.Column)
}

// stmts walks all statement lists below body, outermost first.
func (w *inliner) stmts(f string, body ast.Node, add func(edit) bool) {
	ast.Inspect(body, func(n ast.Node) bool {
		var list []ast.Stmt
		switch x := n.(type) {
		case *ast.BlockStmt:
			list = x.List
		case *ast.CaseClause:
			list = x.Body
		case *ast.CommClause:
			list = x.Body
		default:
			return true
		}
		for _, s := range list {
			if e, ok := w.stmt(f, s); ok {
				add(e)
			}
		}
		return true
	})
}

func (w *inliner) fresh(p string) string {
	w.seq++
	return fmt.Sprintf("zz%s%d", p, w.seq)
}

// stmt finds the edit for one statement of a list.
func (w *inliner) stmt(f string, s ast.Stmt) (edit, bool) {
	e := edit{file: f, start: w.off(s.Pos()), end: w.off(s.End())}
	var heads []ast.Node
	switch x := s.(type) {
	case *ast.GoStmt:
		if ed, ok := w.literalCall(f, s, x.Call); ok {
			return ed, true
		}
		heads = append(heads, x.Call)
	case *ast.DeferStmt:
		if ed, ok := w.literalCall(f, s, x.Call); ok {
			return ed, true
		}
		heads = append(heads, x.Call)
	case *ast.IfStmt:
		// an else-if with calls of its own becomes a block
		for i := x; i != nil; {
			ei, ok := i.Else.(*ast.IfStmt)
			if !ok {
				break
			}
			if (ei.Init != nil && w.candidate(f, ei.Init)) || w.candidate(f, ei.Cond) {
				e.reps = []rep{{w.off(ei.Pos()), w.off(ei.Pos()), "{" + w.line(ei.Pos())}, {w.off(ei.End()), w.off(ei.End()), "}"}}
				e.id = "else" + w.line(ei.Pos())
				return e, true
			}
			i = ei
		}
		if x.Init != nil {
			if w.candidate(f, x.Init) {
				heads = append(heads, simpleHeads(x.Init)...)
				break
			}
			if w.candidate(f, x.Cond) {
				return w.pullInit(f, s, x.Init, x.Pos(), "if ", x.Cond.Pos()), true
			}
			return e, false
		}
		heads = append(heads, x.Cond)
	case *ast.SwitchStmt:
		if x.Init != nil {
			if w.candidate(f, x.Init) {
				heads = append(heads, simpleHeads(x.Init)...)
				break
			}
			if x.Tag != nil && w.candidate(f, x.Tag) {
				return w.pullInit(f, s, x.Init, x.Pos(), "switch ", x.Tag.Pos()), true
			}
			return e, false
		}
		if x.Tag != nil {
			heads = append(heads, x.Tag)
		}
	case *ast.ForStmt:
		if x.Init != nil && w.candidate(f, x.Init) {
			heads = append(heads, simpleHeads(x.Init)...)
			break
		}
		if x.Cond != nil && w.candidate(f, x.Cond) {
			e.id = "for" + w.line(x.Pos())
			e.reps = []rep{{w.off(x.Cond.Pos()), w.off(x.Cond.End()), map[bool]string{true: " ", false: "; ;"}[x.Init != nil || x.Post != nil || hasSemi(w.text[f][w.off(x.For):w.off(x.Body.Pos())])]},
				{w.off(x.Body.Lbrace) + 1, w.off(x.Body.Lbrace) + 1, "if !(" + w.line(x.Cond.Pos()) + w.src(f, x.Cond) + ") { break };" + w.line(x.Body.Lbrace+1)}}
			return e, true
		}
		return e, false
	case *ast.RangeStmt:
		heads = append(heads, x.X)
	case *ast.LabeledStmt, *ast.SelectStmt, *ast.BlockStmt, *ast.TypeSwitchStmt:
		return e, false
	default:
		heads = simpleHeads(s)
	}
	any := false
	for _, h := range heads {
		if w.candidate(f, h) {
			any = true
		}
	}
	if !any {
		return e, false
	}
	return w.hoist(f, s, heads)
}

func hasSemi(b []byte) bool { return bytes.IndexByte(b, ';') >= 0 }

// pullInit turns "if init; cond {...}" into "{ init; if cond {...} }".
func (w *inliner) pullInit(f string, s, init ast.Stmt, at token.Pos, kw string, rest token.Pos) edit {
	e := edit{file: f, start: w.off(s.Pos()), end: w.off(s.End()), id: "init" + w.line(at)}
	e.reps = []rep{
		{w.off(s.Pos()), w.off(rest), "{" + w.line(init.Pos()) + w.src(f, init) + ";" + kw + w.line(rest)},
		{w.off(s.End()), w.off(s.End()), "}"},
	}
	return e
}

func simpleHeads(s ast.Stmt) []ast.Node {
	var out []ast.Node
	switch x := s.(type) {
	case *ast.ExprStmt:
		out = append(out, x.X)
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			out = append(out, l)
		}
		for _, r := range x.Rhs {
			out = append(out, r)
		}
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			out = append(out, r)
		}
	case *ast.IncDecStmt:
		out = append(out, x.X)
	case *ast.SendStmt:
		out = append(out, x.Chan, x.Value)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// hoist moves the first call evaluated in the heads in front of s.
func (w *inliner) hoist(f string, s ast.Stmt, heads []ast.Node) (edit, bool) {
	e := edit{file: f, start: w.off(s.Pos()), end: w.off(s.End())}
	if st, ok := s.(interface{ Body() }); ok {
		_ = st
	}
	var target ast.Expr
	var walk func(n ast.Node) bool // true: stop
	left := func(n ast.Node) bool { return w.candidate(f, n) }
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case nil:
			return false
		case *ast.FuncLit:
			return false
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR {
				if left(x.X) {
					return walk(x.X)
				}
				if left(x.Y) {
					target = x
					return true
				}
				if hasCall(w, x) {
					target = x
					return true
				}
				return false
			}
			return walk(x.X) || walk(x.Y)
		case *ast.CallExpr:
			tv := w.info.Types[x.Fun]
			if tv.IsType() {
				for _, a := range x.Args {
					if walk(a) {
						return true
					}
				}
				return false
			}
			if walk(x.Fun) {
				return true
			}
			for _, a := range x.Args {
				if walk(a) {
					return true
				}
			}
			if tv.IsBuiltin() {
				switch builtinName(x) {
				case "len", "cap", "append", "make", "new", "min", "max", "real", "imag", "complex":
					return false
				}
			}
			target = x
			return true
		case *ast.UnaryExpr:
			if walk(x.X) {
				return true
			}
			if x.Op == token.ARROW {
				target = x
				return true
			}
			return false
		case *ast.KeyValueExpr:
			return walk(x.Key) || walk(x.Value)
		case *ast.CompositeLit:
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					if walk(kv.Value) {
						return true
					}
					continue
				}
				if walk(el) {
					return true
				}
			}
			return false
		case *ast.ParenExpr:
			return walk(x.X)
		case *ast.SelectorExpr:
			return walk(x.X)
		case *ast.StarExpr:
			return walk(x.X)
		case *ast.IndexExpr:
			return walk(x.X) || walk(x.Index)
		case *ast.SliceExpr:
			for _, y := range []ast.Expr{x.X, x.Low, x.High, x.Max} {
				if y != nil && walk(y) {
					return true
				}
			}
			return false
		case *ast.TypeAssertExpr:
			return walk(x.X)
		}
		return false
	}
	for i, h := range heads {
		if walk(h) {
			// nothing hoistable may follow from here on
			rest := left(h)
			for _, r := range heads[i+1:] {
				rest = rest || left(r)
			}
			if !rest {
				return e, false
			}
			break
		}
	}
	if target == nil {
		return e, false
	}
	switch x := target.(type) {
	case *ast.BinaryExpr:
		v := w.fresh("c")
		neg := ""
		if x.Op == token.LOR {
			neg = "!"
		}
		if b, ok := w.info.Types[x].Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			return e, false
		}
		pre := fmt.Sprintf("%s := bool(%s%s); if %s%s { %s = bool(%s%s) };", v, w.line(x.X.Pos()), w.src(f, x.X), neg, v, v, w.line(x.Y.Pos()), w.src(f, x.Y))
		e.id = "bool" + w.line(x.Pos())
		e.reps = []rep{{e.start, e.start, pre + w.line(s.Pos())}, {w.off(x.Pos()), w.off(x.End()), v + w.line(x.End())}}
		return e, true
	case *ast.UnaryExpr:
		v := w.fresh("v")
		if _, tuple := w.info.Types[x].Type.(*types.Tuple); tuple {
			return e, false
		}
		e.id = "recv" + w.line(x.Pos())
		e.reps = []rep{{e.start, e.start, v + " := " + w.line(x.Pos()) + w.src(f, x) + ";" + w.line(s.Pos())}, {w.off(x.Pos()), w.off(x.End()), v + w.line(x.End())}}
		return e, true
	case *ast.CallExpr:
		nf := w.callee(x)
		if nf == nil || !nf.inline || w.bad[w.id(f, nf, x)] {
			// an ordinary call evaluated before: keep its place
			t := w.info.Types[x].Type
			if t == nil {
				return e, false
			}
			if tu, ok := t.(*types.Tuple); ok && tu.Len() != 1 {
				return e, false
			}
			if len(heads) == 1 && heads[0] == ast.Node(x) {
				return e, false
			}
			v := w.fresh("v")
			e.id = "call" + w.line(x.Pos())
			e.reps = []rep{{e.start, e.start, v + " := " + w.line(x.Pos()) + w.src(f, x) + ";" + w.line(s.Pos())}, {w.off(x.Pos()), w.off(x.End()), v + w.line(x.End())}}
			return e, true
		}
		pre, repl, ok := w.expand(f, nf, x)
		e.id = w.id(f, nf, x)
		if !ok {
			w.bad[e.id] = true
			return e, false
		}
		e.reps = []rep{{e.start, e.start, pre + w.line(s.Pos())}}
		if es, isE := s.(*ast.ExprStmt); isE && ast.Unparen(es.X) == ast.Expr(x) {
			e.reps = []rep{{e.start, e.end, pre + w.line(s.End())}}
		} else {
			e.reps = append(e.reps, rep{w.off(x.Pos()), w.off(x.End()), repl + w.line(x.End())})
		}
		e.reps = append(e.reps, w.imports(f, nf, x)...)
		return e, true
	}
	return e, false
}

func builtinName(c *ast.CallExpr) string {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func hasCall(w *inliner, n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			tv := w.info.Types[x.Fun]
			if !tv.IsType() && !(tv.IsBuiltin() && (builtinName(x) == "len" || builtinName(x) == "cap")) {
				hit = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

// captured tells whether a name used by nf means something else at the call.
func (w *inliner) captured(f string, nf *newFunc, at token.Pos) bool {
	sc := w.tpkg.Scope().Innermost(at)
	if sc == nil {
		return true
	}
	bad := false
	ast.Inspect(nf.decl, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || bad {
			return !bad
		}
		o := w.info.Uses[id]
		if o == nil || o.Parent() == nil {
			return true
		}
		_, isPkg := o.(*types.PkgName)
		if o.Parent() != w.tpkg.Scope() && o.Parent() != types.Universe && !isPkg {
			return true
		}
		_, got := sc.LookupParent(id.Name, at)
		if isPkg {
			if got == nil {
				return true // import added
			}
			g, ok := got.(*types.PkgName)
			if !ok || g.Imported() != o.(*types.PkgName).Imported() {
				bad = true
			}
			return true
		}
		if got != o {
			bad = true
		}
		return true
	})
	return bad
}

// imports adds the imports nf needs to the calling file.
func (w *inliner) imports(f string, nf *newFunc, at ast.Node) []rep {
	if f == nf.file {
		return nil
	}
	sc := w.tpkg.Scope().Innermost(at.Pos())
	need := map[string]string{}
	ast.Inspect(nf.decl, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
				if _, got := sc.LookupParent(id.Name, at.Pos()); got == nil {
					for p, d := range w.pk.Imports {
						if d.Types == pn.Imported() {
							need[id.Name] = p
						}
					}
				}
			}
		}
		return true
	})
	if len(need) == 0 {
		return nil
	}
	var names []string
	for n := range need {
		names = append(names, n)
	}
	sort.Strings(names)
	a := w.asts[f]
	o := w.off(a.Name.End())
	t := ""
	for _, n := range names {
		t += fmt.Sprintf("; import %s %q", n, need[n])
	}
	return []rep{{o, o, t}}
}

// params lists the parameters of nf, receiver first: name, type text, and
// the argument expressions of the call.
func (w *inliner) params(f string, nf *newFunc, c *ast.CallExpr) (names, typs, args []string, ok bool) {
	sig := nf.obj.Type().(*types.Signature)
	d := nf.decl
	if d.Recv != nil {
		sel, isSel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		if !isSel || len(d.Recv.List) != 1 {
			return nil, nil, nil, false
		}
		n := "_"
		if len(d.Recv.List[0].Names) == 1 {
			n = d.Recv.List[0].Names[0].Name
		}
		t := w.info.Types[sel.X].Type
		_, xPtr := t.Underlying().(*types.Pointer)
		_, rPtr := sig.Recv().Type().(*types.Pointer)
		a := w.line(sel.X.Pos()) + w.src(f, sel.X)
		switch {
		case rPtr && !xPtr:
			a = "&(" + a + ")"
		case !rPtr && xPtr:
			a = "*(" + a + ")"
		}
		names, typs, args = append(names, n), append(typs, w.src(nf.file, d.Recv.List[0].Type)), append(args, a)
	}
	var pn, pt []string
	variadic := -1
	for _, fl := range d.Type.Params.List {
		t := w.src(nf.file, fl.Type)
		if el, ok := fl.Type.(*ast.Ellipsis); ok {
			t = "[]" + w.src(nf.file, el.Elt)
			variadic = len(pn)
		}
		if len(fl.Names) == 0 {
			pn, pt = append(pn, "_"), append(pt, t)
		}
		for _, n := range fl.Names {
			pn, pt = append(pn, n.Name), append(pt, t)
		}
	}
	var av []string
	for _, a := range c.Args {
		av = append(av, w.line(a.Pos())+w.src(f, a))
	}
	if variadic >= 0 && !c.Ellipsis.IsValid() {
		if len(av) < variadic {
			return nil, nil, nil, false
		}
		rest := av[variadic:]
		if len(rest) == 0 {
			av = append(av[:variadic:variadic], "nil")
		} else {
			av = append(av[:variadic:variadic], pt[variadic]+"{"+strings.Join(rest, ", ")+"}")
		}
	}
	if len(av) != len(pn) {
		return nil, nil, nil, false
	}
	return append(names, pn...), append(typs, pt...), append(args, av...), true
}

func (w *inliner) expand(f string, nf *newFunc, c *ast.CallExpr) (pre, repl string, ok bool) {
	if w.captured(f, nf, c.Pos()) {
		return "", "", false
	}
	names, typs, args, ok := w.params(f, nf, c)
	if !ok {
		return "", "", false
	}
	var b strings.Builder
	var tmps []string
	for i := range names {
		t := w.fresh("a")
		tmps = append(tmps, t)
		fmt.Fprintf(&b, "var %s %s = %s; _ = %s;", t, typs[i], args[i], t)
	}
	// results
	var res, named []string
	var bind strings.Builder
	if rl := nf.decl.Type.Results; rl != nil {
		for _, fl := range rl.List {
			k := len(fl.Names)
			if k == 0 {
				k = 1
			}
			for i := 0; i < k; i++ {
				r := w.fresh("r")
				res = append(res, r)
				fmt.Fprintf(&b, "var %s %s; _ = %s;", r, w.src(nf.file, fl.Type), r)
				if len(fl.Names) > 0 {
					n := fl.Names[i].Name
					if n == "_" {
						n = w.fresh("n")
					}
					named = append(named, n)
					fmt.Fprintf(&bind, "var %s %s; _ = %s;", n, w.src(nf.file, fl.Type), n)
				}
			}
		}
	}
	b.WriteString("{")
	for i, n := range names {
		if n != "_" {
			// the type of a parameter may be spelled like a parameter
			fmt.Fprintf(&b, "%s := %s; _ = %s;", n, tmps[i], n)
		}
	}
	b.WriteString(bind.String())
	label := w.fresh("L")
	body, useLabel := w.body(nf, res, named, label)
	if useLabel {
		fmt.Fprintf(&b, "%s: switch { default: %s }", label, body)
	} else {
		b.WriteString(body)
	}
	b.WriteString("};")
	return b.String(), strings.Join(res, ", "), true
}

// body is the text of nf's body with its returns turned into assignments.
func (w *inliner) body(nf *newFunc, res, named []string, label string) (string, bool) {
	d := nf.decl
	src := w.text[nf.file]
	var rets []*ast.ReturnStmt
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			rets = append(rets, x)
		}
		return true
	})
	var last *ast.ReturnStmt
	if k := len(d.Body.List); k > 0 {
		last, _ = d.Body.List[k-1].(*ast.ReturnStmt)
	}
	var b strings.Builder
	at := w.off(d.Body.Lbrace) + 1
	b.WriteString(w.line(d.Body.Lbrace + 1))
	useLabel := false
	for _, r := range rets {
		b.Write(src[at:w.off(r.Pos())])
		b.WriteString("{")
		if len(r.Results) > 0 {
			b.WriteString(strings.Join(res, ", ") + " = ")
			b.WriteString(w.line(r.Results[0].Pos()))
			b.Write(src[w.off(r.Results[0].Pos()):w.off(r.End())])
		} else if len(named) > 0 {
			b.WriteString(strings.Join(res, ", ") + " = " + strings.Join(named, ", "))
		}
		if r != last {
			b.WriteString("; break " + label)
			useLabel = true
		}
		b.WriteString("}" + w.line(r.End()))
		at = w.off(r.End())
	}
	b.Write(src[at:w.off(d.Body.Rbrace)])
	if last == nil && len(named) > 0 && false {
		b.WriteString(strings.Join(res, ", ") + " = " + strings.Join(named, ", "))
	}
	b.WriteString("\n")
	return b.String(), useLabel
}

// literalCall turns "defer f(x)" of a new function into a deferred literal.
func (w *inliner) literalCall(f string, s ast.Stmt, c *ast.CallExpr) (edit, bool) {
	e := edit{file: f, start: w.off(s.Pos()), end: w.off(s.End())}
	nf := w.callee(c)
	if nf == nil || !nf.literal || c.Ellipsis.IsValid() {
		return e, false
	}
	e.id = w.id(f, nf, c)
	if w.bad[e.id] {
		return e, false
	}
	if w.captured(f, nf, c.Pos()) {
		w.bad[e.id] = true
		return e, false
	}
	names, typs, args, ok := w.params(f, nf, c)
	if !ok {
		w.bad[e.id] = true
		return e, false
	}
	var ps []string
	for i := range names {
		ps = append(ps, names[i]+" "+typs[i])
	}
	res := ""
	if rl := nf.decl.Type.Results; rl != nil {
		res = w.src(nf.file, rl)
		if rl.Opening == token.NoPos {
			res = "(" + res + ")"
		}
	}
	body := w.line(nf.decl.Body.Pos()) + w.src(nf.file, nf.decl.Body)
	e.reps = []rep{{w.off(c.Pos()), w.off(c.End()), "func(" + strings.Join(ps, ", ") + ") " + res + body + "(" + strings.Join(args, ", ") + ")" + w.line(c.End())}}
	e.reps = append(e.reps, w.imports(f, nf, c)...)
	return e, true
}
