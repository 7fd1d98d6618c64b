package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R10"] = propDef{run: checkR10, assumptions: []string{
		"files that are never compiled together in this repository (templates behind build tags, embedded copies, the compiler's part, patches) are read as syntax and type checked file by file, as far as they resolve",
		"what the functions do, beyond their names, signatures and which handler they pass their arguments to, is decided by other properties (R12, R15, I03, I04, I05)",
	}}
}

// unit10 is a set of files read together.
type unit10 struct {
	name  string
	files []*ast.File
	info  *types.Info
	pkg   *types.Package
	raw   string
}

type noImporter struct{ std types.Importer }

func (n noImporter) Import(path string) (*types.Package, error) {
	switch path {
	case "unsafe":
		return types.Unsafe, nil
	case "strconv", "strings":
		if n.std != nil {
			if p, err := n.std.Import(path); err == nil {
				return p, nil
			}
		}
	}
	return nil, fmt.Errorf("not resolved")
}

var imp10 = noImporter{}

// load10 reads files (relative to the repository) as one package.
func (c *Ctx) load10(name string, paths ...string) *unit10 {
	u := &unit10{name: name}
	fset := token.NewFileSet()
	for _, p := range paths {
		b, err := os.ReadFile(filepath.Join(c.Repo, p))
		if err != nil {
			c.Viol("files", p, "file", "this file is part of what xgo links together and cannot be read: %v", err)
			return nil
		}
		u.raw += string(b) + "\n"
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			c.Viol("files", p, "syntax", "this file is written into a Go tree or package and is not valid Go: %v", err)
			return nil
		}
		u.files = append(u.files, f)
	}
	u.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp10, Error: func(error) {}, FakeImportC: true}
	u.pkg, _ = conf.Check(name, fset, u.files, u.info)
	return u
}

// goFiles lists the Go files (not tests) of a directory, with the given suffix.
func (c *Ctx) goFiles(dir string) []string {
	var out []string
	ents, _ := os.ReadDir(filepath.Join(c.Repo, dir))
	for _, e := range ents {
		n := e.Name()
		if !e.IsDir() && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			out = append(out, filepath.Join(dir, n))
		}
	}
	return out
}

func (u *unit10) typeSpec(name string) *ast.TypeSpec {
	for _, f := range u.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if t, ok := s.(*ast.TypeSpec); ok && t.Name.Name == name {
						return t
					}
				}
			}
		}
	}
	return nil
}

// norm writes a type without the names of parameters and of local named types.
func (u *unit10) norm(e ast.Expr) string {
	switch t := e.(type) {
	case nil:
		return ""
	case *ast.ParenExpr:
		return u.norm(t.X)
	case *ast.Ident:
		if t.Name == "any" {
			return "interface{}"
		}
		if s := u.typeSpec(t.Name); s != nil {
			if _, ok := s.Type.(*ast.StructType); !ok {
				return u.norm(s.Type)
			}
			return "struct " + t.Name
		}
		switch t.Name {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return t.Name
	case *ast.SelectorExpr:
		return u.norm(t.X) + "." + t.Sel.Name
	case *ast.StarExpr:
		return "*" + u.norm(t.X)
	case *ast.ArrayType:
		n := ""
		if t.Len != nil {
			n = types.ExprString(t.Len)
		}
		return "[" + n + "]" + u.norm(t.Elt)
	case *ast.MapType:
		return "map[" + u.norm(t.Key) + "]" + u.norm(t.Value)
	case *ast.Ellipsis:
		return "..." + u.norm(t.Elt)
	case *ast.FuncType:
		return "func(" + u.fieldTypes(t.Params) + ")(" + u.fieldTypes(t.Results) + ")"
	case *ast.InterfaceType:
		if len(t.Methods.List) == 0 {
			return "interface{}"
		}
	}
	return types.ExprString(e)
}

func (u *unit10) fieldTypes(l *ast.FieldList) string {
	if l == nil {
		return ""
	}
	var out []string
	for _, f := range l.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			out = append(out, u.norm(f.Type))
		}
	}
	return strings.Join(out, ",")
}

// fieldsOf lists "Name type" of the fields of a struct type.
func (u *unit10) fieldsOf(name string) []string {
	s := u.typeSpec(name)
	if s == nil {
		return nil
	}
	st, ok := s.Type.(*ast.StructType)
	if !ok {
		return nil
	}
	return u.structFields(st)
}

func (u *unit10) structFields(st *ast.StructType) []string {
	var out []string
	for _, f := range st.Fields.List {
		if len(f.Names) == 0 {
			out = append(out, u.norm(f.Type))
		}
		for _, n := range f.Names {
			out = append(out, n.Name+" "+u.norm(f.Type))
		}
	}
	return out
}

func (u *unit10) funcs() map[string]*ast.FuncDecl {
	m := map[string]*ast.FuncDecl{}
	for _, f := range u.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				m[fd.Name.Name] = fd
			}
		}
	}
	return m
}

func (u *unit10) constVal(name string) (string, bool) {
	o, ok := u.pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return "", false
	}
	if o.Val().Kind() == constant.String {
		return constant.StringVal(o.Val()), true
	}
	return o.Val().ExactString(), o.Val().Kind() != constant.Unknown
}

// varInit is the initial value of a package variable.
func (u *unit10) varInit(name string) ast.Expr {
	for _, f := range u.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					for i, n := range v.Names {
						if n.Name == name && i < len(v.Values) {
							return v.Values[i]
						}
					}
				}
			}
		}
	}
	return nil
}

// strs are the constant strings of the unit, each as large as it is constant.
func (u *unit10) strs() []string {
	var out []string
	for _, f := range u.files {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			if tv, ok := u.info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
				out = append(out, constant.StringVal(tv.Value))
				return false
			}
			if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.STRING {
				if s, err := strconv.Unquote(b.Value); err == nil {
					out = append(out, s)
				}
			}
			return true
		})
	}
	return out
}

type tokn struct {
	tok token.Token
	lit string
}

func tokens10(s string) []tokn {
	var sc scanner.Scanner
	fset := token.NewFileSet()
	f := fset.AddFile("", -1, len(s))
	sc.Init(f, []byte(s), func(token.Position, string) {}, 0)
	var out []tokn
	for {
		_, t, l := sc.Scan()
		if t == token.EOF {
			return out
		}
		if t == token.SEMICOLON && l == "\n" {
			continue
		}
		out = append(out, tokn{t, l})
	}
}

type use10 struct {
	name string
	args int // -1: not known
	qual string
}

var xgoName = regexp.MustCompile(`^(__xgo_[a-z0-9_]+|Xgo[A-Z]\w*)$`)

// uses10 are the functions of xgo a text calls and those it declares.
func uses10(s string) (calls []use10, defs map[string]int) {
	defs = map[string]int{}
	ts := tokens10(s)
	for i := 0; i+1 < len(ts); i++ {
		if i > 0 && ts[i].tok == token.IDENT && ts[i-1].tok == token.VAR && ts[i+1].tok == token.FUNC {
			defs[ts[i].lit] = -1
		}
		if ts[i].tok != token.IDENT || !xgoName.MatchString(ts[i].lit) || ts[i+1].tok != token.LPAREN {
			continue
		}
		n, depth, any, j := 0, 0, false, i+1
		for ; j < len(ts); j++ {
			switch ts[j].tok {
			case token.LPAREN, token.LBRACE, token.LBRACK:
				if depth > 0 {
					any = true
				}
				depth++
				continue
			case token.RPAREN, token.RBRACE, token.RBRACK:
				depth--
			case token.COMMA:
				if depth == 1 && j+1 < len(ts) && ts[j+1].tok != token.RPAREN {
					n++
				}
			default:
				any = true
			}
			if depth == 0 {
				break
			}
		}
		if any {
			n++
		}
		if depth != 0 {
			n = -1
		}
		if i > 0 && ts[i-1].tok == token.RPAREN {
			defs[ts[i].lit] = -1 // a method
			continue
		}
		if i > 0 && ts[i-1].tok == token.FUNC {
			defs[ts[i].lit] = n
			continue
		}
		q := ""
		if i > 1 && ts[i-1].tok == token.PERIOD {
			q = ts[i-2].lit
		}
		calls = append(calls, use10{ts[i].lit, n, q})
	}
	return
}

func paramCount(f *ast.FuncDecl) int {
	n := 0
	for _, p := range f.Type.Params.List {
		if len(p.Names) == 0 {
			n++
		}
		n += len(p.Names)
	}
	return n
}

func sameList(a, b []string) (int, bool) {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return i, false
		}
	}
	return 0, true
}

func at10(a []string, i int) string {
	if i < len(a) {
		return a[i]
	}
	return "nothing"
}

const genRT = "cmd/xgo/asset/runtime_gen"

func checkR10(c *Ctx) {
	c.Rule("files", "every file that is linked with others is there and is valid Go")
	c.Rule("layout", "the record of a function or variable has the same fields, of the same types and in the same order, where xgo generates it, in the runtime's template, in Go's runtime and in package core: the record is passed as a pointer and read by position")
	c.Rule("kinds", "the kinds of records have the same numbers everywhere")
	c.Rule("goroutine", "the state xgo keeps in Go's g has the fields of internal/runtime.G, in their order, first")
	c.Rule("constants", "the names and texts the compiler's part and xgo's part both know are the same")
	c.Rule("signature", "each generated function variable has the type of the runtime function it is linked to")
	c.Rule("link", "the table in the compiler links each generated name to its runtime function, which the compiler has been told about with its type")
	c.Rule("stubs", "each stub of internal/runtime has the type of its template, which passes its parameters, in order, to the function of Go's runtime that has its name")
	c.Rule("hooks", "the function a setter installs is the one the generated code of that kind reaches")
	c.Rule("calls", "every function of xgo that a text inserted into Go's tree calls is declared there, with that many parameters")
	c.Rule("compiler", "what the Go compiler is made to call of xgo's part exists there, and that part visits every function to link it")
	c.Rule("env", "every environment variable the instrumented toolchain depends on is one the command sets, to the value compared with")
	c.Rule("anchors", "the constants and lines xgo rewrites in the runtime are there in the form it looks for")
	c.Rule("packages", "the packages and files xgo looks up by name exist in the runtime")

	if imp10.std == nil {
		imp10.std = importer.ForCompiler(token.NewFileSet(), "source", nil)
	}

	// the units
	core := c.load10("core", c.goFiles("runtime/core")...)
	coreBase := filepath.Join("runtime", "core")
	_ = coreBase
	if core == nil {
		return
	}
	ref := core.fieldsOf("FuncInfo")
	if len(ref) == 0 {
		c.Viol("layout", "runtime/core", "FuncInfo", "the record type is not a struct with fields here")
		return
	}
	kindRe := regexp.MustCompile(`^(?:Xgo|Info)?Kind_(\w+)$`)
	kinds := func(u *unit10) map[string]string {
		m := map[string]string{}
		if u.pkg == nil {
			return m
		}
		for _, n := range u.pkg.Scope().Names() {
			if g := kindRe.FindStringSubmatch(n); g != nil {
				if v, ok := u.constVal(n); ok {
					m[g[1]] = v
				}
			}
		}
		return m
	}
	refKinds := kinds(core)
	checkKinds := func(u *unit10) {
		k := kinds(u)
		for _, n := range keys10(refKinds) {
			c.Obl("kinds", u.name+": "+n)
			if k[n] != refKinds[n] {
				c.Viol("kinds", u.name, n, "this kind is %q here and %q in runtime/core: records of one kind are taken for another", k[n], refKinds[n])
			}
		}
	}
	checkLayout := func(u *unit10, typ string, got []string) {
		c.Obl("layout", u.name+": "+typ)
		if i, ok := sameList(got, ref); !ok {
			c.Viol("layout", u.name, typ, "field %d of the record is %q here and %q in core.FuncInfo: the runtime reads the record by position", i, at10(got, i), at10(ref, i))
		}
	}
	genCore := c.load10("runtime_gen/core", c.goFiles(genRT+"/core")...)
	if genCore != nil {
		checkLayout(genCore, "core.FuncInfo (embedded copy)", genCore.fieldsOf("FuncInfo"))
		checkKinds(genCore)
	}

	// the parts of Go's runtime
	type tmpl struct {
		*unit10
		fns map[string]*ast.FuncDecl
	}
	var traps []tmpl
	trapPaths := []string{"runtime/internal/runtime/xgo_trap_template.go", genRT + "/internal/runtime/xgo_trap_template.go"}
	var versions []string
	for _, base := range []string{"patches", "cmd/xgo/asset/patches"} {
		ents, _ := os.ReadDir(filepath.Join(c.Repo, base))
		for _, e := range ents {
			if e.IsDir() && strings.HasPrefix(e.Name(), "go1.") {
				versions = append(versions, base+"/"+e.Name())
				f := base + "/" + e.Name() + "/src/runtime/xgo_trap.go"
				if base != "patches" {
					f += ".txt"
				}
				trapPaths = append(trapPaths, f)
			}
		}
	}
	for _, p := range trapPaths {
		if u := c.load10(p, p); u != nil {
			traps = append(traps, tmpl{u, u.funcs()})
		}
	}
	if len(traps) == 0 {
		return
	}
	g := c.load10("runtime/internal/runtime/g.go", "runtime/internal/runtime/g.go")
	gg := c.load10(genRT+"/internal/runtime/g.go", genRT+"/internal/runtime/g.go")
	for _, t := range traps {
		checkLayout(t.unit10, "XgoFuncInfo", t.fieldsOf("XgoFuncInfo"))
		checkKinds(t.unit10)
		for _, gu := range []*unit10{g, gg} {
			if gu == nil {
				continue
			}
			c.Obl("goroutine", t.name+": "+gu.name)
			want, got := gu.fieldsOf("G"), t.fieldsOf("__xgo_g")
			if len(want) == 0 {
				c.Viol("goroutine", gu.name, "G", "the state of a goroutine is not a struct with fields here")
				continue
			}
			if len(got) > len(want) {
				got = got[:len(want)]
			}
			if i, ok := sameList(got, want); !ok {
				c.Viol("goroutine", t.name, "__xgo_g", "field %d of a goroutine's state is %q here and %q in %s, which reads it by position", i, at10(got, i), at10(want, i), gu.name)
			}
		}
		c.hooks10(t.unit10, t.fns)
	}
	first := traps[0]

	// constants of the two parts of xgo and of its embedded copy
	var consts []*unit10
	for _, d := range []string{"instrument/constants", "patch/instrument/constants", "cmd/xgo/asset/compiler_patch_gen/instrument/constants"} {
		if u := c.load10(d, c.goFiles(d)...); u != nil && u.pkg != nil {
			consts = append(consts, u)
		}
	}
	pairs := []struct{ link, sig, fn string }{
		{"LINK_REGISTER", "REGISTER_SIGNATURE", "XgoRegister"},
		{"LINK_TRAP_FUNC", "TRAP_FUNC_SIGNATURE", "XgoTrap"},
		{"LINK_TRAP_VAR", "TRAP_VAR_SIGNATURE", "XgoTrapVar"},
		{"LINK_TRAP_VAR_PTR", "TRAP_VAR_PTR_SIGNATURE", "XgoTrapVarPtr"},
	}
	for i, u := range consts {
		checkKinds(u)
		checkLayout(u, "FUNC_INFO_FIELDS", c.listedFields(u))
		for _, n := range u.pkg.Scope().Names() {
			if i == 0 {
				break
			}
			v, ok := u.constVal(n)
			w, ok2 := consts[0].constVal(n)
			if !ok || !ok2 {
				continue
			}
			c.Obl("constants", u.name+": "+n)
			if v != w {
				c.Viol("constants", u.name, n, "this constant is %q here and %q in %s: what one part generates the other does not recognise", v, w, consts[0].name)
			}
		}
		for _, p := range pairs {
			sig, ok := u.constVal(p.sig)
			if !ok {
				c.Viol("signature", u.name, p.sig, "the text of the function variable linked to %s is not a constant here", p.fn)
				continue
			}
			e, err := parser.ParseExpr(sig)
			lit, isLit := e.(*ast.FuncLit)
			if err != nil || !isLit {
				c.Viol("signature", u.name, p.sig, "the text %q is not a function", sig)
				continue
			}
			for _, t := range traps {
				c.Obl("signature", u.name+": "+p.sig+" / "+t.name)
				fd := t.fns[p.fn]
				if fd == nil {
					c.Viol("signature", t.name, p.fn, "the function generated code is linked to is not declared here")
					continue
				}
				if a, b := u.norm(lit.Type), t.norm(fd.Type); a != b {
					c.Viol("signature", u.name, p.sig, "the generated variable is a %s, and the function %s it is linked to in %s is a %s", a, p.fn, t.name, b)
				}
			}
		}
	}

	// the compiler's table
	for _, d := range []string{"patch/link", "cmd/xgo/asset/compiler_patch_gen/link"} {
		u := c.load10(d, c.goFiles(d)...)
		if u == nil || u.pkg == nil {
			continue
		}
		table := u.table()
		prefix, _ := u.constVal("XGO_PREFIX")
		for _, k := range consts {
			for _, p := range pairs {
				v, ok := k.constVal(p.link)
				c.Obl("link", d+": "+p.link+" / "+k.name)
				if !ok {
					c.Viol("link", k.name, p.link, "the name of the function variable linked to %s is not a constant here", p.fn)
					continue
				}
				got := ""
				if strings.HasPrefix(v, prefix) {
					for _, e := range table {
						if strings.HasPrefix(v[len(prefix):]+"0", e[0]) {
							got = e[1]
							break
						}
					}
				}
				if got != p.fn {
					c.Viol("link", d, p.link, "the variables named %s<n> (in %s) are linked to %q, not to %s", v, k.name, got, p.fn)
				}
			}
			init, ok := k.constVal("INIT_FUNC")
			if !ok {
				continue
			}
			c.Obl("link", d+": INIT_FUNC / "+k.name)
			found := false
			for _, s := range u.strs() {
				found = found || s == init
			}
			if !found {
				c.Viol("link", d, "INIT_FUNC", "the compiler does not know the functions named %s<n> (in %s), in which the variables are linked", init, k.name)
			}
		}
	}
	// what the compiler is told about the runtime
	def := c.load10("instrument/instrument_compiler/link_ir_gen.go", "instrument/instrument_compiler/link_ir_gen.go")
	declared := map[string]string{}
	if def != nil {
		for _, s := range def.strs() {
			f, err := parser.ParseFile(token.NewFileSet(), "", "package p\n"+s, 0)
			if err != nil {
				c.Viol("link", def.name, "declarations", "the declarations added to the compiler's are not valid Go: %v", err)
				continue
			}
			du := &unit10{name: def.name, files: []*ast.File{f}}
			for n, fd := range du.funcs() {
				declared[n] = du.norm(fd.Type)
			}
		}
		for _, p := range pairs {
			if declared[p.fn] == "" {
				c.Viol("link", def.name, p.fn, "the compiler is not told about this function: the variables linked to it keep their empty function")
			}
		}
		for _, n := range keys10(declared) {
			for _, t := range traps {
				c.Obl("link", "declared "+n+" / "+t.name)
				fd := t.fns[n]
				if fd == nil {
					c.Viol("link", t.name, n, "the compiler is told about this function, which is not declared here")
				} else if a := t.norm(fd.Type); a != declared[n] {
					c.Viol("link", t.name, n, "this function is a %s and the compiler is told it is a %s", a, declared[n])
				}
			}
		}
	}

	// stubs and their templates
	realNow := "XgoRealNow"
	if len(consts) > 0 {
		if v, ok := consts[0].constVal("XGO_REAL_NOW"); ok {
			realNow = v
		}
	}
	type pair struct{ stub, tmpl string }
	legacy := "instrument/instrument_xgo_runtime/runtime_link_template_legacy_1_1_0.go"
	for _, p := range []pair{
		{"runtime/internal/runtime/runtime_link.go", "runtime/internal/runtime/runtime_link_template.go"},
		{genRT + "/internal/runtime/runtime_link.go", genRT + "/internal/runtime/runtime_link_template.go"},
		{"runtime/internal/runtime/runtime_link.go", legacy},
	} {
		su, tu := c.load10(p.stub, p.stub), c.load10(p.tmpl, p.tmpl)
		if su == nil || tu == nil {
			continue
		}
		sf, tf := su.funcs(), tu.funcs()
		for _, n := range keys10(sf) {
			if !strings.HasPrefix(n, "Xgo") {
				continue
			}
			c.Obl("stubs", p.tmpl+": "+n)
			fd := tf[n]
			if fd == nil {
				c.Viol("stubs", p.tmpl, n, "the runtime calls this function, which the file that replaces its stub does not declare")
				continue
			}
			if a, b := su.norm(sf[n].Type), tu.norm(fd.Type); a != b {
				c.Viol("stubs", p.tmpl, n, "this function is a %s here and a %s in %s", b, a, p.stub)
			}
		}
		for _, n := range keys10(tf) {
			if strings.HasPrefix(n, "Xgo") {
				c.forwards10(tu, tf[n], realNow, func(name string) (string, string, bool) {
					for _, t := range traps {
						fd := t.fns[name]
						if fd == nil {
							return "", t.name, false
						}
						if s := t.norm(fd.Type); s != tu.norm(tf[n].Type) {
							return s, t.name, true
						}
					}
					return "", "", true
				})
			}
		}
		if p.tmpl == legacy {
			checkLayout(tu, "XgoFuncInfo", tu.fieldsOf("XgoFuncInfo"))
			checkKinds(tu)
			c.legacyLinks10(tu)
		} else if s := tu.typeSpec("XgoFuncInfo"); s == nil || !s.Assign.IsValid() || types.ExprString(s.Type) != "runtime.XgoFuncInfo" {
			c.Obl("layout", p.tmpl)
			c.Viol("layout", p.tmpl, "XgoFuncInfo", "the record type of internal/runtime is not that of Go's runtime")
		}
	}

	// texts inserted into Go's tree
	var texts []string
	var textDirs []string
	root := filepath.Join(c.Repo, "instrument", "instrument_runtime")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			rel, _ := filepath.Rel(c.Repo, p)
			textDirs = append(textDirs, rel)
		}
		return nil
	})
	for _, d := range textDirs {
		if fs := c.goFiles(d); len(fs) > 0 {
			if u := c.load10(d, fs...); u != nil && u.info != nil {
				texts = append(texts, u.strs()...)
			}
		}
	}
	c.calls10("instrument/instrument_runtime", texts, []map[string]*ast.FuncDecl{first.fns, traps[1%len(traps)].fns}, nil, []string{realNow, "XgoRealSleep"})
	for _, v := range versions {
		var texts []string
		var srcs []map[string]*ast.FuncDecl
		var known []string
		filepath.Walk(filepath.Join(c.Repo, v), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			rel, _ := filepath.Rel(c.Repo, p)
			switch {
			case strings.HasSuffix(p, ".patch"):
				b, _ := os.ReadFile(p)
				texts = append(texts, directiveTexts(string(b))...)
			case strings.HasSuffix(p, ".go"), strings.HasSuffix(p, ".go.txt"):
				if u := c.load10(rel, rel); u != nil {
					srcs = append(srcs, u.funcs())
					if u.pkg != nil {
						for _, n := range u.pkg.Scope().Names() {
							if _, ok := u.pkg.Scope().Lookup(n).(*types.Var); ok {
								known = append(known, n)
							}
						}
					}
				}
			}
			return nil
		})
		c.calls10(v, texts, nil, srcs, known)
	}

	c.compiler10(versions)
	c.env10(versions)
	c.anchors10()
	c.packages10(consts)
	c.Floor("compiler", 4)
	c.Floor("env", 6)
	c.Floor("layout", 10)
	c.Floor("kinds", 20)
	c.Floor("signature", 12)
	c.Floor("link", 20)
	c.Floor("stubs", 20)
	c.Floor("calls", 10)
	c.Floor("hooks", 6)
	c.Floor("anchors", 4)
	c.Floor("packages", 8)
	c.Floor("goroutine", 4)
	c.Floor("constants", 10)
}

func keys10[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// listedFields are the fields written into the generated record type.
func (c *Ctx) listedFields(u *unit10) []string {
	lit, ok := u.varInit("FUNC_INFO_FIELDS").(*ast.CompositeLit)
	if !ok {
		return []string{"a list that is not written out"}
	}
	src := "package p\ntype T struct {\n"
	for _, e := range lit.Elts {
		tv := u.info.Types[e]
		if tv.Value == nil || tv.Value.Kind() != constant.String {
			return []string{"a field that is not a constant"}
		}
		src += constant.StringVal(tv.Value) + "\n"
	}
	f, err := parser.ParseFile(token.NewFileSet(), "", src+"}\n", 0)
	if err != nil {
		return []string{"fields that are not valid Go"}
	}
	fu := &unit10{files: []*ast.File{f}}
	return fu.fieldsOf("T")
}

// table is the list of (prefix, function) pairs the compiler links by.
func (u *unit10) table() [][2]string {
	var best [][2]string
	for _, f := range u.files {
		ast.Inspect(f, func(n ast.Node) bool {
			l, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			var rows [][2]string
			for _, e := range l.Elts {
				if ue, ok := e.(*ast.UnaryExpr); ok {
					e = ue.X
				}
				el, ok := e.(*ast.CompositeLit)
				if !ok {
					return true
				}
				var row [2]string
				for i, x := range el.Elts {
					k := ""
					if kv, ok := x.(*ast.KeyValueExpr); ok {
						if id, ok := kv.Key.(*ast.Ident); ok {
							k = id.Name
						}
						x = kv.Value
					}
					tv := u.info.Types[x]
					if tv.Value == nil || tv.Value.Kind() != constant.String {
						continue
					}
					if k == "From" || k == "" && i == 0 {
						row[0] = constant.StringVal(tv.Value)
					} else {
						row[1] = constant.StringVal(tv.Value)
					}
				}
				rows = append(rows, row)
			}
			if len(rows) > len(best) {
				best = rows
			}
			return true
		})
	}
	return best
}

// forwards10: the function calls, once, the runtime function of its name with
// its parameters.
func (c *Ctx) forwards10(u *unit10, fd *ast.FuncDecl, realNow string, find func(string) (string, string, bool)) {
	if fd.Body == nil {
		return
	}
	var calls []*ast.CallExpr
	var callee []string
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		ce, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		switch f := ce.Fun.(type) {
		case *ast.SelectorExpr:
			if strings.HasPrefix(f.Sel.Name, "Xgo") {
				calls, callee = append(calls, ce), append(callee, f.Sel.Name)
			}
		case *ast.Ident:
			if strings.HasPrefix(f.Name, "runtime_link_") {
				calls, callee = append(calls, ce), append(callee, strings.TrimPrefix(f.Name, "runtime_link_"))
			}
		}
		return true
	})
	name := fd.Name.Name
	c.Obl("stubs", u.name+": forwards "+name)
	if len(calls) != 1 {
		c.Viol("stubs", u.name, name, "this function calls %d functions of Go's runtime, not the one it stands for", len(calls))
		return
	}
	if callee[0] == realNow && name == "XgoRealTimeNow" {
		return
	}
	if callee[0] != name {
		c.Viol("stubs", u.name, name, "this function calls %s, not the function of Go's runtime that has its name", callee[0])
		return
	}
	if sig, where, ok := find(name); !ok {
		c.Viol("stubs", u.name, name, "the function this one calls is not declared in %s", where)
	} else if sig != "" {
		c.Viol("stubs", u.name, name, "the function this one calls is a %s in %s", sig, where)
	}
	var params []string
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			params = append(params, n.Name)
		}
	}
	var args []string
	for _, a := range calls[0].Args {
		args = append(args, types.ExprString(a))
	}
	if _, ok := sameList(params, args); !ok {
		c.Viol("stubs", u.name, name, "this function passes (%s) on, not its parameters (%s)", strings.Join(args, ", "), strings.Join(params, ", "))
	}
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		ok := false
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if r, isR := n.(*ast.ReturnStmt); isR && len(r.Results) == 1 && ast.Unparen(r.Results[0]) == ast.Expr(calls[0]) {
				ok = true
			}
			return true
		})
		if !ok {
			// through variables: every return names what the call defined
			lhs := map[string]bool{}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if a, isA := n.(*ast.AssignStmt); isA && len(a.Rhs) == 1 && a.Rhs[0] == ast.Expr(calls[0]) {
					for _, l := range a.Lhs {
						lhs[types.ExprString(l)] = true
					}
				}
				return true
			})
			ok = len(lhs) > 0
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if r, isR := n.(*ast.ReturnStmt); isR {
					for _, x := range r.Results {
						ok = ok && lhs[types.ExprString(x)]
					}
				}
				return true
			})
		}
		if !ok {
			c.Viol("stubs", u.name, name, "what Go's runtime answers is not what this function returns")
		}
	}
}

// legacyLinks10: each variable of the template for runtime v1.1.0 is assigned
// in the function the compiler links in.
func (c *Ctx) legacyLinks10(u *unit10) {
	assigned := map[string]bool{}
	fns := u.funcs()
	if fd := fns["__xgo_init_legacy_v1_1_0"]; fd != nil && fd.Body != nil {
		for _, s := range fd.Body.List {
			if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN {
				for _, l := range a.Lhs {
					assigned[types.ExprString(l)] = true
				}
			}
		}
	}
	called := false
	if fd := fns["init"]; fd != nil && fd.Body != nil {
		for _, s := range fd.Body.List {
			if e, ok := s.(*ast.ExprStmt); ok {
				called = called || types.ExprString(e.X) == "__xgo_init_legacy_v1_1_0()"
			}
		}
	}
	c.Obl("stubs", u.name+": linked on start")
	if !called {
		c.Viol("stubs", u.name, "init", "the variables are not linked when the program starts")
	}
	for n, fd := range fns {
		if !strings.HasPrefix(n, "Xgo") || n == "XgoRealTimeNow" {
			continue
		}
		v := "runtime_link_" + n
		c.Obl("stubs", u.name+": "+v)
		lit, ok := u.varInit(v).(*ast.FuncLit)
		if !ok {
			c.Viol("stubs", u.name, v, "the variable %s calls is not declared as a function here", n)
			continue
		}
		if a, b := u.norm(lit.Type), u.norm(fd.Type); a != b {
			c.Viol("stubs", u.name, v, "the variable is a %s, %s is a %s", a, n, b)
		}
		if !assigned[v] {
			c.Viol("stubs", u.name, v, "the compiler links variables assigned in __xgo_init_legacy_v1_1_0; this one is not")
		}
	}
}

// hooks10: the variable a setter sets is the one the function of that kind calls.
func (c *Ctx) hooks10(u *unit10, fns map[string]*ast.FuncDecl) {
	for _, p := range [][2]string{{"XgoSetTrap", "XgoTrap"}, {"XgoSetVarTrap", "XgoTrapVar"}, {"XgoSetVarPtrTrap", "XgoTrapVarPtr"}, {"XgoSetupRegisterHandler", "XgoRegister"}, {"XgoOnCreateG", "__xgo_callback_on_create_g"}, {"XgoOnExitG", "__xgo_callback_on_exit_g"}, {"XgoOnInitFinished", "__xgo_callback_on_init_finished"}, {"XgoInitFinished", "__xgo_callback_on_init_finished"}} {
		set, use := fns[p[0]], fns[p[1]]
		c.Obl("hooks", u.name+": "+p[0])
		if set == nil || use == nil || set.Body == nil || use.Body == nil {
			c.Viol("hooks", u.name, p[0], "%s and %s are not both declared here", p[0], p[1])
			continue
		}
		a, b := u.globals10(set), u.globals10(use)
		common := false
		for v := range a {
			common = common || b[v]
		}
		if !common {
			c.Viol("hooks", u.name, p[0], "%s and %s share no variable: what one sets the other does not see", p[0], p[1])
		}
		// no other function of a kind reaches it
		for _, o := range [][2]string{{"XgoSetTrap", "XgoTrap"}, {"XgoSetVarTrap", "XgoTrapVar"}, {"XgoSetVarPtrTrap", "XgoTrapVarPtr"}} {
			if o[0] == p[0] || !strings.HasPrefix(p[1], "XgoTrap") || fns[o[1]] == nil {
				continue
			}
			for v := range u.globals10(fns[o[1]]) {
				if a[v] {
					c.Viol("hooks", u.name, p[0], "%s sets %s, which %s calls", p[0], v, o[1])
				}
			}
		}
	}
}

// globals10 are the package variables a function names.
func (u *unit10) globals10(fd *ast.FuncDecl) map[string]bool {
	m := map[string]bool{}
	if fd == nil || fd.Body == nil {
		return m
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := u.info.Uses[id].(*types.Var); ok && u.pkg != nil && v.Parent() == u.pkg.Scope() {
				m[v.Name()] = true
			}
		}
		return true
	})
	return m
}

// directiveTexts are the lines of a patch that are put into a file.
func directiveTexts(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		w := strings.Fields(l)
		if len(w) == 0 {
			continue
		}
		switch w[0] {
		case "goto", "match", "find_for_replace", "delete", "newline", "<patch", "</patch>":
			continue
		case "copy_func":
			if len(w) > 3 && w[2] == "as" {
				out = append(out, "var "+w[3]+" func")
			}
			continue
		}
		if !strings.HasPrefix(l, "#") {
			out = append(out, l)
		}
	}
	return out
}

// calls10: every function of xgo called in the texts is declared.
func (c *Ctx) calls10(where string, texts []string, all []map[string]*ast.FuncDecl, any []map[string]*ast.FuncDecl, known []string) {
	defs := map[string]int{}
	var calls []use10
	for _, s := range texts {
		cs, ds := uses10(s)
		calls = append(calls, cs...)
		for k, v := range ds {
			defs[k] = v
		}
	}
	for _, k := range known {
		if _, ok := defs[k]; !ok {
			defs[k] = -1
		}
	}
	seen := map[string]bool{}
	for _, u := range calls {
		key := u.name + "/" + itoa(u.args)
		if seen[key] {
			continue
		}
		seen[key] = true
		c.Obl("calls", where+": "+u.name)
		check := func(m map[string]*ast.FuncDecl) (bool, int) {
			if fd := m[u.name]; fd != nil {
				return true, paramCount(fd)
			}
			return false, 0
		}
		n, found := defs[u.name]
		if !found && len(all) > 0 {
			found = true
			for _, m := range all {
				ok, k := check(m)
				found = found && ok
				n = k
				if ok && u.args >= 0 && k != u.args {
					break
				}
			}
		}
		for _, m := range any {
			if ok, k := check(m); ok && !found {
				found, n = true, k
			}
		}
		if !found {
			c.Viol("calls", where, u.name, "a text inserted into Go's tree calls this function, which is declared nowhere xgo puts it: the instrumented tree does not build")
		} else if n >= 0 && u.args >= 0 && n != u.args {
			c.Viol("calls", where, u.name, "a text inserted into Go's tree calls this function with %d arguments; it has %d parameters", u.args, n)
		}
	}
}

// anchors10: the constants xgo sets in the runtime are there, on a line of
// their own, in the form it looks for.
func (c *Ctx) anchors10() {
	dir := "instrument/instrument_xgo_runtime"
	u := c.load10(dir, func() []string {
		var out []string
		for _, f := range c.goFiles(dir) {
			if !strings.Contains(f, "legacy_1_1_0") {
				out = append(out, f)
			}
		}
		return out
	}()...)
	if u == nil || u.info == nil {
		return
	}
	re := regexp.MustCompile(`^const (\w+) ?= ?$`)
	for _, base := range []string{"runtime", genRT} {
		var src []*unit10
		for _, f := range []string{base + "/core/version.go", base + "/internal/flags/flags.go"} {
			if x := c.load10(f, f); x != nil {
				src = append(src, x)
			}
		}
		for _, s := range u.strs() {
			g := re.FindStringSubmatch(s)
			if g == nil {
				continue
			}
			c.Obl("anchors", base+": "+g[1])
			ok := false
			for _, x := range src {
				i := strings.Index(x.raw, s)
				if i >= 0 && (i == 0 || x.raw[i-1] == '\n') && x.pkg != nil && x.pkg.Scope().Lookup(g[1]) != nil {
					ok = true
				}
			}
			if !ok {
				c.Viol("anchors", base, g[1], "xgo sets this constant by the text %q, which does not start a line of the file it is in: the value is silently left as it was", s)
			}
		}
		for _, x := range src {
			if strings.HasSuffix(x.name, "version.go") {
				c.Obl("anchors", x.name+": checkVersion")
				for _, s := range u.strs() {
					if strings.HasPrefix(s, "func ") && strings.HasSuffix(s, "{") && !strings.Contains(x.raw, s) && strings.Contains(s, "checkVersion") {
						c.Viol("anchors", x.name, "checkVersion", "xgo inserts after the text %q, which is not in the file", s)
					}
				}
			}
		}
	}
}

// packages10: packages and files named by xgo exist in the runtime.
func (c *Ctx) packages10(consts []*unit10) {
	if len(consts) == 0 {
		return
	}
	u := consts[0]
	mod, _ := u.constVal("RUNTIME_MODULE")
	for _, base := range []string{"runtime", genRT} {
		for _, n := range u.pkg.Scope().Names() {
			v, ok := u.constVal(n)
			if !ok || !strings.HasPrefix(v, mod+"/") || strings.Contains(n, "LEGACY") {
				continue
			}
			c.Obl("packages", base+": "+n)
			if len(c.goFiles(base+v[len(mod):])) == 0 {
				c.Viol("packages", base, n, "xgo looks for the package %s, which the runtime does not have", v)
			}
		}
		for _, f := range [][2]string{{"RUNTIME_LINK_FILE", "RUNTIME_INTERNAL_RUNTIME_PKG"}, {"RUNTIME_LINK_TEMPLATE_FILE", "RUNTIME_INTERNAL_RUNTIME_PKG"}, {"XGO_TRAP_TEMPLATE_FILE", "RUNTIME_INTERNAL_RUNTIME_PKG"}, {"FUNCTAB_FILE", "RUNTIME_FUNCTAB_PKG"}, {"VERSION_FILE", "RUNTIME_CORE_PKG"}, {"FLAG_FILE", "RUNTIME_TRAP_FLAGS_PKG"}, {"TRACE_FILE", "RUNTIME_TRACE_PKG"}} {
			v, ok := u.constVal(f[0])
			pk, ok2 := u.constVal(f[1])
			c.Obl("packages", base+": "+f[0])
			if !ok || !ok2 || !strings.HasPrefix(pk, mod) {
				c.Viol("packages", u.name, f[0], "the file or package named by these constants is not known")
				continue
			}
			if _, err := os.Stat(filepath.Join(c.Repo, base, pk[len(mod):], v)); err != nil {
				c.Viol("packages", base, f[0], "xgo looks for the file %s of %s, which the runtime does not have", v, pk)
			}
		}
	}
	// templates are found by path, too
	mods := map[string]string{"RUNTIME_LINK_TEMPLATE_PATH": "", "RUNTIME_XGO_TRAP_TEMPLATE_PATH": ""}
	for _, n := range keys10(mods) {
		lit, ok := u.varInit(n).(*ast.CompositeLit)
		c.Obl("packages", n)
		if !ok {
			c.Viol("packages", u.name, n, "the path of this template is not written out")
			continue
		}
		p := genRT
		for _, e := range lit.Elts {
			if tv := u.info.Types[e]; tv.Value != nil && tv.Value.Kind() == constant.String {
				p += "/" + constant.StringVal(tv.Value)
			}
		}
		if _, err := os.Stat(filepath.Join(c.Repo, p)); err != nil {
			c.Viol("packages", u.name, n, "the embedded runtime has no file %s", p)
		}
	}
}

// readers10 are the files that run inside the instrumented toolchain, by path.
func (c *Ctx) readers10(versions []string) map[string]string {
	m := map[string]string{}
	dirs := append([]string{"patch", "cmd/xgo/asset/compiler_patch_gen", "instrument/instrument_go", "instrument/instrument_compiler"}, versions...)
	for _, d := range dirs {
		filepath.Walk(filepath.Join(c.Repo, d), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if fi.IsDir() {
				if fi.Name() == "legacy" {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, "_test.go") {
				return nil
			}
			rel, _ := filepath.Rel(c.Repo, p)
			b, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			switch {
			case strings.HasSuffix(p, ".patch"):
				m[rel] = strings.Join(directiveTexts(string(b)), "\n")
			case strings.HasSuffix(p, ".go"), strings.HasSuffix(p, ".go.txt"):
				m[rel] = string(b)
			}
			return nil
		})
	}
	return m
}

var getenvRe = regexp.MustCompile(`Getenv\("((?:XGO_COMPILER_SYNTAX_REWRITE|XGO_UNIFIED|GO_BYPASS)\w*)"\)(?:\s*[!=]=\s*"(\w+)")?`)

// env10: variables the instrumented toolchain reads are set by the command.
func (c *Ctx) env10(versions []string) {
	set := map[string]bool{}
	p := c.Root()
	for _, f := range p.Funcs {
		if fnPkgPath(f) != "github.com/xhd2015/xgo/cmd/xgo" {
			continue
		}
		for _, s := range constStrings(f) {
			set[s] = true
		}
	}
	srcs := c.readers10(versions)
	for _, f := range keys10(srcs) {
		for _, g := range getenvRe.FindAllStringSubmatch(srcs[f], -1) {
			want := g[1] + "=" + g[2]
			c.Obl("env", f+": "+want)
			if !set[want] {
				c.Viol("env", f, g[1], "the instrumented toolchain depends on %s, which the command does not set in this form (%q)", g[1], want)
			}
		}
	}
}

var aliasRe = regexp.MustCompile(`\b(xgo_patch|xgo_syntax)\.([A-Z]\w*)`)
var importRe = regexp.MustCompile(`(xgo_patch|xgo_syntax)"?,?\s+"(cmd/compile/internal/xgo_rewrite_internal/patch[^"]*)"`)

// compiler10: what the compiler is made to call exists, and the linking is
// reached from there.
func (c *Ctx) compiler10(versions []string) {
	srcs := c.readers10(versions)
	paths := map[string]string{}
	for _, f := range keys10(srcs) {
		for _, g := range importRe.FindAllStringSubmatch(srcs[f], -1) {
			sub := strings.TrimPrefix(g[2], "cmd/compile/internal/xgo_rewrite_internal/patch")
			if o, ok := paths[g[1]]; ok && o != sub {
				c.Viol("compiler", f, g[1], "the compiler imports xgo's part as %s from %q here and from %q elsewhere", g[1], sub, o)
			}
			paths[g[1]] = sub
		}
	}
	for _, base := range []string{"patch", "cmd/xgo/asset/compiler_patch_gen"} {
		units := map[string]*unit10{}
		for _, a := range keys10(paths) {
			if fs := c.goFiles(base + paths[a]); len(fs) > 0 {
				units[a] = c.load10(base+paths[a], fs...)
			}
		}
		for _, f := range keys10(srcs) {
			if !strings.HasSuffix(f, ".patch") && !strings.HasPrefix(f, "instrument/") {
				continue
			}
			for _, g := range aliasRe.FindAllStringSubmatch(srcs[f], -1) {
				c.Obl("compiler", f+": "+g[0]+" / "+base)
				u := units[g[1]]
				if u == nil || u.pkg == nil || u.pkg.Scope().Lookup(g[2]) == nil {
					c.Viol("compiler", f, g[0], "the compiler is made to use %s, which %s does not declare", g[0], base+paths[g[1]])
				}
			}
		}
		u := units["xgo_patch"]
		c.Obl("compiler", base+": linking")
		if u == nil || u.info == nil {
			c.Viol("compiler", base, "Patch", "xgo's part of the compiler is not found")
			continue
		}
		fns := u.funcs()
		seen, linked, whole := map[string]bool{}, false, false
		var visit func(n string)
		visit = func(n string) {
			fd := fns[n]
			if fd == nil || seen[n] {
				return
			}
			seen[n] = true
			ast.Inspect(fd, func(x ast.Node) bool {
				switch e := x.(type) {
				case *ast.Ident:
					if u.info.Uses[e] != nil {
						visit(e.Name)
					}
				case *ast.SelectorExpr:
					linked = linked || e.Sel.Name == "LinkXgoInit"
				case *ast.CallExpr:
					if s, ok := e.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "ForEach" && len(e.Args) == 1 {
						if lit, ok := e.Args[0].(*ast.FuncLit); ok {
							whole = true
							ast.Inspect(lit.Body, func(y ast.Node) bool {
								if r, ok := y.(*ast.ReturnStmt); ok && (len(r.Results) != 1 || types.ExprString(r.Results[0]) != "true") {
									whole = false
								}
								return true
							})
						}
					}
				}
				return true
			})
		}
		visit("Patch")
		if !linked {
			c.Viol("compiler", base, "Patch", "the functions are not linked: LinkXgoInit is not reached from Patch")
		} else if !whole {
			c.Viol("compiler", base, "Patch", "the functions are not all visited: the visit can be told to stop")
		}
	}
}

// constStrings are the constant strings a function uses.
func constStrings(f *ssa.Function) []string {
	var out []string
	eachInstr(f, func(ins ssa.Instruction) {
		for _, op := range ins.Operands(nil) {
			if op == nil || *op == nil {
				continue
			}
			if s, ok := constStr(*op); ok {
				out = append(out, s)
			}
		}
	})
	return out
}
