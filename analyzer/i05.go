package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["I05"] = propDef{run: runI05, assumptions: []string{
		"the text inserted is what goedit.Edit is given, at the positions given (property I10)",
		"the functions the stubs are linked to have the runtime's meaning (property R10)",
	}}
}

func runI05(c *Ctx) {
	p := c.Instr()
	c.Rule("parse", "what is written into a file, for every combination of what may be in it, parses as declarations: nothing of it changes the file's own declarations")
	c.Rule("once", "every function, variable and interface type recorded for the file has its info defined once, as the address of the file's own info type, and registered once with the file's own register function when the package initializes, after the file's links are set up and after its function is filled in")
	c.Rule("content", "an info holds the kind, the package path, the name, the identity, the file and the line of what it was recorded for; the receiver's name, type and pointerness exactly when there is a receiver; the names of all parameters and all results in order; the address of a variable; the function itself, or that it is generic; Stdlib exactly for the standard library")
	c.Rule("stubs", "the names the traps use are declared once each, carry the file's index, and the file's init function, not inlined, keeps all four links alive")
	c.Rule("where", "written into the file's own editor, after a complete declaration that is no import (or at the end of the file), on the lines there are: only the function at the very end starts a new one")
	c.Rule("when", "it is written whenever the file has anything recorded")
	c.Rule("interfaces", "every interface type declared at package level is recorded with its own name and position and an info of its own")
	c.Rule("identity", "the identity of a method is made of its receiver's type, its pointerness and its name")
	c.Rule("site", "registration happens once, for every file of every package, with its package's path and standard flag, after everything was recorded and before the edits are applied")
	c.Rule("join", "statements are joined in order: empty ones are left out, one that follows another is separated from it")
	c.i05text(p)
	c.i05interfaces(p)
	c.i05identity(p)
	c.i05join(p)
	c.i05site()
	c.Floor("parse", 16)
	c.Floor("once", 16)
	c.Floor("content", 16)
	c.Floor("stubs", 1)
	c.Floor("where", 1)
	c.Floor("when", 1)
	c.Floor("interfaces", 1)
	c.Floor("identity", 1)
	c.Floor("site", 1)
	c.Floor("join", 1)
}

// lookedUp finds parameters by type.
func paramOfType(f *ssa.Function, is func(types.Type) bool) *ssa.Parameter {
	var r *ssa.Parameter
	for _, x := range f.Params {
		if is(x.Type()) {
			if r != nil {
				return nil
			}
			r = x
		}
	}
	return r
}

func isNamedPtr(t types.Type, pkg, name string) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func (c *Ctx) i05text(p *Prog) {
	f := p.Func(XI+"instrument_reg", "RegisterFuncTab")
	if f == nil {
		panic("instrument_reg.RegisterFuncTab not found")
	}
	file := paramOfType(f, func(t types.Type) bool { return isNamedPtr(t, editPkg, "File") })
	fset := paramOfType(f, func(t types.Type) bool { return isNamedPtr(t, "go/token", "FileSet") })
	pkgPath := paramOfType(f, func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	std := paramOfType(f, func(t types.Type) bool { return types.Identical(t, types.Typ[types.Bool]) })
	if file == nil || fset == nil || pkgPath == nil || std == nil {
		panic("RegisterFuncTab: parameters not recognised")
	}
	F := file.Name()
	sh := c.newShaper(p)
	fr := sh.top(f)
	where := func(i ssa.Instruction) string { return c.Pos(p, i.Pos()) }
	ops := sh.editOps(fr, nil)
	type ins struct {
		op   editOp
		text *shp
		g    [][]gatom
	}
	var all []ins
	var shapes []*shp
	for _, o := range ops {
		if o.kind != "Insert" {
			c.Viol("where", where(o.call), "editor call", "registering changes the file's own text: %s", o.kind)
			continue
		}
		t := sh.eval(o.args[1], o.fr)
		if b := containsBad(t); b != "" {
			c.Viol("parse", where(o.call), "editor call", "the text written cannot be decided: %s", shapeErr(b))
			return
		}
		c.Obl("where", where(o.call))
		if e := sh.eval(o.call.Call.Args[0], o.fr); e.s != F+".Edit" {
			c.Viol("where", where(o.call), "editor call", "written with another editor: %s", shapeErr(e))
		}
		pos := sh.eval(o.args[0], o.fr)
		c.i05pos(where(o.call), pos, F)
		g := [][]gatom{{}}
		cur := fr
		for _, cl := range append(append([]*ssa.Call(nil), o.chain...), o.call) {
			g = andDNF(g, sh.guards(cur.fn.Blocks[0], cl.Block(), nil, cur))
			if h := loopOf(cl.Block()); h != nil {
				c.Viol("when", where(o.call), "editor call", "written in a loop")
			}
			if n := cl.Call.StaticCallee(); n != nil && len(n.Blocks) > 0 && cl != o.call {
				cur = sh.enter(n, cl, cur)
			}
		}
		all = append(all, ins{o, t, g})
		// the conditions of its being written count as conditions of the text
		shapes = append(shapes, &shp{k: sAlt, alts: []galt{{g, t}}})
		// lines
		endOnly := isFileEnd(pos, F)
		for i, l := range strings.SplitAfter(firstLits(t), "\n") {
			if strings.HasSuffix(l, "\n") && !(endOnly && i >= 0) {
				c.Viol("where", where(o.call), "editor call", "what is written before the end of the file holds a line break: the lines after it get other numbers")
				break
			}
		}
	}
	if len(all) == 0 {
		c.Viol("when", c.Pos(p, f.Pos()), shortFn(f), "nothing is written into a file")
		return
	}
	at := where(all[0].op.call)
	seen := map[string]bool{}
	viol := func(rule, format string, a ...interface{}) {
		m := fmt.Sprintf(format, a...)
		if !seen[rule+format] {
			seen[rule+format] = true
			c.Viol(rule, at, "registration text", "%s", m)
		}
	}
	TF, TV, IT := F+".TrapFuncs", F+".TrapVars", F+".InterfaceTypes"
	tp := TF + "[*].FuncDecl.Type.TypeParams"
	extra := []string{"is:" + std.Name(), "empty:" + TF, "empty:" + TV, "empty:" + IT,
		"nil:" + TF + "[*].Receiver", "nil:" + TF + "[*].RecvType", "is:" + TF + "[*].RecvGeneric", "nil:" + tp, "empty:" + tp + ".List",
		"empty:" + TF + "[*].Params", "empty:" + TF + "[*].Results"}
	kinds := map[string]string{}
	for _, k := range []string{"Func", "Var"} {
		kinds[k] = c.constInt("github.com/xhd2015/xgo/runtime/core", "Kind_"+k)
	}
	linkNames := map[string]string{}
	for _, k := range []string{"LINK_REGISTER", "LINK_TRAP_FUNC", "LINK_TRAP_VAR", "LINK_TRAP_VAR_PTR"} {
		linkNames[k] = c.constString(p, XI+"constants", k)
		if linkNames[k] == "" {
			panic("constant " + k + " not found")
		}
	}
	hasCond := func(as map[string]bool, key string) bool { return as[key] }
	err := eachCase(17, shapes, extra, func(as map[string]bool) {
		in := newInst(as)
		// a list that is nil is empty, and so on
		for _, l := range []string{TF, TV, IT, TF + "[*].Params", TF + "[*].Results"} {
			if v, ok := as["nil:"+l]; ok && v && !as["empty:"+l] {
				return
			}
		}
		if as["nil:"+TF+"[*].Receiver"] && !as["nil:"+TF+"[*].RecvType"] {
			return // no receiver has no type
		}
		if as["nil:"+tp] && !as["empty:"+tp+".List"] {
			return
		}
		idx := in.place(F+".Index", types.Typ[types.Int])
		n := map[string]int{}
		for _, l := range []string{TF, TV, IT} {
			n[l] = in.n
			if as["empty:"+l] {
				n[l] = 0
			}
		}
		text, written := "package p\nvar z int", 0
		for _, x := range all {
			if !in.holds(x.g) {
				continue
			}
			t := in.text(x.text, nil)
			if in.err != "" {
				if !strings.HasPrefix(in.err, "!") {
					viol("parse", "%s", in.err)
				}
				return
			}
			if isFileEnd(sh.eval(x.op.args[0], x.op.fr), F) {
				text += "\n/* the rest of the file */ var zz int"
			}
			text += t
			written++
		}
		if n[TF]+n[TV]+n[IT] == 0 {
			return
		}
		c.Obl("when", "case")
		if written != len(all) {
			viol("when", "nothing, or not everything, is written for a file that has %d functions, %d variables and %d interface types recorded", n[TF], n[TV], n[IT])
			return
		}
		g := newRegText(text)
		c.Obl("parse", text)
		if g.err != "" {
			viol("parse", "%s, in: %s", g.err, text)
			return
		}
		// the links
		c.Obl("stubs", "case")
		initFn := ""
		for nm, fd := range g.funcs {
			if nm == "init" || !strings.HasSuffix(nm, idx) {
				viol("stubs", "function %s is declared without the file's index", nm)
				return
			}
			if fd.Recv != nil || initFn != "" {
				viol("stubs", "more than one function is declared")
				return
			}
			initFn = nm
		}
		links := []string{}
		for _, k := range []string{"LINK_REGISTER", "LINK_TRAP_FUNC", "LINK_TRAP_VAR", "LINK_TRAP_VAR_PTR"} {
			nm := linkNames[k] + idx
			links = append(links, nm)
			v := g.vars[nm]
			if _, ok := v.(*ast.FuncLit); !ok {
				viol("stubs", "%s is not declared as a function", linkNames[k])
				return
			}
		}
		if m := g.initOK(initFn, links); m != "" {
			viol("stubs", "%s", m)
			return
		}
		infos := map[string]bool{}
		str := func(path string) string { return strconv.Quote(in.place(path, nil)) }
		// v is what is expected of a field: a function of its expression
		type want map[string]func(ast.Expr) string
		isStr := func(s string) func(ast.Expr) string {
			return func(e ast.Expr) string {
				if e == nil && s == `""` {
					return ""
				}
				if id, ok := e.(*ast.Ident); ok && g.vars[id.Name] != nil {
					e = g.vars[id.Name]
				}
				if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING {
					a, _ := strconv.Unquote(l.Value)
					b, _ := strconv.Unquote(s)
					if a == b {
						return ""
					}
				}
				return g.src(e)
			}
		}
		isBool := func(path string, val, known bool) func(ast.Expr) string {
			return func(e ast.Expr) string {
				id, _ := e.(*ast.Ident)
				switch {
				case e == nil && known && !val:
					return ""
				case id != nil && path != "" && in.paths[id.Name] == path:
					return ""
				case id != nil && known && id.Name == strconv.FormatBool(val):
					return ""
				}
				return g.src(e)
			}
		}
		isStrs := func(l []string) func(ast.Expr) string {
			return func(e ast.Expr) string {
				if e == nil && len(l) == 0 {
					return ""
				}
				cl, ok := e.(*ast.CompositeLit)
				if !ok || len(cl.Elts) != len(l) {
					return g.src(e)
				}
				for i, x := range cl.Elts {
					if b, ok := x.(*ast.BasicLit); !ok || b.Value != l[i] {
						return g.src(e)
					}
				}
				return ""
			}
		}
		isKind := func(k string) func(ast.Expr) string {
			return func(e ast.Expr) string {
				if b, ok := e.(*ast.BasicLit); ok && b.Value == kinds[k] || e == nil && kinds[k] == "0" {
					return ""
				}
				return g.src(e)
			}
		}
		isLine := func(of string) func(ast.Expr) string {
			return func(e ast.Expr) string {
				if b, ok := e.(*ast.BasicLit); ok {
					pth := in.paths[b.Value]
					if strings.HasSuffix(pth, ".Line") && strings.Contains(pth, fset.Name()) && strings.Contains(pth, ".Pos("+of) || strings.HasPrefix(pth, "(*go/token.FileSet).") && strings.HasSuffix(pth, ".Line") && strings.Contains(pth, of) && strings.Contains(pth, ".Pos(") {
						return ""
					}
					return pth
				}
				return g.src(e)
			}
		}
		check := func(what, list string, j int, w want, fn string) {
			el := fmt.Sprintf("%s[%d]", list, j)
			info := in.place(el+".InfoVar", nil)
			c.Obl("once", el)
			c.Obl("content", el)
			infos[info] = true
			lit := g.infoLit(info)
			if lit == nil {
				viol("once", "the info of a %s is not defined once as the address of a value of the file's info type", what)
				return
			}
			for nm, test := range w {
				if bad := test(lit[nm]); bad != "" {
					viol("content", "field %s of the info of a %s is not that of what it was recorded for: %s", nm, what, in.readable(bad))
				}
			}
			for nm := range lit {
				if w[nm] == nil {
					viol("content", "field %s of the info of a %s is given", nm, what)
				}
				if !g.fields[nm] {
					viol("content", "field %s of the info of a %s is not declared by the file's info type", nm, what)
				}
			}
			// what happens when the package initializes
			reg, set, ini := -1, -1, -1
			for i, s := range g.steps {
				switch {
				case s.call == links[0] && s.arg == info:
					if reg >= 0 {
						viol("once", "the info of a %s is registered twice", what)
					}
					reg = i
				case s.call == initFn:
					if ini < 0 {
						ini = i
					}
				case s.target == info:
					if s.field != "Func" || s.value != fn || set >= 0 {
						viol("content", "the function of an info is filled in with something else")
					}
					set = i
				}
			}
			if reg < 0 {
				viol("once", "the info of a %s is never registered", what)
				return
			}
			if ini < 0 || ini > reg {
				viol("once", "the info of a %s is registered before the file's links are set up", what)
			}
			if fn != "" && set < 0 {
				viol("content", "the function of an info is never filled in")
			}
			if fn == "" && set >= 0 {
				viol("content", "a function that cannot be referred to is filled in")
			}
			if set > reg {
				viol("once", "an info is registered before its function is filled in")
			}
		}
		base := func(k, list string, j int, name, ident, of string) want {
			el := fmt.Sprintf("%s[%d]", list, j)
			return want{
				"Kind": isKind(k), "Pkg": isStr(str(pkgPath.Name())), "Name": isStr(str(el + name)), "IdentityName": isStr(str(el + ident)),
				"File": isStr(str(F + ".File.AbsPath")), "Line": isLine(el + of), "Stdlib": isBool(std.Name(), as["is:"+std.Name()], true),
			}
		}
		for j := 0; j < n[TV]; j++ {
			el := fmt.Sprintf("%s[%d]", TV, j)
			w := base("Var", TV, j, ".Name", ".Name", ".Decl")
			w["Var"] = func(e ast.Expr) string {
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND && isIdent(unparen(u.X), in.place(el+".Name", nil)) {
					return ""
				}
				return g.src(e)
			}
			w["ResNames"] = isStrs([]string{str(el + ".Name")})
			check("variable", TV, j, w, "")
		}
		for j := 0; j < n[IT]; j++ {
			el := fmt.Sprintf("%s[%d]", IT, j)
			w := base("Func", IT, j, ".Name", ".Name", "")
			w["Interface"] = isBool("", true, true)
			w["RecvType"] = isStr(str(el + ".Name"))
			check("interface type", IT, j, w, "")
		}
		for j := 0; j < n[TF]; j++ {
			el := fmt.Sprintf("%s[%d]", TF, j)
			w := base("Func", TF, j, ".FuncDecl.Name.Name", ".IdentityName", ".FuncDecl")
			generic := as["is:"+TF+"[*].RecvGeneric"] || !as["nil:"+tp] && !as["empty:"+tp+".List"]
			w["Generic"] = isBool("", generic, true)
			if !hasCond(as, "nil:"+TF+"[*].Receiver") {
				w["RecvName"] = isStr(str(el + ".Receiver.Name"))
				w["RecvType"] = isStr(`""`)
				if !as["nil:"+TF+"[*].RecvType"] {
					w["RecvType"] = isStr(str(el + ".RecvType.Name"))
				}
				v, known := as["is:"+TF+"[*].RecvPtr"]
				w["RecvPtr"] = isBool(el+".RecvPtr", v, known)
			}
			names := func(l string) []string {
				if as["empty:"+TF+"[*]."+l] {
					return nil
				}
				var r []string
				for k := 0; k < in.n; k++ {
					r = append(r, str(fmt.Sprintf("%s.%s[%d].Name", el, l, k)))
				}
				return r
			}
			w["ArgNames"] = isStrs(names("Params"))
			w["ResNames"] = isStrs(names("Results"))
			fn := ""
			if !generic {
				fn = in.place(el+".IdentityName", nil)
			}
			check("function", TF, j, w, fn)
		}
		// nothing else
		for _, s := range g.steps {
			if s.call == links[0] && !infos[s.arg] {
				viol("once", "something else is registered: %s", in.readable(s.arg))
			}
			if s.call == "" && s.target == "" || s.call != "" && s.call != links[0] && s.call != initFn {
				viol("parse", "initializing the package does something else: %s", s.src)
			}
		}
		for nm := range g.vars {
			if !infos[nm] && !strings.HasSuffix(nm, idx) && nm != "z" && nm != "zz" {
				viol("stubs", "%s is declared without the file's index", in.readable(nm))
			}
		}
		for nm := range g.types {
			if !strings.HasSuffix(nm, idx) {
				viol("stubs", "%s is declared without the file's index", nm)
			}
		}
	})
	if err != nil {
		c.Viol("parse", at, "registration text", "%v", err)
	}
}

// firstLits is the literal text of a shape up to what repeats.
func firstLits(x *shp) string { return strings.ReplaceAll(litParts(x), "\x00", "") }

func isFileEnd(pos *shp, F string) bool {
	return pos.k == sHole && pos.s == "(*go/ast.File).End("+F+".File.Syntax)" || pos.String() == "(*go/ast.File).End("+F+".File.Syntax)"
}

// i05pos: after a complete declaration that is not an import, or at the end.
func (c *Ctx) i05pos(at string, pos *shp, F string) {
	if b := containsBad(pos); b != "" {
		c.Viol("where", at, "editor call", "where it is written cannot be decided: %s", shapeErr(b))
		return
	}
	leaf := func(d [][]gatom, s string) {
		if s == "(*go/ast.File).End("+F+".File.Syntax)" {
			return
		}
		el := F + ".File.Syntax.Decls[*]"
		if !strings.HasSuffix(s, ".End("+el+")") {
			c.Viol("where", at, "editor call", "not written after a declaration, or at the end of the file: %s", shapeErr(s))
			return
		}
		// imports come first
		for _, cj := range d {
			ok := false
			for _, a := range cj {
				if strings.HasPrefix(a.key, "is:is("+el) && strings.HasSuffix(a.key, "GenDecl)") && !a.pol ||
					strings.HasPrefix(a.key, "is:is("+el) && strings.HasSuffix(a.key, "FuncDecl)") && a.pol ||
					strings.HasPrefix(a.key, "eq:"+el+".Tok==") {
					imp := strings.HasSuffix(a.key, "=="+strconv.Itoa(int(token.IMPORT)))
					if !strings.HasPrefix(a.key, "eq:") || imp && !a.pol || !imp && a.pol {
						ok = true
					}
				}
			}
			if !ok {
				c.Viol("where", at, "editor call", "may be written after an import, which must come first")
				return
			}
		}
	}
	var walk func(d [][]gatom, x *shp)
	walk = func(d [][]gatom, x *shp) {
		if x.k == sAlt {
			for _, a := range x.alts {
				walk(andDNF(d, a.dnf), a.v)
			}
			return
		}
		leaf(d, x.String())
	}
	walk([][]gatom{{}}, pos)
}

func (in *inst) readable(s string) string {
	for id, p := range in.paths {
		s = strings.ReplaceAll(s, id, "<"+p+">")
		if len(s) > 300 {
			break
		}
	}
	return s
}

// regText is the parsed text.
type regText struct {
	err    string
	fset   *token.FileSet
	text   string
	vars   map[string]ast.Expr
	types  map[string]ast.Expr
	fields map[string]bool
	funcs  map[string]*ast.FuncDecl
	infoTy string
	steps  []regStep
}

type regStep struct {
	call, arg            string
	target, field, value string
	src                  string
}

func newRegText(text string) *regText {
	g := &regText{fset: token.NewFileSet(), text: text, vars: map[string]ast.Expr{}, types: map[string]ast.Expr{}, fields: map[string]bool{}, funcs: map[string]*ast.FuncDecl{}}
	file, err := parser.ParseFile(g.fset, "t.go", text, parser.ParseComments)
	if err != nil {
		g.err = "the text does not parse as declarations: " + err.Error()
		return g
	}
	have := map[string]bool{}
	dup := func(n string) {
		if n == "_" || have[n] {
			g.err = n + " is declared twice"
		}
		have[n] = true
	}
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Name.Name == "init" && d.Recv == nil {
				g.init(d)
				continue
			}
			dup(d.Name.Name)
			g.funcs[d.Name.Name] = d
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					if d.Tok != token.VAR || len(s.Values) != 0 && len(s.Values) != len(s.Names) {
						g.err = "a declaration of another kind"
						return g
					}
					for i, n := range s.Names {
						dup(n.Name)
						var v ast.Expr = s.Type
						if len(s.Values) > 0 {
							v = s.Values[i]
						}
						g.vars[n.Name] = v
					}
				case *ast.TypeSpec:
					dup(s.Name.Name)
					g.types[s.Name.Name] = s.Type
					if st, ok := s.Type.(*ast.StructType); ok {
						if g.infoTy != "" {
							g.err = "two info types"
						}
						g.infoTy = s.Name.Name
						for _, f := range st.Fields.List {
							for _, n := range f.Names {
								if g.fields[n.Name] {
									g.err = "field " + n.Name + " of the info type is declared twice"
								}
								g.fields[n.Name] = true
							}
						}
					}
				default:
					g.err = "an import"
				}
			}
		}
	}
	return g
}

func (g *regText) src(e ast.Expr) string {
	if e == nil {
		return "(not given)"
	}
	return g.text[g.fset.Position(e.Pos()).Offset:g.fset.Position(e.End()).Offset]
}

func (g *regText) init(d *ast.FuncDecl) {
	for _, s := range nonEmpty(d.Body.List) {
		st := regStep{src: g.text[g.fset.Position(s.Pos()).Offset:g.fset.Position(s.End()).Offset]}
		switch s := s.(type) {
		case *ast.ExprStmt:
			if ce, ok := s.X.(*ast.CallExpr); ok {
				if id, ok := ce.Fun.(*ast.Ident); ok && len(ce.Args) <= 1 {
					st.call = id.Name
					if len(ce.Args) == 1 {
						st.arg = g.src(ce.Args[0])
					}
				}
			}
		case *ast.AssignStmt:
			if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok == token.ASSIGN {
				if se, ok := s.Lhs[0].(*ast.SelectorExpr); ok {
					if id, ok := se.X.(*ast.Ident); ok {
						st.target, st.field, st.value = id.Name, se.Sel.Name, g.src(s.Rhs[0])
					}
				}
			}
		}
		g.steps = append(g.steps, st)
	}
}

// initOK: the file's init function keeps the links and is not inlined.
func (g *regText) initOK(name string, links []string) string {
	fd := g.funcs[name]
	if fd == nil {
		return "no function keeps the file's links"
	}
	noinline := false
	if fd.Doc != nil {
		for _, cm := range fd.Doc.List {
			if cm.Text == "//go:noinline" {
				noinline = true
			}
		}
	}
	if !noinline {
		return "the function keeping the file's links may be inlined"
	}
	kept := map[string]bool{}
	for _, s := range nonEmpty(fd.Body.List) {
		as, ok := s.(*ast.AssignStmt)
		if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != len(as.Rhs) {
			return "the function keeping the file's links does something else"
		}
		for i := range as.Lhs {
			if g.src(as.Lhs[i]) != g.src(as.Rhs[i]) {
				return "a link is replaced"
			}
			kept[g.src(as.Lhs[i])] = true
		}
	}
	for _, l := range links {
		if !kept[l] {
			return "a link is not kept: " + l
		}
	}
	return ""
}

// infoLit: the fields an info variable is defined with.
func (g *regText) infoLit(name string) map[string]ast.Expr {
	u, ok := g.vars[name].(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return nil
	}
	cl, ok := unparen(u.X).(*ast.CompositeLit)
	if !ok || !isIdent(cl.Type, g.infoTy) {
		return nil
	}
	m := map[string]ast.Expr{}
	for _, e := range cl.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return nil
		}
		id, ok := kv.Key.(*ast.Ident)
		if !ok || m[id.Name] != nil {
			return nil
		}
		m[id.Name] = kv.Value
	}
	return m
}

// constInt is the value of an integer constant of the runtime module.
func (c *Ctx) constInt(pkg, name string) string {
	if sp := c.RT().pkg(pkg); sp != nil {
		if k, ok := sp.Members[name].(*ssa.NamedConst); ok && k.Value.Value != nil && k.Value.Value.Kind() == constant.Int {
			return k.Value.Value.String()
		}
	}
	panic("constant " + pkg + "." + name + " not found")
}

func (c *Ctx) i05interfaces(p *Prog) {
	f := p.Func(XI+"instrument_intf", "CollectInterfaces")
	if f == nil {
		panic("CollectInterfaces not found")
	}
	sh := &shaper{p: p}
	fr := sh.top(f)
	at := c.Pos(p, f.Pos())
	F := f.Params[0].Name()
	D := F + ".File.Syntax.Decls"
	prefix := c.constString(p, XI+"constants", "INTF_INFO")
	rets := returnsOf(f)
	if len(rets) != 1 {
		c.Viol("interfaces", at, shortFn(f), "%d returns", len(rets))
		return
	}
	x := sh.eval(rets[0].Results[0], fr)
	if b := containsBad(x); b != "" {
		c.Viol("interfaces", at, shortFn(f), "what is recorded cannot be decided: %s", shapeErr(b))
		return
	}
	for _, s := range structsOf(x, editPkg, "InterfaceType") {
		c.Obl("interfaces", "record")
		el := D + "[*].Specs[*]"
		if s.flds["Name"].String() != el+".Name.Name" || s.flds["Ident"].String() != el+".Name" {
			c.Viol("interfaces", at, "InterfaceType", "the name recorded is not that of the type: %s", shapeErr(s))
		}
		iv := s.flds["InfoVar"]
		ok := iv.k == sCat && len(iv.sub) == 4
		if ok {
			t := iv.sub
			ok = t[0].k == sLit && strings.HasPrefix(t[0].s, prefix) && prefix != "" && t[1].s == F+".Index" && t[2].k == sLit && t[2].s != "" && !isDigits(t[2].s) && t[3].k == sHole && strings.HasPrefix(t[3].s, "counter:len:[]*"+editPkg+".InterfaceType:")
		}
		if !ok {
			c.Viol("interfaces", at, "InterfaceType", "the name of the info is not made of a prefix, the file's index and the number recorded before, apart: %s", shapeErr(iv))
		}
	}
	gen := "is:is(" + D + "[*],*go/ast.GenDecl)"
	spec := "is:is(" + D + "[*].Specs[*],*go/ast.TypeSpec)"
	intf := "is:is(" + D + "[*].Specs[*].Type,*go/ast.InterfaceType)"
	bad := map[string]bool{}
	err := eachCase(14, []*shp{x}, []string{gen, spec, intf}, func(as map[string]bool) {
		in := newInst(as)
		if as[gen] && as[spec] {
			for k, v := range as {
				if strings.HasPrefix(k, "eq:"+D+"[*].Tok==") && v != strings.HasSuffix(k, "=="+strconv.Itoa(int(token.TYPE))) {
					return
				}
				if v && (k == "nil:"+D+"[*].Specs[*].Name" || k == "nil:"+D+"[*].Specs[*].Type" || k == "nil:"+D+"[*].Specs[*]" ||
					k == "empty:"+D+"[*].Specs[*].Name.Name" || k == "empty:"+D || k == "empty:"+D+"[*].Specs") {
					return
				}
				if v && strings.HasPrefix(k, "eq:"+D+"[*].Specs[*].Name.Name==\"_\"") {
					return // a blank type
				}
			}
		}
		l := in.list(x, nil)
		if in.err != "" {
			if !strings.HasPrefix(in.err, "!") {
				bad[in.err] = true
			}
			return
		}
		if as[gen] && as[spec] && as[intf] {
			c.Obl("interfaces", "case")
			if len(l) != in.n*in.n {
				bad[fmt.Sprintf("of %d interface types declared at package level %d are recorded", in.n*in.n, len(l))] = true
			}
		} else if len(l) > 0 && !as[intf] {
			bad["something that is no interface type is recorded"] = true
		}
	})
	if err != nil {
		c.Viol("interfaces", at, shortFn(f), "%v", err)
	}
	for m := range bad {
		c.Viol("interfaces", at, shortFn(f), "%s", m)
	}
}

func (c *Ctx) i05identity(p *Prog) {
	f := p.Func(XI+"ast", "ParseReceiverInfo")
	pt := p.Func(XI+"ast", "ParseReceiverType")
	if f == nil || pt == nil {
		panic("ParseReceiverInfo not found")
	}
	at := c.Pos(p, f.Pos())
	sh := &shaper{p: p, opaque: func(g *ssa.Function) bool { return g == pt }}
	fr := sh.top(f)
	for _, r := range returnsOf(f) {
		if len(r.Results) != 4 {
			c.Viol("identity", at, shortFn(f), "%d results", len(r.Results))
			return
		}
		var x [4]*shp
		for i := range x {
			x[i] = sh.eval(r.Results[i], fr)
			if b := containsBad(x[i]); b != "" {
				c.Viol("identity", at, shortFn(f), "cannot be decided: %s", shapeErr(b))
				return
			}
		}
		in0 := newInst(nil)
		ptr := x[1].String()
		err := eachCase(8, x[:], []string{"is:" + ptr}, func(as map[string]bool) {
			in := newInst(as)
			in.paths, in.ids = in0.paths, in0.ids
			c.Obl("identity", "case")
			got := in.text(x[0], nil)
			if x[3].k != sHole {
				in.fail("the receiver's type is %s", x[3])
			}
			want := in.place(x[3].s+".Name", nil) + "." + in.place(f.Params[0].Name(), nil)
			if as["is:"+ptr] {
				want = "(*" + in.place(x[3].s+".Name", nil) + ")." + in.place(f.Params[0].Name(), nil)
			}
			if in.err != "" {
				if !strings.HasPrefix(in.err, "!") {
					c.Viol("identity", at, shortFn(f), "%s", in.err)
				}
				return
			}
			if got != want {
				c.Viol("identity", at, shortFn(f), "the identity of a method with a pointer receiver (%v) is %s", as["is:"+ptr], in.readable(got))
			}
		})
		if err != nil {
			c.Viol("identity", at, shortFn(f), "%v", err)
		}
	}
	// and that is what is recorded
	tf := p.Func(XI+"instrument_func", "TrapFuncs")
	sh = c.newShaper(p)
	fr = sh.top(tf)
	n := 0
	for _, r := range returnsOf(tf) {
		if len(r.Results) == 0 {
			continue
		}
		for _, s := range structsOf(sh.eval(r.Results[0], fr), editPkg, "FuncInfo") {
			n++
			c.Obl("identity", "record")
			D := s.flds["FuncDecl"]
			if D == nil || D.k != sHole {
				c.Viol("identity", c.Pos(p, tf.Pos()), "FuncInfo", "the declaration recorded cannot be decided")
				continue
			}
			c.i05record(p, sh, s, D.s, c.Pos(p, tf.Pos()))
		}
	}
	if n == 0 {
		c.Viol("identity", c.Pos(p, tf.Pos()), shortFn(tf), "no record of a trapped function found")
	}
}

func (c *Ctx) i05record(p *Prog, sh *shaper, s *shp, D, at string) {

	var xs []*shp
	for _, k := range []string{"IdentityName", "RecvPtr", "RecvGeneric", "RecvType"} {
		if s.flds[k] == nil {
			c.Viol("identity", at, "FuncInfo."+k, "not recorded")
			return
		}
		if b := containsBad(s.flds[k]); b != "" {
			c.Viol("identity", at, "FuncInfo."+k, "cannot be decided: %s", shapeErr(b))
			return
		}
		xs = append(xs, s.flds[k])
	}
	seen := map[string]bool{}
	err := eachCase(12, xs, nil, func(as map[string]bool) {
		in := newInst(as)
		// has it a receiver?
		var has *bool
		for k, v := range as {
			if v && k == "lt:1<len("+D+".Recv.List)" {
				return // no such function
			}
			if k == "nil:"+D+".Recv" || k == "empty:"+D+".Recv.List" || k == "nil:"+D+".Recv.List" || k == "nil:"+D+".Recv.List[0]" {
				if v {
					f := false
					has = &f
				} else if has == nil {
					t := true
					has = &t
				}
			}
		}
		if has == nil {
			return
		}
		for i, k := range []string{"IdentityName", "RecvPtr", "RecvGeneric", "RecvType"} {
			y := xs[i]
			for y != nil && y.k == sAlt {
				y = in.pick(y)
			}
			if y == nil || in.err != "" {
				return
			}
			c.Obl("identity", "case")
			got := y.String()
			ok := false
			if *has {
				ok = y.k == sHole && strings.Contains(got, "ParseReceiverInfo("+D+".Name.Name,"+D+".Recv.List[0].Type)") && (strings.HasSuffix(got, "#"+strconv.Itoa(i)) || i == 0 && strings.HasSuffix(got, ")"))
			} else {
				ok = got == []string{D + ".Name.Name", "false", "false", "nil"}[i]
			}
			if !ok && !seen[k] {
				seen[k] = true
				c.Viol("identity", at, "FuncInfo."+k, "what is recorded is not that of the function (with a receiver: %v): %s", *has, shapeErr(got))
			}
		}
	})
	if err != nil {
		c.Viol("identity", at, "FuncInfo", "%v", err)
	}
}

func (c *Ctx) i05site() {
	p := c.Root()
	f := p.Func(XI+"instrument_reg", "RegisterFuncTab")
	if f == nil {
		panic("RegisterFuncTab not found in the command")
	}
	sites, _ := p.CallSitesOf(f)
	n := 0
	for _, cs := range sites {
		if strings.HasSuffix(p.Fset.Position(cs.ins.Pos()).Filename, "_test.go") {
			continue
		}
		n++
		at := c.Pos(p, cs.ins.Pos())
		c.Obl("site", at)
		g := cs.ins.Parent()
		sh := c.newShaper(p)
		sh.opaque = func(h *ssa.Function) bool { return h.Pkg != g.Pkg }
		fr := sh.top(g)
		args := cs.ins.Common().Args
		var file string
		for _, a := range args {
			if isNamedPtr(a.Type(), editPkg, "File") {
				file = sh.eval(a, fr).String()
			}
		}
		i := strings.LastIndex(file, ".Files[")
		if i < 0 {
			c.Viol("site", at, "RegisterFuncTab", "the file is not one of a package: %s", shapeErr(file))
			continue
		}
		pkg := file[:i]
		for _, a := range args {
			s := sh.eval(a, fr).String()
			switch {
			case types.Identical(a.Type(), types.Typ[types.String]):
				if s != pkg+".LoadPackage.GoPackage.ImportPath" {
					c.Viol("site", at, "RegisterFuncTab", "the package path is not that of the file's package: %s", shapeErr(s))
				}
			case types.Identical(a.Type(), types.Typ[types.Bool]):
				if s != pkg+".LoadPackage.GoPackage.Standard" {
					c.Viol("site", at, "RegisterFuncTab", "the standard flag is not that of the file's package: %s", shapeErr(s))
				}
			case isNamedPtr(a.Type(), "go/token", "FileSet"):
				if !strings.HasSuffix(s, ".Fset") || !strings.HasPrefix(pkg, strings.TrimSuffix(s, ".Fset")+".Packages[") {
					c.Viol("site", at, "RegisterFuncTab", "the file set is not the one of the packages: %s", shapeErr(s))
				}
			}
		}
		inner := loopOf(cs.ins.Block())
		var outer *ssa.BasicBlock
		if inner != nil {
			outer = outerLoop(inner)
		}
		if inner == nil || outer == nil {
			c.Viol("site", at, "RegisterFuncTab", "not called for each file of each package")
			continue
		}
		for _, h := range []*ssa.BasicBlock{outer, inner} {
			if _, _, why := sh.loopList(h); why != "" {
				c.Viol("site", at, "RegisterFuncTab", "not every file of every package is gone through: %s", why)
			}
		}
		if skipsIteration(cs.ins) {
			c.Viol("site", at, "RegisterFuncTab", "some files are left out")
		}
		if h := inner; !c.reachesEachTime(h, outer) {
			c.Viol("site", at, "RegisterFuncTab", "some packages are left out")
		}
		c.i05order(p, g, cs.ins, at)
	}
	if n != 1 {
		c.Viol("site", c.Pos(p, f.Pos()), shortFn(f), "called at %d places, want one", n)
	}
}

// reachesEachTime: every iteration of the outer loop goes through the inner.
func (c *Ctx) reachesEachTime(inner, outer *ssa.BasicBlock) bool {
	for _, pr := range outer.Preds {
		if outer.Dominates(pr) && !inner.Dominates(pr) {
			return false
		}
	}
	return true
}

// i05order: recorded before, applied after.
func (c *Ctx) i05order(p *Prog, g *ssa.Function, call ssa.CallInstruction, at string) {
	// where the record fields are added to, and where edits are read
	inRepo := func(f *ssa.Function) bool {
		return f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/xhd2015/xgo/")
	}
	reaches := map[*ssa.Function]map[string]bool{}
	var mark func(f *ssa.Function, d int) map[string]bool
	mark = func(f *ssa.Function, d int) map[string]bool {
		if m, ok := reaches[f]; ok {
			return m
		}
		m := map[string]bool{}
		reaches[f] = m
		eachInstr(f, func(ins ssa.Instruction) {
			for k := range c.i05effect(ins) {
				m[k] = true
			}
			if ci, ok := ins.(ssa.CallInstruction); ok {
				for _, h := range p.Callees(ci) {
					if inRepo(h) {
						for k := range mark(h, d+1) {
							m[k] = true
						}
					}
				}
			}
		})
		return m
	}
	// climb to the function where both sides meet
	fn, site := g, call.(ssa.Instruction)
	for i := 0; i < 6; i++ {
		rec, app := 0, 0
		var bad []string
		okApp := false
		eachInstr(fn, func(ins ssa.Instruction) {
			if ins == site {
				return
			}
			m := c.i05effect(ins)
			if ci, ok := ins.(ssa.CallInstruction); ok {
				for _, h := range p.Callees(ci) {
					if inRepo(h) {
						for k := range mark(h, 0) {
							m[k] = true
						}
					}
				}
			}
			if m["record"] {
				rec++
				if mayFollow(site, ins) {
					bad = append(bad, "something is recorded after registration, at "+c.Pos(p, ins.Pos()))
				}
			}
			if m["apply"] && !m["register"] {
				app++
				if mayFollow(ins, site) && !m["record"] {
					bad = append(bad, "edits are applied before registration, at "+c.Pos(p, ins.Pos()))
				}
				if mayFollow(site, ins) {
					okApp = true
				}
			}
		})
		if rec > 0 && app > 0 {
			c.Obl("site", "order")
			for _, b := range bad {
				c.Viol("site", at, "order", "%s", b)
			}
			if !okApp {
				c.Viol("site", at, "order", "the edits are not applied after registration")
			}
			// not skipped
			if w := alwaysBeforeApply(p, c, fn, site, mark, inRepo); w != nil {
				c.Viol("site", at, "order", "the edits may be applied without registration, at %s", c.Pos(p, w.Pos()))
			}
			return
		}
		sites, _ := p.CallSitesOf(fn)
		if len(sites) != 1 {
			break
		}
		site, fn = sites[0].ins.(ssa.Instruction), sites[0].ins.Parent()
	}
	c.Viol("site", at, "order", "recording and applying around the registration were not found")
}

func alwaysBeforeApply(p *Prog, c *Ctx, fn *ssa.Function, site ssa.Instruction, mark func(*ssa.Function, int) map[string]bool, inRepo func(*ssa.Function) bool) ssa.Instruction {
	var bad ssa.Instruction
	eachInstr(fn, func(ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || ins == site || !mayFollow(site, ins) {
			return
		}
		for _, h := range p.Callees(ci) {
			if inRepo(h) && mark(h, 0)["apply"] && !dominatesIns(site, ins) {
				bad = ins
			}
		}
	})
	return bad
}

func dominatesIns(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// i05effect: what an instruction does to the records or with the edits.
func (c *Ctx) i05effect(ins ssa.Instruction) map[string]bool {
	m := map[string]bool{}
	switch x := ins.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isNamedPtr(fa.X.Type(), editPkg, "File") {
			switch fieldName(fa.X.Type(), fa.Field) {
			case "TrapFuncs", "TrapVars", "InterfaceTypes":
				m["record"] = true
			}
		}
	case ssa.CallInstruction:
		if f := x.Common().StaticCallee(); f != nil && f.Pkg != nil {
			if f.Pkg.Pkg.Path() == goeditPkg && f.Name() == "Buffer" {
				m["apply"] = true
			}
			if f.Name() == "RegisterFuncTab" {
				m["register"] = true
			}
		}
	}
	return m
}

// i05join: statements are joined as the shapes of text assume: empty ones
// left out, a separator before each but the first unless one is there.
func (c *Ctx) i05join(p *Prog) {
	f := p.Func(XI+"compiler_extra", "JoinStmts")
	if f == nil {
		return // nothing is assumed of it
	}
	at := c.Pos(p, f.Pos())
	sh := &shaper{p: p}
	fr := sh.top(f)
	L := f.Params[0].Name()
	viol := func(format string, a ...interface{}) {
		c.Viol("join", at, shortFn(f), format, a...)
	}
	var built ssa.Value
	loops := 0
	bad := map[string]bool{}
	for _, h := range f.Blocks {
		if loopOf(h) != h {
			continue
		}
		_, l, why := sh.loopList(h)
		if l == nil {
			continue
		}
		// the loop writing
		type write struct {
			call *ssa.Call
			text string
		}
		writes := map[*ssa.BasicBlock][]write{}
		n := 0
		for _, b := range f.Blocks {
			if !inLoop(b, h) {
				continue
			}
			for _, ins := range b.Instrs {
				cl, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				g := cl.Call.StaticCallee()
				if g == nil || g.Signature.Recv() == nil || !strings.HasPrefix(g.Name(), "Write") || len(cl.Call.Args) != 2 {
					continue
				}
				if built != nil && built != cl.Call.Args[0] {
					bad["written to two places"] = true
				}
				built = cl.Call.Args[0]
				x := sh.eval(cl.Call.Args[1], fr)
				t := x.String()
				if x.k == sLit {
					t = x.s
				} else if t == "59" {
					t = ";"
				}
				writes[b] = append(writes[b], write{cl, t})
				n++
			}
		}
		if n == 0 {
			continue
		}
		loops++
		if why != "" || sh.eval(l, fr).String() != L {
			viol("not every statement is gone through in order: %s", why)
			continue
		}
		for _, ins := range h.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok && types.Identical(ph.Type(), types.Typ[types.String]) {
				for i, e := range ph.Edges {
					if !inLoop(h.Preds[i], h) {
						if x := sh.eval(e, fr); x.k != sLit || x.s != "" {
							bad["the first statement is taken to follow another"] = true
						}
					}
				}
			}
		}
		t := h
		if !sh.loopTest(h) {
			t = loopTestBlock(p, h)
		}
		var body *ssa.BasicBlock
		if t != nil {
			for _, s := range t.Succs {
				if inLoop(s, h) {
					body = s
				}
			}
		}
		if body == nil {
			viol("the loop was not recognised")
			continue
		}
		err := sh.decide(body, fr, 1000, func(b *ssa.BasicBlock) (bool, bool) { return b == h || b == t, true }, func(as map[string]bool, _ []string, _ bool) {
			c.Obl("join", "path")
			var got []string
			for _, b := range sh.onPath {
				for _, w := range writes[b] {
					got = append(got, w.text)
				}
			}
			empty, prev, sep, know := false, false, false, false
			for k, v := range as {
				switch {
				case k == "empty:"+L+"[*]":
					empty, know = v, true
				case strings.HasPrefix(k, "empty:") && carriesLast(k, L):
					prev = v
				case !carriesLast(k, L):
					bad["separating depends on "+shapeErr(k)] = true
				case strings.HasSuffix(k, "==59"), strings.HasSuffix(k, "==10"):
					sep = sep || v
				case strings.HasSuffix(k, "!=59)"), strings.HasSuffix(k, "!=10)"):
					sep = sep || !v
				case strings.HasPrefix(k, "is:strings.HasSuffix("):
					sep = sep || v
				default:
					bad["separating depends on "+shapeErr(k)] = true
				}
			}
			s := strings.Join(got, " ")
			switch {
			case empty && know:
				if s != "" {
					bad["something is written for an empty statement"] = true
				}
			case prev || sep:
				if s != L+"[*]" {
					bad["what is written where no separator is needed: "+s] = true
				}
			default:
				if s != "; "+L+"[*]" {
					bad["what is written after a statement without separator: "+s] = true
				}
			}
		})
		if err != nil {
			viol("%v", err)
		}
	}
	if loops != 1 {
		viol("%d loops writing statements, want one", loops)
	}
	for _, r := range returnsOf(f) {
		cl, ok := r.Results[0].(*ssa.Call)
		if !ok || cl.Call.StaticCallee() == nil || cl.Call.StaticCallee().Name() != "String" || len(cl.Call.Args) != 1 || cl.Call.Args[0] != built {
			viol("what was written is not what is returned")
		}
	}
	for m := range bad {
		viol("%s", m)
	}
}

// carriesLast: the condition is on the last statement written, nothing else.
func carriesLast(k, L string) bool {
	i := strings.Index(k, "value carried by a loop: {")
	if i < 0 {
		return false
	}
	x := k[i+len("value carried by a loop: {"):]
	j := strings.Index(x, "}")
	if j < 0 {
		return false
	}
	for _, a := range strings.Split(x[:j], " | ") {
		if strings.HasPrefix(a, "empty:"+L+"[*]=>base:") || a == "!empty:"+L+"[*]=>"+L+"[*]" {
			continue
		}
		return false
	}
	return true
}
