package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["I03"] = propDef{run: runI03, assumptions: []string{
		"the text inserted is what goedit.Edit is given, at the positions given (property I10)",
		"the functions the accessors call are linked to the runtime's (properties I05, R10)",
		"a type inferred for a variable is the one Go gives it: inference itself is not decided",
	}}
}

const typesPkg = "github.com/xhd2015/xgo/instrument/resolve/types"

func runI03(c *Ctx) {
	p := c.Instr()
	c.Rule("accessor", "what is written behind the declaration of a variable, for every combination of what it depends on, parses as two functions without parameters: one returning the variable's type, one a pointer to it; each makes the variable (or its address) its result, hands the variable's own info, its address and the result's address to the file's trap for variables (for pointers), and returns the result; in a test file it has no test's name")
	c.Rule("reference", "a reference becomes a call of the accessor of the same variable: of the one for the address exactly when the reference needs the address, and the & before it is removed exactly then unless it belongs to a field")
	c.Rule("together", "a variable's record, its accessors and the rewriting of every one of its references happen under the same conditions, once each: all or nothing")
	c.Rule("chosen", "variables are trapped exactly when their package may be instrumented, they are referred to, their type can be written, and the package is a main one or the variable is recorded as mocked")
	c.Rule("record", "the variable is recorded for its own file with its declaration, its name, and the info variable its accessors use, whose name holds the file's index and the number of variables recorded before")
	c.Rule("type", "the type written is the source of the declared type, or else the inferred type written for the file and package that declare the variable, or else the source of the function literal's type; on one line")
	c.Rule("named", "a type is written by its kind: names of the own package bare, exported names of others behind a reserved import name, pointers, slices, maps and instances from their parts; whatever else is refused")
	c.Rule("import", "an import is added for every new package a written type needs, under the name the type uses, in the same file; a refused type leaves no import recorded")
	c.Rule("noted", "a reference is noted with its file, its name's position, its & and whether it needs the address: it does when & applies to the variable itself, or when what it is used for needs the address and it holds no pointer; &v.f is noted only for a variable holding a pointer")
	c.Rule("receiver", "a method taken from an addressable value needs the value's address exactly when the method's receiver is a pointer and the value is none")
	c.i03rewrite(p)
	c.i03named(p)
	c.i03imports(p)
	c.i03noted(p)
	c.i03receiver(p)
	c.Floor("accessor", 8)
	c.Floor("reference", 8)
	c.Floor("together", 3)
	c.Floor("chosen", 16)
	c.Floor("record", 1)
	c.Floor("type", 1)
	c.Floor("named", 7)
	c.Floor("import", 2)
	c.Floor("noted", 8)
	c.Floor("receiver", 1)
}

// typeTexter: f writes a type.
func typeTexter(f *ssa.Function) bool {
	if f == nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "instrument/instrument_var") {
		return false
	}
	res := f.Signature.Results()
	if res.Len() != 1 || !types.Identical(res.At(0).Type(), types.Typ[types.String]) {
		return false
	}
	for _, x := range f.Params {
		if isNamed(x.Type(), typesPkg, "Type") {
			return true
		}
	}
	return false
}

// oneLiner: f puts a text on one line.
func oneLiner(f *ssa.Function) bool {
	s := f.Signature
	return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "instrument/instrument_var") && s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 &&
		types.Identical(s.Params().At(0).Type(), types.Typ[types.String]) && types.Identical(s.Results().At(0).Type(), types.Typ[types.String]) && hasLoop(f)
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if isLoopHeader(b) {
			return true
		}
	}
	return false
}

// walkFrames visits every instruction of a function and of the functions of
// its package it calls.
func (sh *shaper) walkFrames(fr *sframe, chain []*ssa.Call, f func(ins ssa.Instruction, fr *sframe, chain []*ssa.Call)) {
	eachInstr(fr.fn, func(ins ssa.Instruction) {
		f(ins, fr, chain)
		cl, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		g := cl.Call.StaticCallee()
		if g == nil || g.Pkg != fr.fn.Pkg || len(g.Blocks) == 0 || sh.onStack(g, fr) {
			return
		}
		if n := sh.enter(g, cl, fr); n != nil {
			sh.walkFrames(n, append(chain[:len(chain):len(chain)], cl), f)
		}
	})
}

// chainGuard: under which conditions an instruction, reached through calls,
// is executed; the loops around it.
func (sh *shaper) chainGuard(top *sframe, chain []*ssa.Call, ins ssa.Instruction) (g [][]gatom, loops []*ssa.BasicBlock) {
	g = [][]gatom{{}}
	cur := top
	at := make([]ssa.Instruction, 0, len(chain)+1)
	for _, x := range chain {
		at = append(at, x)
	}
	at = append(at, ins)
	for i, x := range at {
		b := x.Block()
		g = andDNF(g, sh.guards(cur.fn.Blocks[0], b, nil, cur))
		for h := loopOf(b); h != nil; h = outerLoop(h) {
			loops = append(loops, h)
		}
		if i < len(chain) {
			n := sh.enter(chain[i].Call.StaticCallee(), chain[i], cur)
			if n == nil {
				return g, loops
			}
			cur = n
		}
	}
	return g, loops
}

// precedes: on one common level, a comes before b on every path to b.
func precedes(ca []*ssa.Call, a ssa.Instruction, cb []*ssa.Call, b ssa.Instruction) bool {
	i := 0
	for i < len(ca) && i < len(cb) && ca[i] == cb[i] {
		i++
	}
	x, y := a, b
	if i < len(ca) {
		x = ca[i]
	}
	if i < len(cb) {
		y = cb[i]
	}
	return x != y && x.Parent() == y.Parent() && dominatesIns(x, y)
}

type varOp struct {
	editOp
	g     [][]gatom
	loops []*ssa.BasicBlock
	text  *shp
	pos   *shp
}

func (c *Ctx) i03rewrite(p *Prog) {
	f := p.Func(XI+"instrument_var", "TrapVariables")
	if f == nil {
		panic("instrument_var.TrapVariables not found")
	}
	pk := paramOfType(f, func(t types.Type) bool { return isNamedPtr(t, editPkg, "Packages") })
	rec := paramOfType(f, func(t types.Type) bool {
		pt, ok := t.(*types.Pointer)
		return ok && isNamed(pt.Elem(), resolvePkg, "Recorder")
	})
	if pk == nil || rec == nil {
		panic("TrapVariables: parameters not recognised")
	}
	sh := c.newShaper(p)
	sh.opaque = typeTexter
	sh.tag = func(g *ssa.Function) string {
		if oneLiner(g) {
			return "oneline"
		}
		return ""
	}
	fr := sh.top(f)
	PK := pk.Name() + ".Packages[*]"
	F := PK + ".Files[*]"
	D := F + ".Decls[*]"
	R := D + ".VarRefs[*]"
	V := D + ".Ident.Name"
	where := func(i ssa.Instruction) string { return c.Pos(p, i.Pos()) }
	reported := map[string]bool{}
	viol := func(rule, at, format string, a ...interface{}) {
		if !reported[rule+format+at] {
			reported[rule+format+at] = true
			m := fmt.Sprintf(format, a...)
			c.Viol(rule, at, "variable trap", "%s", m)
		}
	}
	// the edits
	var decl, name, end, del []varOp
	for _, o := range sh.editOps(fr, nil) {
		v := varOp{editOp: o}
		v.g, v.loops = sh.chainGuard(fr, o.chain, o.call)
		at := where(o.call)
		ed := sh.eval(o.call.Call.Args[0], o.fr).s
		v.pos = sh.eval(o.args[0], o.fr)
		v.text = sh.eval(o.args[len(o.args)-1], o.fr)
		viaType := false
		for _, cl := range o.chain {
			viaType = viaType || typeTexter(cl.Call.StaticCallee())
		}
		if o.kind == "Insert" {
			if b := containsBad(v.text); b != "" {
				c.Viol("accessor", at, "editor call", "the text written cannot be decided: %s", shapeErr(b))
				return
			}
			if strings.Contains(litParts(v.text), "\n") {
				viol("accessor", at, "the text written holds a line break: the lines after it get other numbers")
			}
		}
		switch {
		case viaType:
			c.i03import(p, o, ed, F, v, at)
		case ed == F+".Edit" && o.kind == "Insert" && isEndOf(v.pos.s, D+".Decl"):
			decl = append(decl, v)
		case ed == R+".File.Edit" && o.kind == "Insert" && v.pos.s == R+".NameStart":
			name = append(name, v)
		case ed == R+".File.Edit" && o.kind == "Insert" && v.pos.s == R+".NameEnd":
			end = append(end, v)
		case ed == R+".File.Edit" && o.kind == "Delete" && isPosOf(v.pos.s, R+".Addr") && isPosOf(v.text.s, R+".Addr.X"):
			del = append(del, v)
		default:
			c.Viol("reference", at, "editor call", "%s with %s at %s: neither behind the declaration of the variable in its file, nor at a reference in the reference's file", o.kind, shapeErr(ed), shapeErr(v.pos))
		}
	}
	if len(decl) == 0 || len(end) == 0 {
		c.Viol("together", c.Pos(p, f.Pos()), shortFn(f), "no accessors are written, or no reference is rewritten")
		return
	}
	for i := 1; i < len(decl); i++ {
		if !precedes(decl[i-1].chain, decl[i-1].call, decl[i].chain, decl[i].call) {
			viol("accessor", where(decl[i].call), "the parts written behind the declaration come in no fixed order")
		}
	}
	// the record
	type recorded struct {
		ins   *ssa.Store
		fr    *sframe
		chain []*ssa.Call
	}
	var recs []recorded
	type lenRead struct {
		ins   ssa.Instruction
		chain []*ssa.Call
	}
	var lens []lenRead
	sh.walkFrames(fr, nil, func(ins ssa.Instruction, fr *sframe, chain []*ssa.Call) {
		switch x := ins.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && strings.HasSuffix(fv.Type().String(), "[]*"+editPkg+".VarInfo") {
					recs = append(recs, recorded{x, fr, chain})
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && strings.HasSuffix(x.Call.Args[0].Type().String(), "[]*"+editPkg+".VarInfo") {
				lens = append(lens, lenRead{ins, chain})
			}
		}
	})
	if len(recs) != 1 {
		c.Viol("record", c.Pos(p, f.Pos()), shortFn(f), "a trapped variable is recorded at %d places, want one", len(recs))
		return
	}
	rc := recs[0]
	rat := where(rc.ins)
	c.Obl("record", rat)
	if o := sh.eval(rc.ins.Addr.(*ssa.FieldAddr).X, rc.fr); o.s != F {
		viol("record", rat, "recorded for another file than the declaring one: %s", shapeErr(o))
	}
	rv := sh.eval(rc.ins.Val, rc.fr)
	infos := structsOf(rv, editPkg, "VarInfo")
	if rv.k != sPlus || len(rv.sub) != 2 || rv.sub[0].s != F+".TrapVars" || len(infos) != 1 {
		c.Viol("record", rat, "File.TrapVars", "the variables recorded before are not kept, or more than one is added: %s", shapeErr(rv))
		return
	}
	info := infos[0]
	if x := info.flds["Name"]; x == nil || x.s != V {
		viol("record", rat, "recorded under another name than the variable's: %s", shapeErr(x))
	}
	if x := info.flds["Decl"]; x == nil || x.s != D {
		viol("record", rat, "recorded with another declaration: %s", shapeErr(x))
	}
	infoShape := info.flds["InfoVar"]
	infoLit := c.constString(p, XI+"constants", "VAR_INFO")
	okInfo := false
	if infoShape != nil && infoShape.k == sCat && len(infoShape.sub) == 4 {
		s := infoShape.sub
		okInfo = s[0].k == sLit && infoLit != "" && strings.HasPrefix(s[0].s, infoLit) && s[1].k == sHole && s[1].s == F+".Index" && s[2].k == sLit && s[2].s != "" && !isDigits(s[2].s) &&
			s[3].k == sLen && s[3].sub[0].s == F+".TrapVars"
	}
	if !okInfo {
		c.Viol("record", rat, "VarInfo.InfoVar", "the name of the info variable is not made of its prefix, the file's index and the number of variables recorded before, apart: %s", shapeErr(infoShape))
		return
	}
	for _, l := range lens {
		if !precedes(l.chain, l.ins, rc.chain, rc.ins) {
			viol("record", where(l.ins), "the number of recorded variables is read after the variable was recorded: the info variable's name is another one there")
		}
	}
	rg, rloops := sh.chainGuard(fr, rc.chain, rc.ins)
	for _, h := range rloops {
		if _, _, why := sh.loopList(h); why == "left early" {
			viol("together", c.Pos(p, h.Instrs[0].Pos()), "the loop is left early: the variables or references after that are not handled")
		}
	}
	for _, o := range append(append(append([]varOp(nil), decl...), end...), append(name, del...)...) {
		c.Obl("together", where(o.call))
		for _, h := range o.loops {
			if _, _, why := sh.loopList(h); why == "left early" {
				viol("together", where(o.call), "a loop around it is left early: the references after that are not rewritten")
			}
		}
	}
	// the type
	var ctxs []*shp
	sh.walkFrames(fr, nil, func(ins ssa.Instruction, fr *sframe, chain []*ssa.Call) {
		cl, ok := ins.(*ssa.Call)
		if !ok || !typeTexter(cl.Call.StaticCallee()) {
			return
		}
		for _, x := range chain {
			if typeTexter(x.Call.StaticCallee()) {
				return
			}
		}
		c.Obl("type", where(cl))
		c.i03context(p, sh, cl, fr, PK, F, D)
		ctxs = append(ctxs, nil)
	})

	// selection
	n := 0
	kind := c.constIntOf(p, editPkg, "DeclKindVar")
	one := func(key string) func(string) bool { return func(k string) bool { return k == key } }
	recP := rec.Name() + ".Pkgs[" + PK + ".LoadPackage.GoPackage.ImportPath]"
	src := func(x string) func(string) bool {
		return func(k string) bool {
			return (strings.HasPrefix(k, "empty:"+F+".File.Content[") || strings.HasPrefix(k, "empty:oneline("+F+".File.Content[")) && strings.Contains(k, "Pos("+x+")") && strings.Contains(k, "End("+x+")")
		}
	}
	vars := map[string]func(string) bool{
		"main":     one("is:" + PK + ".Main"),
		"allow":    one("is:" + PK + ".AllowInstrument"),
		"kind":     one("eq:" + D + ".Kind==" + kind),
		"norefs":   one("empty:" + D + ".VarRefs"),
		"norec":    one("nil:" + recP),
		"nonames":  one("empty:" + recP + ".Names"),
		"noname":   one("nil:" + recP + ".Names[" + V + "]"),
		"mocked":   one("is:" + recP + ".Names[" + V + "].HasVarTrap"),
		"notype":   one("nil:" + D + ".Type"),
		"noresolv": one("nil:" + D + ".ResolvedValueType"),
		"funclit":  one("is:is(" + D + ".Value,*go/ast.FuncLit)"),
		"e1":       src(D + ".Type"),
		"e2": func(k string) bool {
			return strings.HasPrefix(k, "empty:") && strings.Contains(k, D+".ResolvedValueType)")
		},
		"e3": src(D + ".Value.Type"),
	}
	keys := map[string]string{}
	dummy := []*shp{{k: sAlt, alts: []galt{{rg, lit("")}}}}
	for _, o := range append(append([]varOp(nil), decl...), end...) {
		dummy = append(dummy, &shp{k: sAlt, alts: []galt{{o.g, lit("")}}})
	}
	for _, k := range atomsOf(dummy...) {
		for v, m := range vars {
			if m(k) {
				if keys[v] != "" {
					viol("chosen", rat, "the same condition is tested on different things: %s and %s", shapeErr(k), shapeErr(keys[v]))
				}
				keys[v] = k
			}
		}
	}
	err := eachCase(18, dummy, nil, func(as map[string]bool) {
		v := func(n string, def bool) bool {
			if k := keys[n]; k != "" {
				return as[k]
			}
			return def
		}
		norec := v("norec", false)
		nonames := v("nonames", norec)
		noname := v("noname", nonames)
		mocked := v("mocked", false)
		if norec && !nonames && keys["nonames"] != "" || (norec || nonames) && !noname && keys["noname"] != "" || v("norefs", false) {
			return
		}
		if noname && mocked {
			return
		}
		if v("noresolv", false) && !v("notype", false) && keys["notype"] == "" {
			return
		}
		text := false
		switch {
		case !v("notype", true):
			text = !v("e1", false)
		case !v("noresolv", true):
			text = !v("e2", false)
		case v("funclit", false):
			text = !v("e3", false)
		}
		want := v("allow", false) && v("kind", false) && text && (v("main", false) || !norec && !noname && mocked)
		in := newInst(as)
		n++
		got := in.holds(rg)
		if got != want {
			what := "is trapped"
			if want {
				what = "is not trapped"
			}
			viol("chosen", rat, "a variable %s: package allowed %v, main %v, recorded as mocked %v, its type can be written %v, a variable %v", what, v("allow", false), v("main", false), mocked && !norec && !noname, text, v("kind", false))
		}
		for _, o := range append(append([]varOp(nil), decl...), end...) {
			if h := in.holds(o.g); h != got {
				if got {
					viol("together", where(o.call), "not done for every variable recorded")
				} else {
					viol("together", where(o.call), "done for a variable that is not recorded")
				}
			}
		}
	})
	if err != nil {
		c.Viol("chosen", rat, "selection", "%v", err)
	}
	for i := 0; i < n && i < 400; i++ {
		c.Obl("chosen", fmt.Sprint("case ", i))
	}
	for _, m := range []string{"main", "allow", "kind", "mocked", "notype", "noresolv"} {
		if keys[m] == "" {
			viol("chosen", rat, "nothing depends on %s", map[string]string{"main": "the package being a main one", "allow": "the package being allowed", "kind": "the declaration being a variable's", "mocked": "the variable being recorded as mocked", "notype": "a type being declared", "noresolv": "a type being inferred"}[m])
		}
	}
	// texts, the variable being trapped
	fix := map[string]bool{}
	for _, m := range []string{"main", "allow", "kind"} {
		fix[keys[m]] = true
	}
	for _, m := range []string{"norefs", "norec", "nonames", "noname", "e1", "e2", "e3"} {
		fix[keys[m]] = false
	}
	fix[keys["mocked"]] = true
	delete(fix, "")
	inTest, isTest := "is:strings.HasSuffix("+F+".File.Name,\"_test.go\")", "is:strings.HasPrefix("+V+",\"Test\")"
	addr, field, need := "nil:"+R+".Addr", "is:"+R+".FieldAccess", "is:"+R+".NeedPtr"
	shapes := []*shp{}
	for _, l := range [][]varOp{decl, name, end, del} {
		for _, o := range l {
			t := o.text
			if o.kind == "Delete" {
				t = lit("")
			}
			shapes = append(shapes, &shp{k: sAlt, alts: []galt{{substDNF(o.g, fix), t}}})
		}
	}
	traps := [2]string{c.constString(p, XI+"constants", "LINK_TRAP_VAR"), c.constString(p, XI+"constants", "LINK_TRAP_VAR_PTR")}
	if traps[0] == "" || traps[1] == "" {
		panic("constants LINK_TRAP_VAR, LINK_TRAP_VAR_PTR not found")
	}
	extra := []string{inTest, isTest, addr, field, need}
	for _, m := range []string{"notype", "noresolv", "funclit"} {
		if keys[m] != "" {
			extra = append(extra, keys[m])
		}
	}
	dat, eat := where(decl[len(decl)-1].call), where(end[0].call)
	err = eachCase(14, shapes, extra, func(as map[string]bool) {
		for k, v := range fix {
			as[k] = v
		}
		if as[addr] && as[field] {
			return // a field's address has its &
		}
		v := func(n string) bool { return keys[n] != "" && as[keys[n]] }
		var path func(s string) bool
		srcOf := func(x string) func(string) bool {
			return func(s string) bool {
				s = strings.TrimPrefix(s, "oneline("+F+".File.Content[")
				i := strings.Index(s, ":")
				return i > 0 && strings.HasSuffix(s[:i], ".Pos("+x+")).Offset") && strings.HasSuffix(s, ".End("+x+")).Offset])")
			}
		}
		switch {
		case !v("notype"):
			path = srcOf(D + ".Type")
		case !v("noresolv"):
			path = func(s string) bool {
				return strings.Contains(s, "instrument_var") && strings.Contains(s, D+".ResolvedValueType)") && !strings.Contains(s, "File.Content")
			}
		case v("funclit"):
			path = srcOf(D + ".Value.Type")
		default:
			return
		}
		in := newInst(as)
		join := func(l []varOp) string {
			t := ""
			for _, o := range l {
				if in.holds(o.g) {
					t += in.text(o.text, nil)
				}
			}
			return t
		}
		acc := join(decl)
		pre, suf := join(name), join(end)
		infoVar := in.text(infoShape, nil)
		vn := in.place(V, nil)
		if in.err != "" {
			if !strings.HasPrefix(in.err, "!") {
				viol("accessor", dat, "%s", in.err)
			}
			return
		}
		c.Obl("accessor", acc)
		get, m := parseAccessors(acc, vn, infoVar, traps, in.place(F+".Index", types.Typ[types.Int]))
		if m != "" {
			viol("accessor", dat, strings.ReplaceAll(m, "%", "%%")+", in: %s", acc)
			return
		}
		for _, t := range []string{get.typ[0], get.typ[1]} {
			if !path(in.paths[t]) {
				viol("type", dat, "the type written is %s", shapeErr(in.paths[t]))
				return
			}
		}
		if as[inTest] && as[isTest] {
			for _, fn := range get.name {
				if strings.HasPrefix(strings.Replace(fn, vn, "Test", 1), "Test") {
					viol("accessor", dat, "the accessor of a variable called Test... in a test file is taken for a test: %s", fn)
				}
			}
		}
		// the reference
		c.Obl("reference", pre+vn+suf)
		e, err := parser.ParseExpr(pre + vn + suf)
		call, ok := e.(*ast.CallExpr)
		if err != nil || !ok || len(call.Args) != 0 {
			viol("reference", eat, "a reference to %s becomes %s, no call without arguments", vn, pre+vn+suf)
			return
		}
		want := get.name[0]
		if as[need] {
			want = get.name[1]
		}
		if !isIdent(call.Fun, want) {
			viol("reference", eat, "a reference to %s (needing its address: %v) becomes %s; the accessor is %s", vn, as[need], pre+vn+suf, want)
		}
		nd := 0
		for _, o := range del {
			if in.holds(o.g) {
				nd++
			}
		}
		wantDel := 0
		if !as[addr] && !as[field] {
			wantDel = 1
		}
		if nd != wantDel {
			viol("reference", eat, "the & of a reference (there is one: %v, of a field: %v) is removed %d times", !as[addr], as[field], nd)
		}
	})
	if err != nil {
		c.Viol("accessor", dat, "accessors", "%v", err)
	}
}

// substDNF fixes conditions.
func substDNF(d [][]gatom, fix map[string]bool) [][]gatom {
	var out [][]gatom
	for _, conj := range d {
		var n []gatom
		ok := true
		for _, a := range conj {
			if v, has := fix[a.key]; has {
				if v != a.pol {
					ok = false
				}
				continue
			}
			n = append(n, a)
		}
		if ok {
			if n == nil {
				n = []gatom{}
			}
			out = append(out, n)
		}
	}
	return out
}

type accessors struct {
	name [2]string // value, address
	typ  [2]string
}

// parseAccessors reads what is written behind a declaration.
func parseAccessors(text, v, info string, traps [2]string, idx string) (*accessors, string) {
	file, err := parser.ParseFile(token.NewFileSet(), "t.go", "package p\nvar z int"+text+"\nvar zz int", 0)
	if err != nil {
		return nil, "does not parse: " + err.Error()
	}
	r := &accessors{}
	var fns []*ast.FuncDecl
	for i, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			if i == 0 || i == len(file.Decls)-1 {
				continue
			}
			return nil, "something else than two functions is declared"
		}
		fns = append(fns, fd)
	}
	if len(fns) != 2 || len(file.Decls) != 4 {
		return nil, fmt.Sprintf("%d functions are declared, want two", len(fns))
	}
	for _, fd := range fns {
		if fd.Recv != nil || fd.Type.Params.NumFields() != 0 || fd.Type.Results.NumFields() != 1 || len(fd.Type.Results.List[0].Names) != 0 || fd.Body == nil {
			return nil, fd.Name.Name + " does not take nothing and return one value"
		}
		ptr := 0
		t := fd.Type.Results.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			ptr = 1
			t = s.X
		}
		id, ok := t.(*ast.Ident)
		if !ok {
			return nil, fd.Name.Name + " returns neither the variable's type nor a pointer to it"
		}
		if r.name[ptr] != "" {
			return nil, "there are not one accessor for the value and one for the address"
		}
		r.name[ptr], r.typ[ptr] = fd.Name.Name, id.Name
		st := nonEmpty(fd.Body.List)
		if len(st) != 3 {
			return nil, fmt.Sprintf("%s has %d statements, want three: take, trap, return", fd.Name.Name, len(st))
		}
		as, ok := st[0].(*ast.AssignStmt)
		if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
			return nil, fd.Name.Name + " does not start with taking the variable"
		}
		res, ok := as.Lhs[0].(*ast.Ident)
		if !ok || !strings.HasPrefix(res.Name, "__") {
			return nil, fd.Name.Name + ": the result has no reserved name"
		}
		if ptr == 0 && !isIdent(unparen(as.Rhs[0]), v) || ptr == 1 && !isAddrOf(unparen(as.Rhs[0]), v) {
			return nil, fd.Name.Name + " takes something else than the variable (or its address)"
		}
		es, ok := st[1].(*ast.ExprStmt)
		if !ok {
			return nil, fd.Name.Name + " does not call the trap"
		}
		call, ok := es.X.(*ast.CallExpr)
		if !ok || !isIdent(call.Fun, traps[ptr]+idx) {
			return nil, fd.Name.Name + " does not call the file's trap of its kind"
		}
		if len(call.Args) != 3 || !isIdent(call.Args[0], info) || !isAddrOf(call.Args[1], v) || !isAddrOf(call.Args[2], res.Name) {
			return nil, fd.Name.Name + " does not hand over the variable's info, its address and the result's address"
		}
		ret, ok := st[2].(*ast.ReturnStmt)
		if !ok || len(ret.Results) != 1 || !isIdent(unparen(ret.Results[0]), res.Name) {
			return nil, fd.Name.Name + " does not return the result"
		}
	}
	if r.name[0] == "" || r.name[1] == "" || r.name[0] == r.name[1] {
		return nil, "there are not one accessor for the value and one for the address"
	}
	return r, ""
}

func (c *Ctx) constIntOf(p *Prog, pkg, name string) string {
	if sp := p.pkg(pkg); sp != nil {
		if m, ok := sp.Members[name].(*ssa.NamedConst); ok && m.Value.Value.Kind() == constant.Int {
			return m.Value.Value.ExactString()
		}
	}
	panic("constant " + name + " not found")
}

// i03context: a type is written for the package and file of the variable.
func (c *Ctx) i03context(p *Prog, sh *shaper, cl *ssa.Call, fr *sframe, PK, F, D string) {
	at := c.Pos(p, cl.Pos())
	seen := map[string]bool{}
	var look func(v ssa.Value, t types.Type, x *shp)
	look = func(v ssa.Value, t types.Type, x *shp) {
		if pt, ok := t.(*types.Pointer); ok {
			switch {
			case isNamedPtr(t, editPkg, "File"):
				seen["file"] = true
				if x.s != F {
					c.Viol("type", at, "written type", "imports go to another file: %s", shapeErr(x))
				}
				return
			case strings.HasSuffix(pt.Elem().String(), "/instrument_var.importRecorder"):
				seen["imports"] = true
				return
			}
			t = pt.Elem()
		}
		if isNamed(t, typesPkg, "Type") {
			seen["type"] = true
			if x.s != D+".ResolvedValueType" {
				c.Viol("type", at, "written type", "the type written is not the variable's: %s", shapeErr(x))
			}
			return
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			seen["pkg"] = true
			if x.s != PK+".LoadPackage.GoPackage.ImportPath" {
				c.Viol("type", at, "written type", "written as seen from another package: %s", shapeErr(x))
			}
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok && x.k == sStruct {
			for i := 0; i < st.NumFields(); i++ {
				if y := x.flds[st.Field(i).Name()]; y != nil {
					look(nil, st.Field(i).Type(), y)
				}
			}
		}
	}
	for _, a := range cl.Call.Args {
		look(a, a.Type(), sh.eval(a, fr))
	}
	for _, k := range []string{"file", "imports", "type", "pkg"} {
		if !seen[k] {
			c.Viol("type", at, "written type", "%s the type is written for is not known", k)
		}
	}
}

// i03import: the import added for a type.
func (c *Ctx) i03import(p *Prog, o editOp, ed, F string, v varOp, at string) {
	c.Obl("import", at)
	if ed != F+".Edit" || o.kind != "Insert" || !isEndOf(v.pos.s, F+".File.Syntax.Name") {
		c.Viol("import", at, "import", "not added behind the package clause of the file declaring the variable: %s at %s", shapeErr(ed), shapeErr(v.pos))
		return
	}
	_ = eachCase(8, []*shp{v.text}, nil, func(as map[string]bool) {
		in := newInst(as)
		t := in.text(v.text, nil)
		if in.err != "" {
			if !strings.HasPrefix(in.err, "!") {
				c.Viol("import", at, "import", "%s", in.err)
			}
			return
		}
		f, err := parser.ParseFile(token.NewFileSet(), "t.go", "package p"+t+"\nimport \"fmt\"\nvar x = 1", 0)
		if err != nil || len(f.Imports) != 2 || f.Imports[0].Name == nil {
			c.Viol("import", at, "import", "does not parse as one named import: %s", t)
			return
		}
		ref, path := in.paths[f.Imports[0].Name.Name], in.paths[strings.Trim(f.Imports[0].Path.Value, "\"")]
		if !strings.HasSuffix(ref, ".ref") || !strings.HasSuffix(path, ".pkgPath") || strings.TrimSuffix(ref, ".ref") != strings.TrimSuffix(path, ".pkgPath") || !strings.Contains(ref, "[*]") {
			c.Viol("import", at, "import", "the import's name and path are not those recorded for one package: %s, %s", shapeErr(ref), shapeErr(path))
		}
	})
}
