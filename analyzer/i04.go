package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const XI = "github.com/xhd2015/xgo/instrument/"
const goeditPkg = "github.com/xhd2015/xgo/support/edit/goedit"

func init() {
	props["I04"] = propDef{run: runI04, assumptions: []string{
		"the text inserted is what goedit.Edit is given, at the positions given (the editing buffer is property I10's)",
		"go/ast positions mean what package go/ast documents",
	}}
}

// shapeErr shortens an undecided shape for a message.
func shapeErr(x interface{}) string {
	s := fmt.Sprint(x)
	if i := strings.Index(s, "?"); i >= 0 && len(s) > 160 {
		if i > 30 {
			s = s[i-30:]
		}
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// newShaper with the repository's conventions.
func (c *Ctx) newShaper(p *Prog) *shaper {
	sh := &shaper{p: p, stmtJoin: map[*ssa.Function]bool{}}
	if f := p.Func(XI+"compiler_extra", "JoinStmts"); f != nil {
		sh.stmtJoin[f] = true
	}
	sh.opaque = func(f *ssa.Function) bool {
		// where the name of a receiver's type comes from is another matter
		return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "instrument/ast") && f.Name() == "ParseReceiverInfo"
	}
	return sh
}

// editOp is one call of the editor.
type editOp struct {
	kind  string // Insert, Delete, Replace
	call  *ssa.Call
	fr    *sframe
	args  []ssa.Value // positions, then text
	chain []*ssa.Call // calls leading here
}

// editOps finds the editor calls made by a function and the ones of its
// package it calls.
func (sh *shaper) editOps(fr *sframe, chain []*ssa.Call) []editOp {
	var out []editOp
	eachInstr(fr.fn, func(ins ssa.Instruction) {
		c, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		f := c.Call.StaticCallee()
		if f == nil {
			return
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == goeditPkg && f.Signature.Recv() != nil {
			switch f.Name() {
			case "Insert", "Delete", "Replace":
				out = append(out, editOp{f.Name(), c, fr, c.Call.Args[1:], append([]*ssa.Call(nil), chain...)})
			}
			return
		}
		if f.Pkg != nil && (f.Pkg == fr.fn.Pkg || takesEditor(f)) && len(f.Blocks) > 0 && !sh.onStack(f, fr) {
			if n := sh.enter(f, c, fr); n != nil {
				out = append(out, sh.editOps(n, append(chain[:len(chain):len(chain)], c))...)
			}
		}
	})
	return out
}

// takesEditor: f is given an editor.
func takesEditor(f *ssa.Function) bool {
	for _, p := range f.Params {
		if pt, ok := p.Type().(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == goeditPkg && n.Obj().Name() == "Edit" {
				return true
			}
		}
	}
	return false
}

// litParts is all literal text of a shape.
func litParts(x *shp) string {
	var sb strings.Builder
	seen := map[*shp]bool{}
	var walk func(x *shp)
	walk = func(x *shp) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.k == sLit {
			sb.WriteString(x.s + "\x00")
		}
		if x.k == sLen {
			return // a number
		}
		for _, y := range x.sub {
			walk(y)
		}
		for _, a := range x.alts {
			walk(a.v)
		}
	}
	walk(x)
	return sb.String()
}

// structsOf lists the struct values within a shape whose type is name.
func structsOf(x *shp, pkg, name string) []*shp {
	var out []*shp
	seen := map[*shp]bool{}
	var walk func(x *shp)
	walk = func(x *shp) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.k == sStruct && x.typ != nil {
			if n, ok := x.typ.(*types.Named); ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg {
				out = append(out, x)
				return
			}
		}
		for _, y := range x.sub {
			walk(y)
		}
		for _, a := range x.alts {
			walk(a.v)
		}
	}
	walk(x)
	return out
}

// containsBad: some part of the shape could not be decided.
func containsBad(x *shp) string {
	r := ""
	seen := map[*shp]bool{}
	var walk func(x *shp)
	walk = func(x *shp) {
		if x == nil || seen[x] || r != "" {
			return
		}
		seen[x] = true
		if x.k == sLen {
			return // a number, whatever is counted
		}
		if x.k == sBad || x.k == sBase {
			r = x.String()
			return
		}
		if x.k == sMap && x.bad != "" {
			r = x.bad
			return
		}
		for _, y := range x.sub {
			walk(y)
		}
		for _, y := range x.flds {
			walk(y)
		}
		for _, a := range x.alts {
			walk(a.v)
		}
	}
	walk(x)
	return r
}

func (c *Ctx) constString(p *Prog, pkg, name string) string {
	sp := p.pkg(pkg)
	if sp == nil {
		return ""
	}
	if k, ok := sp.Members[name].(*ssa.NamedConst); ok {
		if s, ok := constStr(k.Value); ok {
			return s
		}
	}
	return ""
}

func runI04(c *Ctx) {
	p := c.Instr()
	c.Rule("trap", "the text inserted into a trapped function, for every combination of named, unnamed and blank receiver, parameters and results, parses as: call the file's trap with the function's own info, the address of its receiver (nil without one), the addresses of all its parameters and of all its results in declared order; then defer the post function if there is one; then return if told to stop; nothing else")
	c.Rule("place", "it is inserted right after the opening brace of that function's body")
	c.Rule("fields", "the fields recorded for a function are its declared receiver, parameters and results, all of them in declared order, named as declared or with a generated name when unnamed or blank")
	c.Rule("named", "a field gets a generated name exactly where the same name is written into the source: before the type of an unnamed field, in place of a blank name; an unparenthesised result is parenthesised exactly then")
	c.Rule("unique", "generated names of one function differ from each other, are of one kind per receiver, parameters and results, and begin with the reserved prefix")
	c.Rule("info", "the info variable the trap uses is the one recorded for the function, its name holds the file's index and the number of infos already recorded, apart")
	c.Rule("chosen", "functions left untrapped are exactly: without body, blank, init, go:nosplit, time's real clock, and, outside instrument-all mode, the ones neither referred to by a mock, whitelisted nor exported under exported mode")
	c.Rule("site", "every allowed package's files are trapped: with the editor, syntax and index of one and the same file, what is recorded being added to that file's traps, under the package's own path, configuration, record and mode; test files outside main packages and disallowed packages are not")
	c.Rule("oneline", "nothing inserted holds a line break")

	f := p.Func(XI+"instrument_func", "TrapFuncs")
	if f == nil {
		panic("instrument_func.TrapFuncs not found")
	}
	sh := c.newShaper(p)
	fr := sh.top(f)
	where := func(i ssa.Instruction) string { return c.Pos(p, i.Pos()) }

	trapLit := c.constString(p, XI+"constants", "LINK_TRAP_FUNC")
	infoLit := c.constString(p, XI+"constants", "FUNC_INFO")
	if trapLit == "" || infoLit == "" {
		panic("constants LINK_TRAP_FUNC, FUNC_INFO not found")
	}

	// what is recorded
	var infos []*shp
	for _, r := range returnsOf(f) {
		if len(r.Results) > 0 {
			infos = append(infos, structsOf(sh.eval(r.Results[0], fr), editPkg, "FuncInfo")...)
		}
	}
	if len(infos) == 0 {
		c.Viol("fields", c.Pos(p, f.Pos()), shortFn(f), "no record of a trapped function found in what is returned")
		return
	}
	info := infos[0]
	for _, o := range infos[1:] {
		if o.String() != info.String() {
			c.Viol("fields", c.Pos(p, f.Pos()), shortFn(f), "functions are recorded in different ways")
			return
		}
	}
	decl := info.flds["FuncDecl"]
	if decl == nil || decl.k != sHole || decl.s != f.Params[2].Name()+".Decls[*]" {
		c.Viol("fields", c.Pos(p, f.Pos()), "FuncInfo.FuncDecl", "the declaration recorded is not the element of the file's declarations being trapped: %s", shapeErr(decl))
		return
	}
	D := decl.s

	// where things are written
	ops := sh.editOps(fr, nil)
	var trap *editOp
	var others []editOp
	for i := range ops {
		o := ops[i]
		if o.kind != "Delete" {
			t := sh.eval(o.args[len(o.args)-1], o.fr)
			if b := containsBad(t); b != "" {
				c.Viol("trap", where(o.call), "editor call", "the text written cannot be decided: %s", shapeErr(b))
				continue
			}
			c.Obl("oneline", where(o.call))
			if strings.Contains(litParts(t), "\n") {
				c.Viol("oneline", where(o.call), "editor call", "the text written holds a line break: the lines after it get other numbers")
			}
			if strings.Contains(litParts(t), trapLit) {
				if trap != nil {
					c.Viol("trap", where(o.call), "trap insertion", "a second trap is inserted")
				}
				trap = &ops[i]
				continue
			}
		}
		others = append(others, o)
	}
	if trap == nil {
		c.Viol("trap", c.Pos(p, f.Pos()), shortFn(f), "no trap is inserted")
		return
	}
	c.Obl("place", where(trap.call))
	pos := sh.eval(trap.args[0], trap.fr)
	if s := pos.String(); s != "("+D+".Body.Lbrace+1)" && s != "(1+"+D+".Body.Lbrace)" {
		c.Viol("place", where(trap.call), "trap insertion", "inserted at %s, not right after the opening brace of the function's body", s)
	}
	if e := sh.eval(trap.call.Call.Args[0], trap.fr); e.s != f.Params[0].Name() {
		c.Viol("place", where(trap.call), "trap insertion", "written with another editor: %s", shapeErr(e))
	}
	text := sh.eval(trap.args[1], trap.fr)

	c.i04trap(p, where(trap.call), text, info, D, trapLit, infoLit, f)
	c.i04lists(p, sh, f, info, D, others, where)
	c.i04chosen(p, sh, fr, trap, D, f)
	c.i04site()
	c.Floor("site", 1)
	c.Floor("trap", 20)
	c.Floor("fields", 3)
	c.Floor("named", 3)
	c.Floor("unique", 2)
	c.Floor("info", 1)
	c.Floor("chosen", 1)
}

func (c *Ctx) i04trap(p *Prog, where string, text, info *shp, D, trapLit, infoLit string, f *ssa.Function) {
	idxName := f.Params[3].Name()
	c.Obl("info", where)
	infoShape := info.flds["InfoVar"]
	// <prefix>_<file>_<count>
	okInfo := false
	if infoShape.k == sCat && len(infoShape.sub) == 4 {
		s := infoShape.sub
		okInfo = s[0].k == sLit && strings.HasPrefix(s[0].s, infoLit) && s[1].k == sHole && s[1].s == idxName && s[2].k == sLit && s[2].s != "" && !isDigits(s[2].s) &&
			s[3].k == sHole && strings.HasPrefix(s[3].s, "counter:len:[]*"+editPkg+".FuncInfo:")
	}
	if !okInfo {
		c.Viol("info", where, "FuncInfo.InfoVar", "the name of the info variable is not made of a prefix, the file's index and the number of infos recorded before, apart: %s", shapeErr(infoShape))
	}
	xs := []*shp{text, info.flds["Receiver"], info.flds["Params"], info.flds["Results"], infoShape}
	for i, n := range []string{"", "Receiver", "Params", "Results"} {
		if n == "" {
			continue
		}
		if b := containsBad(xs[i]); b != "" {
			c.Viol("fields", where, "FuncInfo."+n, "what is recorded cannot be decided: %s", shapeErr(b))
			return
		}
	}
	reported := map[string]bool{}
	viol := func(format string, a ...interface{}) {
		if !reported[format] {
			reported[format] = true
			m := fmt.Sprintf(format, a...)
			c.Viol("trap", where, "trap text", "%s", m)
		}
	}
	err := eachCase(18, xs, nil, func(as map[string]bool) {
		in := newInst(as)
		t := in.text(text, nil)
		var want [2][]string
		recv := ""
		names := func(x *shp) []string {
			var l []string
			for _, it := range in.list(x, nil) {
				n := it.x
				if n.k == sStruct {
					l = append(l, in.text(n.flds["Name"], it.su))
				} else {
					l = append(l, in.text(&shp{k: sHole, s: n.s + ".Name"}, it.su))
				}
			}
			return l
		}
		want[0], want[1] = names(info.flds["Params"]), names(info.flds["Results"])
		r := info.flds["Receiver"]
		for r.k == sAlt {
			if r = in.pick(r); r == nil {
				return
			}
		}
		if r.k == sStruct {
			recv = in.text(r.flds["Name"], nil)
		}
		infoVar := in.text(infoShape, nil)
		if in.err != "" {
			if !strings.HasPrefix(in.err, "!") {
				viol("%s", in.err)
			}
			return
		}
		if recv == "" && r.k == sStruct {
			return
		}
		c.Obl("trap", t)
		if msg := checkTrapText(t, trapLit+in.place(idxName, types.Typ[types.Int]), infoVar, recv, want[0], want[1]); msg != "" {
			viol(strings.ReplaceAll(msg, "%", "%%")+", in: %s", t)
		}
	})
	if err != nil {
		c.Viol("trap", where, "trap text", "%v", err)
	}
}

// checkTrapText parses what is inserted and compares its structure.
func checkTrapText(t, trapFn, infoVar, recv string, params, results []string) string {
	file, err := parser.ParseFile(token.NewFileSet(), "t.go", "package p\nfunc f() {"+t+"\n}", 0)
	if err != nil {
		return "the text inserted does not parse: " + err.Error()
	}
	fd := file.Decls[0].(*ast.FuncDecl)
	if len(file.Decls) != 1 {
		return "the text ends the function"
	}
	var st []ast.Stmt
	for _, s := range fd.Body.List {
		if _, ok := s.(*ast.EmptyStmt); !ok {
			st = append(st, s)
		}
	}
	if len(st) != 3 {
		return fmt.Sprintf("%d statements inserted, want three: trap, defer, return", len(st))
	}
	as, ok := st[0].(*ast.AssignStmt)
	if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 2 || len(as.Rhs) != 1 {
		return "the trap's two results are not kept"
	}
	post, ok1 := as.Lhs[0].(*ast.Ident)
	stop, ok2 := as.Lhs[1].(*ast.Ident)
	if !ok1 || !ok2 || post.Name == stop.Name || post.Name == "_" || stop.Name == "_" {
		return "the trap's two results are not kept apart"
	}
	for _, n := range append(append([]string{recv}, params...), results...) {
		if n == post.Name || n == stop.Name {
			return "the trap's results hide a parameter"
		}
	}
	call, ok := as.Rhs[0].(*ast.CallExpr)
	if !ok || !isIdent(call.Fun, trapFn) || len(call.Args) != 4 || call.Ellipsis.IsValid() {
		return "not a call of the file's trap function with four arguments"
	}
	if !isIdent(call.Args[0], infoVar) {
		return "the trap is not given the info recorded for the function"
	}
	if recv == "" {
		if !isIdent(call.Args[1], "nil") {
			return "a function without receiver passes one"
		}
	} else if !isAddrOf(call.Args[1], recv) {
		return "the trap is not given the receiver's address"
	}
	for i, want := range [][]string{params, results} {
		what := []string{"parameter", "result"}[i]
		cl, ok := call.Args[2+i].(*ast.CompositeLit)
		if !ok {
			if len(want) == 0 && isIdent(call.Args[2+i], "nil") {
				continue
			}
			return "the " + what + "s are not given as a list"
		}
		if len(cl.Elts) != len(want) {
			return fmt.Sprintf("%d %ss given, the function has %d", len(cl.Elts), what, len(want))
		}
		for j, e := range cl.Elts {
			if !isAddrOf(e, want[j]) {
				return fmt.Sprintf("the address given for %s %d is not of that %s", what, j, what)
			}
		}
	}
	// if post != nil { defer post() }
	iff, ok := st[1].(*ast.IfStmt)
	if !ok || iff.Init != nil || iff.Else != nil || len(nonEmpty(iff.Body.List)) != 1 {
		return "the post function is not deferred when there is one"
	}
	b, ok := unparen(iff.Cond).(*ast.BinaryExpr)
	if !ok || b.Op != token.NEQ || !(isIdent(b.X, post.Name) && isIdent(b.Y, "nil") || isIdent(b.Y, post.Name) && isIdent(b.X, "nil")) {
		return "the post function is not deferred exactly when there is one"
	}
	d, ok := nonEmpty(iff.Body.List)[0].(*ast.DeferStmt)
	if !ok || len(d.Call.Args) != 0 || !isIdent(d.Call.Fun, post.Name) {
		return "the post function is not deferred"
	}
	iff, ok = st[2].(*ast.IfStmt)
	if !ok || iff.Init != nil || iff.Else != nil || len(nonEmpty(iff.Body.List)) != 1 || !isIdent(unparen(iff.Cond), stop.Name) {
		return "the function does not return exactly when told to stop"
	}
	r, ok := nonEmpty(iff.Body.List)[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 0 {
		return "the function does not return its results as they are when told to stop"
	}
	return ""
}

func nonEmpty(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); !ok {
			out = append(out, s)
		}
	}
	return out
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isIdent(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	return ok && id.Name == name
}

func isAddrOf(e ast.Expr, name string) bool {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return ok && u.Op == token.AND && isIdent(u.X, name)
}

// i04lists: every declared field is recorded, in order, under its name, and
// the names given to fields without one are the ones written.
func (c *Ctx) i04lists(p *Prog, sh *shaper, f *ssa.Function, info *shp, D string, ops []editOp, where func(ssa.Instruction) string) {
	type lst struct {
		fld, list string
		ops       []editOp
		prefix    string
	}
	lists := []*lst{{fld: "Receiver", list: D + ".Recv"}, {fld: "Params", list: D + ".Type.Params"}, {fld: "Results", list: D + ".Type.Results"}}
	guards := map[*ssa.Call]map[*sframe][][]gatom{}
	guard := func(o editOp) [][]gatom {
		if g, ok := guards[o.call][o.fr]; ok {
			return g
		}
		if guards[o.call] == nil {
			guards[o.call] = map[*sframe][][]gatom{}
		}
		g := sh.guards(o.fr.fn.Blocks[0], o.call.Block(), nil, o.fr)
		for h := loopOf(o.call.Block()); h != nil; h = outerLoop(h) {
			// something to go through
			if _, l, _ := sh.loopList(h); l != nil {
				g = andDNF(g, emptyCond(sh.eval(l, o.fr), false))
			}
		}
		guards[o.call][o.fr] = g
		return g
	}
	// which list an operation is for: the one its guard and positions speak of
	for _, o := range ops {
		if len(guard(o)) == 0 {
			continue // never done
		}
		s := dnfString(guard(o))
		for _, a := range o.args {
			s += " " + sh.eval(a, o.fr).String()
		}
		best := -1
		for i, l := range lists {
			if strings.Contains(s, l.list+".List") {
				if best >= 0 {
					best = -2
					break
				}
				best = i
			}
		}
		if best < 0 {
			c.Viol("named", where(o.call), o.kind, "a change that is not for one of receiver, parameters and results: %s", shapeErr(s))
			continue
		}
		lists[best].ops = append(lists[best].ops, o)
	}
	for _, l := range lists {
		x := info.flds[l.fld]
		names := l.list + ".List[*].Names"
		ident := names + "[*]"
		bad := map[string]bool{}
		viol := func(rule, at, format string, a ...interface{}) {
			if !bad[rule+format] {
				bad[rule+format] = true
				c.Viol(rule, at, "FuncInfo."+l.fld, "%s", fmt.Sprintf(format, a...))
			}
		}
		at := c.Pos(p, f.Pos())
		opening := "eq:" + l.list + ".Opening==0"
		extra := []string{"nil:" + l.list, "empty:" + l.list + ".List", "empty:" + names, "empty:" + ident + ".Name", "eq:" + ident + ".Name==\"_\""}
		if l.fld == "Results" {
			extra = append(extra, opening)
		}
		have := map[string]bool{}
		for _, e := range extra {
			have[e] = true
		}
		for _, o := range l.ops {
			for _, d := range guard(o) {
				for _, g := range d {
					if !have[g.key] {
						have[g.key] = true
						extra = append(extra, g.key)
					}
				}
			}
		}
		decided := 0
		err := eachCase(14, []*shp{x}, extra, func(as map[string]bool) {
			// elements are alike
			for k, v := range as {
				if w, ok := as[strings.ReplaceAll(k, "[0]", "[*]")]; ok && w != v {
					return
				}
			}
			if as["nil:"+D+".Body"] {
				return // not trapped
			}
			in := newInst(as)
			if l.fld == "Receiver" {
				in.n = 1
			}
			var got []item
			if l.fld == "Receiver" {
				r := x
				for r.k == sAlt {
					if r = in.pick(r); r == nil {
						return
					}
				}
				if r.k != sNil {
					got = []item{{r, nil}}
				}
			} else {
				got = in.list(x, nil)
			}
			if in.err != "" {
				if !strings.HasPrefix(in.err, "!") {
					viol("fields", at, "%s", in.err)
				}
				return
			}
			decided++
			c.Obl("fields", l.fld)
			none := as["nil:"+l.list] || as["empty:"+l.list+".List"]
			type want struct{ typ, name string }
			var ws []want
			if !none {
				for j := 0; j < in.n; j++ {
					g := fmt.Sprintf("%s.List[%d]", l.list, j)
					if as["empty:"+names] {
						ws = append(ws, want{g + ".Type", ""})
						continue
					}
					for i := 0; i < in.n; i++ {
						ws = append(ws, want{g + ".Type", fmt.Sprintf("%s.Names[%d]", g, i)})
					}
				}
			}
			if len(got) != len(ws) {
				viol("fields", at, "%d recorded for %d declared", len(got), len(ws))
				fmt.Println(as)
				return
			}
			blank := as["empty:"+ident+".Name"] || as["eq:"+ident+".Name==\"_\""]
			unnamed := as["empty:"+names]
			gen := ""
			for i, it := range got {
				if it.x.k != sStruct {
					viol("fields", at, "recorded: %s", shapeErr(it.x))
					return
				}
				if t := it.x.flds["Type"]; t == nil || t.k != sHole || concrete(t.s, it.su) != ws[i].typ {
					viol("fields", at, "a field is recorded with another type than it is declared with")
				}
				if t := it.x.flds["NameIdent"]; t != nil {
					if n := in.text(t, it.su); n != "nil" && in.paths[n] != ws[i].name {
						viol("fields", at, "a field is recorded with another's name")
					}
				}
				n := in.text(it.x.flds["Name"], it.su)
				if in.err != "" {
					if !strings.HasPrefix(in.err, "!") {
						viol("fields", at, "%s", in.err)
					}
					return
				}
				isOwn := in.paths[n] == ws[i].name+".Name"
				if unnamed || blank {
					if isOwn || n == "" || n == "_" || in.paths[n] != "" {
						viol("fields", at, "a field without a name, or a blank one, is recorded under %s", in.paths[n])
						return
					}
					gen = n
				} else if !isOwn {
					viol("fields", at, "a field is not recorded under its declared name")
					return
				}
			}
			// what is written
			su := []sub{{l.list + ".List[*]", l.list + ".List[0]"}, {l.list + ".List[0].Names[*]", l.list + ".List[0].Names[0]"}}
			var wantReplace, wantInsert, wantParen = !none && !unnamed && blank, !none && unnamed, !none && unnamed && l.fld == "Results" && as[opening]
			if as[opening] && !none && !unnamed {
				return // named results stand in parentheses
			}
			nReplace, nInsert, nOpen, nClose := 0, 0, 0, 0
			for _, o := range l.ops {
				if !in.holds(guard(o)) {
					continue
				}
				var a []string
				for _, v := range o.args {
					s := sh.eval(v, o.fr)
					for s.k == sAlt {
						if s = in.pick(s); s == nil {
							return
						}
					}
					a = append(a, concrete(s.String(), su))
				}
				id, typ := l.list+".List[0].Names[0]", l.list+".List[0].Type"
				txt := ""
				if o.kind != "Delete" {
					txt = in.text(sh.eval(o.args[len(o.args)-1], o.fr), su)
				}
				c.Obl("named", where(o.call)+" "+l.fld)
				switch {
				case o.kind == "Replace" && isPosOf(a[0], id) && isEndOf(a[1], id):
					nReplace++
					if !unnamed && strings.TrimSpace(txt) != gen {
						viol("named", where(o.call), "the name written is not the one recorded")
					}
				case o.kind == "Insert" && isPosOf(a[0], typ):
					nInsert++
					if !strings.HasSuffix(txt, " ") || strings.TrimSpace(txt) != gen {
						viol("named", where(o.call), "the name written before the type is not the one recorded")
					}
				case o.kind == "Insert" && strings.TrimSpace(txt) == "(" && (a[0] == "("+D+".Type.Params.Closing+1)" || isEndOf(a[0], D+".Type.Params")):
					nOpen++
				case o.kind == "Insert" && strings.TrimSpace(txt) == ")" && (a[0] == D+".Body.Lbrace" || isEndOf(a[0], typ)):
					nClose++
				default:
					viol("named", where(o.call), "%s at %s: neither a name for a field without one nor the parentheses around it", o.kind, shapeErr(strings.Join(a[:1], ",")))
				}
				if in.err != "" {
					if !strings.HasPrefix(in.err, "!") {
						viol("named", where(o.call), "%s", in.err)
					}
					return
				}
			}
			b := func(x bool) int {
				if x {
					return 1
				}
				return 0
			}
			if nReplace != b(wantReplace) {
				viol("named", at, "a name is replaced %d times where the field is named: %v, blank: %v", nReplace, !unnamed, blank)
			}
			if nInsert != b(wantInsert) {
				viol("named", at, "a name is inserted %d times where the field is named: %v", nInsert, !unnamed)
			}
			if nOpen != b(wantParen) || nClose != b(wantParen) {
				viol("named", at, "%d opening and %d closing parentheses are written around results where there is %v", nOpen, nClose, map[bool]string{true: "a single result without parentheses", false: "none to parenthesise"}[wantParen])
			}
		})
		if err != nil {
			viol("fields", at, "%v", err)
		}
		if decided == 0 {
			viol("fields", at, "what is recorded cannot be decided: %s", shapeErr(x))
		}
		// generated names
		c.Obl("unique", l.fld)
		var gens []editOp
		for _, o := range l.ops {
			if o.kind == "Delete" {
				continue
			}
			t := sh.eval(o.args[len(o.args)-1], o.fr)
			s := strings.TrimSpace(litParts(t))
			if s == "(" || s == ")" || strings.Trim(s, "\x00 ()") == "" {
				continue
			}
			pre := t
			if t.k == sCat {
				pre = t.sub[0]
			}
			if pre.k != sLit || !strings.HasPrefix(pre.s, "__xgo_") {
				viol("unique", where(o.call), "a generated name does not begin with the reserved prefix: %s", shapeErr(t))
				continue
			}
			if l.prefix != "" && l.prefix != pre.s {
				viol("unique", where(o.call), "names of two kinds are generated: %s and %s", l.prefix, pre.s)
			}
			l.prefix = pre.s
			gens = append(gens, o)
		}
		if l.fld != "Receiver" {
			c.i04unique(p, sh, gens, func(o editOp, format string, a ...interface{}) { viol("unique", where(o.call), format, a...) })
		}
	}
	for i, l := range lists {
		for _, m := range lists[:i] {
			if l.prefix == "" || m.prefix == "" {
				continue
			}
			a, b := l.prefix, m.prefix
			if len(a) > len(b) {
				a, b = b, a
			}
			if strings.HasPrefix(b, a) && (len(a) == len(b) || isDigits(b[len(a):])) {
				c.Viol("unique", c.Pos(p, f.Pos()), "FuncInfo."+l.fld, "names generated for %s can be those generated for %s: %s, %s", l.fld, m.fld, l.prefix, m.prefix)
			}
		}
	}
}

func isPosOf(s, x string) bool {
	return strings.HasSuffix(s, ").Pos("+x+")") || s == x+".NamePos"
}

func isEndOf(s, x string) bool { return strings.HasSuffix(s, ").End("+x+")") }

// i04unique: between any two names generated the number in them grows.
func (c *Ctx) i04unique(p *Prog, sh *shaper, gens []editOp, viol func(editOp, string, ...interface{})) {
	type use struct {
		o  editOp
		ph *ssa.Phi
	}
	var uses []use
	for _, o := range gens {
		t := sh.eval(o.args[len(o.args)-1], o.fr)
		var ph *ssa.Phi
		n := 0
		for _, y := range append([]*shp{t}, t.sub...) {
			if y.k != sHole {
				continue
			}
			n++
			s := strings.TrimPrefix(y.s, "counter:")
			if s == y.s {
				continue
			}
			s = s[strings.LastIndex(s, ":")+1:]
			eachInstr(o.fr.fn, func(ins ssa.Instruction) {
				if q, ok := ins.(*ssa.Phi); ok && s == q.Name()+"@"+q.Parent().Name() {
					ph = q
				}
			})
		}
		if ph == nil || n != 1 {
			viol(o, "a generated name does not hold a number counting the names: %s", shapeErr(t))
			continue
		}
		uses = append(uses, use{o, ph})
	}
	// only growth
	seen := map[ssa.Value]bool{}
	var grow func(o editOp, v ssa.Value)
	grow = func(o editOp, v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				grow(o, e)
			}
		case *ssa.Const:
		case *ssa.BinOp:
			if k, ok := constInt(x.Y); ok && x.Op == token.ADD && k > 0 {
				grow(o, x.X)
				return
			}
			viol(o, "the number in generated names does not only grow")
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				grow(o, x.Call.Args[0])
				return
			}
			viol(o, "the number in generated names does not only grow")
		case *ssa.MakeSlice:
		default:
			viol(o, "the number in generated names does not only grow")
		}
	}
	for _, u := range uses {
		grow(u.o, u.ph)
		for _, w := range uses {
			if repeated(u.ph, u.o.call, w.ph, w.o.call) {
				viol(w.o, "two names generated can hold the same number")
			}
		}
	}
}

// repeated: after a used v's value, b can use w holding that same value.
func repeated(v *ssa.Phi, a ssa.Instruction, w *ssa.Phi, b ssa.Instruction) bool {
	type state struct {
		b   *ssa.BasicBlock
		set string
	}
	seen := map[state]bool{}
	key := func(m map[*ssa.Phi]bool) string {
		var l []string
		for q := range m {
			l = append(l, q.Name())
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	}
	var walk func(x *ssa.BasicBlock, m map[*ssa.Phi]bool) bool
	walk = func(x *ssa.BasicBlock, m map[*ssa.Phi]bool) bool {
		if len(m) == 0 {
			return false
		}
		for _, s := range liveSuccs(x) {
			n := map[*ssa.Phi]bool{}
			for q := range m {
				n[q] = true
			}
			for k, pr := range s.Preds {
				if pr != x {
					continue
				}
				for _, ins := range s.Instrs {
					q, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					e, _ := q.Edges[k].(*ssa.Phi)
					if e != nil && m[e] {
						n[q] = true
					} else {
						delete(n, q)
					}
				}
			}
			if s == b.Block() && n[w] {
				return true
			}
			st := state{s, key(n)}
			if seen[st] {
				continue
			}
			seen[st] = true
			if walk(s, n) {
				return true
			}
		}
		return false
	}
	if a.Block() == b.Block() && v == w && instrIndex(a) < instrIndex(b) {
		return true
	}
	return walk(a.Block(), map[*ssa.Phi]bool{v: true})
}

// decide follows the branches from a block for every combination of what
// they test, up to a block done is true for; it gives up past max paths.
func (sh *shaper) decide(from *ssa.BasicBlock, fr *sframe, max int, done func(b *ssa.BasicBlock) (bool, bool), f func(as map[string]bool, order []string, hit bool)) error {
	n := 0
	var err error
	var walk func(b *ssa.BasicBlock, as map[string]bool, order []string, d int)
	walk = func(b *ssa.BasicBlock, as map[string]bool, order []string, d int) {
		if err != nil {
			return
		}
		if d > 400 {
			err = fmt.Errorf("path too long")
			return
		}
		sh.onPath = append(sh.onPath, b)
		defer func() { sh.onPath = sh.onPath[:len(sh.onPath)-1] }()
		if end, hit := done(b); end {
			if n++; n > max {
				err = fmt.Errorf("more than %d paths", max)
				return
			}
			f(as, order, hit)
			return
		}
		iff, ok := lastIf(b)
		if !ok {
			ss := liveSuccs(b)
			if len(ss) == 0 {
				return // leaves by panicking or returning
			}
			walk(ss[0], as, order, d+1)
			return
		}
		if sh.loopTest(b) {
			h := loopOf(b)
			br := sh.breaks(h)
			var leave func(k int, as map[string]bool, order []string)
			leave = func(k int, as map[string]bool, order []string) {
				if k == len(br) {
					for _, s := range liveSuccs(b) {
						if !inLoop(s, h) {
							walk(s, as, order, d+1)
						}
					}
					return
				}
				sh.split(sh.guards(h, br[k][0], br[k][1], fr), as, order, func(v bool, as map[string]bool, order []string) {
					if v {
						walk(br[k][1], as, order, d+1)
						return
					}
					leave(k+1, as, order)
				})
			}
			leave(0, as, order)
			return
		}
		dnf := sh.cond(iff.Cond, true, fr)
		if v, neg := iff.Cond, false; true {
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, neg = u.X, !neg
			}
			if r := sh.onPathValue(v); r != v {
				dnf = sh.cond(r, !neg, fr)
			}
		}
		sh.split(dnf, as, order, func(v bool, as map[string]bool, order []string) {
			i := 1
			if v {
				i = 0
			}
			walk(b.Succs[i], as, order, d+1)
		})
	}
	walk(from, map[string]bool{}, nil, 0)
	return err
}

// onPathValue is the value a merge has on the path being followed.
func (sh *shaper) onPathValue(v ssa.Value) ssa.Value {
	for k := len(sh.onPath) - 1; k > 0; {
		ph, ok := v.(*ssa.Phi)
		if !ok || isLoopHeader(ph.Block()) {
			return v
		}
		for k > 0 && sh.onPath[k] != ph.Block() {
			k--
		}
		if k == 0 {
			return v
		}
		e := ssa.Value(nil)
		for i, q := range ph.Block().Preds {
			if q == sh.onPath[k-1] {
				e = ph.Edges[i]
			}
		}
		if e == nil {
			return v
		}
		k--
		v = e
	}
	return v
}

// split decides a condition, for every choice of what it depends on.
func (sh *shaper) split(dnf [][]gatom, as map[string]bool, order []string, f func(v bool, as map[string]bool, order []string)) {
	val, un := evalDNF(dnf, as)
	if un == "" {
		if !contradictory(as) {
			f(val, as, order)
		}
		return
	}
	for _, v := range []bool{false, true} {
		m := make(map[string]bool, len(as)+1)
		for k, w := range as {
			m[k] = w
		}
		m[un] = v
		sh.split(dnf, m, append(order[:len(order):len(order)], un), f)
	}
}

// evalDNF gives the value under a partial choice, or a condition to choose.
func evalDNF(d [][]gatom, as map[string]bool) (bool, string) {
	open := ""
	for _, c := range d {
		ok := true
		un := ""
		for _, g := range c {
			v, has := as[g.key]
			if !has {
				if un == "" {
					un = g.key
				}
				continue
			}
			if v != g.pol {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if un == "" {
			return true, ""
		}
		if open == "" {
			open = un
		}
	}
	return false, open
}

func (c *Ctx) i04chosen(p *Prog, sh *shaper, fr *sframe, trap *editOp, D string, f *ssa.Function) {
	at := c.Pos(p, trap.call.Pos())
	h := loopOf(trap.call.Block())
	if h == nil || trap.fr.fn != f {
		c.Viol("chosen", at, "trap insertion", "not within the loop over the declarations")
		return
	}
	t := h
	if !sh.loopTest(h) {
		t = loopTestBlock(p, h)
	}
	var body *ssa.BasicBlock
	if t != nil {
		for _, s := range t.Succs {
			if inLoop(s, h) {
				body = s
			}
		}
	}
	if body == nil {
		c.Viol("chosen", at, "trap insertion", "the loop over the declarations was not recognised")
		return
	}
	modes := map[string]int64{}
	for _, n := range []string{"InstrumentMode_Exported", "InstrumentMode_All", "InstrumentMode_None"} {
		ok := false
		if m, isC := p.pkg(XI + "config").Members[n].(*ssa.NamedConst); isC {
			if v, isInt := constInt(m.Value); isInt {
				modes[n], ok = v, true
			}
		}
		if !ok {
			panic("config." + n + " not found")
		}
	}
	opts, pkgPath := f.Params[4].Name(), f.Params[1].Name()
	names := map[string]string{}
	if ic := p.pkg(XI + "constants"); ic != nil {
		names["now"], names["sleep"] = c.constString(p, XI+"constants", "XGO_REAL_NOW"), c.constString(p, XI+"constants", "XGO_REAL_SLEEP")
	}
	// where the compiler is left to insert the trap
	extra := map[*ssa.BasicBlock]bool{}
	eachInstr(f, func(ins ssa.Instruction) {
		if cl, ok := ins.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && strings.HasSuffix(cl.Type().String(), "compiler_extra.Func") {
				extra[cl.Block()] = true
				l := sh.eval(cl.Call.Args[1], fr)
				if l.k != sList || len(l.sub) != 1 || l.sub[0].flds["IdentityName"] == nil || !strings.Contains(l.sub[0].flds["IdentityName"].String(), D+".Name.Name") {
					c.Viol("chosen", c.Pos(p, cl.Pos()), "compiler trap", "not of the function's own identity: %s", shapeErr(l))
				}
			}
		}
	})
	// what a condition tested means
	one := func(key string) func(string) bool { return func(k string) bool { return k == key } }
	pre := func(a, b string) func(string) bool {
		return func(k string) bool { return strings.HasPrefix(k, a) && strings.HasSuffix(k, b) }
	}
	ident := D + ".Name.Name"
	recType := func(k string) bool {
		return strings.HasPrefix(k, "nil:") && strings.HasSuffix(k, "#3") && strings.Contains(k, "ParseReceiverInfo(")
	}
	vars := map[string]func(string) bool{
		"func":      one("is:is(" + D + ",*go/ast.FuncDecl)"),
		"nobody":    one("nil:" + D + ".Body"),
		"noname":    one("nil:" + D + ".Name"),
		"emptyname": one("empty:" + ident),
		"blank":     one("eq:" + ident + "==\"_\""),
		"norecv":    one("nil:" + D + ".Recv"),
		"init":      one("eq:" + ident + "==\"init\""),
		"time":      one("eq:" + pkgPath + "==\"time\""),
		"now":       one("eq:" + ident + "==\"" + names["now"] + "\""),
		"sleep":     one("eq:" + ident + "==\"" + names["sleep"] + "\""),
		"nodoc":     one("nil:" + D + ".Doc"),
		"nosplit":   pre("is:strings.HasPrefix("+D+".Doc.List[*].Text,\"//go:nosplit", "\")"),
		"all":       one(fmt.Sprintf("eq:%s.InstrumentMode==%d", opts, modes["InstrumentMode_All"])),
		"none":      one(fmt.Sprintf("eq:%s.InstrumentMode==%d", opts, modes["InstrumentMode_None"])),
		"exported":  one(fmt.Sprintf("eq:%s.InstrumentMode==%d", opts, modes["InstrumentMode_Exported"])),
		"isexported": func(k string) bool {
			return k == "is:go/token.IsExported("+ident+")" || k == "is:(*go/ast.Ident).IsExported("+D+".Name)" || k == "is:go/ast.IsExported("+ident+")"
		},
		"norec":       one("nil:" + opts + ".PkgRecorder"),
		"fnnorec":     one("nil:" + opts + ".PkgRecorder.Names[" + ident + "]"),
		"fnmock":      one("is:" + opts + ".PkgRecorder.Names[" + ident + "].HasMockRef"),
		"norecvtype":  recType,
		"typenorec":   pre("nil:"+opts+".PkgRecorder.Names[", "#3.Name]"),
		"methodmock":  pre("is:"+opts+".PkgRecorder.Names[", "#3.Name].NamesHavingMock["+ident+"]"),
		"nocfg":       one("nil:" + opts + ".PkgConfig"),
		"whitelisted": pre("is:"+opts+".PkgConfig.WhitelistFunc[", "]"),
		"noprefix":    one("empty:" + opts + ".PkgConfig.WhitelistFuncPrefix[*]"),
		"prefixed":    pre("is:strings.HasPrefix(", ","+opts+".PkgConfig.WhitelistFuncPrefix[*])"),
		"main":        one("is:" + opts + ".Main"),
		"inplace":     one("is:" + opts + ".ForceInPlace"),
		"few": func(k string) bool {
			return strings.HasPrefix(k, "lt:counter:len:") && strings.Contains(k, "compiler_extra.Func:")
		},
		"noquota": one("nil:" + opts + ".PkgExtraQuota"),
		"quota":   one("lt:0<" + opts + ".PkgExtraQuota"),
	}
	var vnames []string
	for n := range vars {
		vnames = append(vnames, n)
	}
	sort.Strings(vnames)
	// the rule
	rule := func(get func(string) bool) string {
		if !get("func") || get("nobody") || get("noname") || get("emptyname") || get("blank") {
			return "none"
		}
		if get("init") && get("norecv") {
			return "none"
		}
		if get("time") && (get("now") || get("sleep")) {
			return "none"
		}
		if !get("nodoc") && get("nosplit") {
			return "none"
		}
		hit := false
		if !get("all") {
			if !get("norec") {
				hit = !get("fnnorec") && get("fnmock") || !get("norecv") && !get("norecvtype") && !get("typenorec") && get("methodmock")
			}
			if !hit {
				if !get("nocfg") {
					if !get("whitelisted") && !(!get("noprefix") && get("prefixed")) {
						return "none"
					}
				} else if !get("exported") || !get("isexported") {
					return "none"
				}
			}
		}
		if get("main") || get("inplace") {
			return "trap"
		}
		if get("all") || hit {
			return "extra"
		}
		if !get("few") {
			return "none"
		}
		if get("noquota") || get("quota") {
			return "extra"
		}
		return "none"
	}
	seen := map[string]bool{}
	outcome := ""
	found := map[string]bool{}
	err := sh.decide(body, fr, 60000, func(b *ssa.BasicBlock) (bool, bool) {
		switch {
		case b == trap.call.Block():
			outcome = "trap"
			return true, true
		case extra[b]:
			outcome = "extra"
			return true, true
		case b == h || b == t || !inLoop(b, h):
			outcome = "none"
			return true, false
		}
		return false, false
	}, func(as map[string]bool, order []string, _ bool) {
		c.Obl("chosen", strings.Join(order, ";"))
		val := map[string]bool{}
		for _, n := range vnames {
			for k, v := range as {
				if vars[n](k) {
					val[n] = v
					found[n] = true
				}
			}
		}
		// a declaration that is there
		if val["func"] {
			for k, v := range as {
				if v && k == "nil:"+D+".Recv.List[0]" || v && strings.HasPrefix(k, "lt:1<len("+D+".Recv") || v && k == "empty:"+D+".Recv.List" {
					return
				}
			}
		}
		excl := [][]string{{"init", "blank", "emptyname", "now", "sleep"}, {"all", "none", "exported"}}
		out := outcome
		var split func(val map[string]bool)
		split = func(val map[string]bool) {
			open := ""
			r := rule(func(n string) bool {
				v, ok := val[n]
				if !ok && open == "" {
					open = n
				}
				return v
			})
			if open == "" {
				for _, g := range excl {
					n := 0
					for _, x := range g {
						if val[x] {
							n++
						}
					}
					if n > 1 {
						return
					}
				}
				if r != out {
					// name the condition that should have told them apart
					last := ""
					if len(order) > 0 {
						last = order[len(order)-1]
					}
					what := map[string]string{"trap": "trapped", "extra": "left to the compiler", "none": "left untrapped"}
					var set []string
					for _, n := range vnames {
						if v, ok := val[n]; ok && v {
							set = append(set, n)
						}
					}
					m := "a function that must be " + what[r] + " is " + what[out]
					if !seen[m] {
						seen[m] = true
						c.Viol("chosen", at, "chosen:"+r+":"+out, "%s: with %s (last test: %s)", m, strings.Join(set, ", "), shapeErr(last))
					}
				}
				return
			}
			for _, v := range []bool{false, true} {
				m := map[string]bool{}
				for k, w := range val {
					m[k] = w
				}
				m[open] = v
				split(m)
			}
		}
		split(val)
	})
	if err != nil {
		c.Viol("chosen", at, "trap insertion", "%v", err)
	}
	for _, n := range vnames {
		if !found[n] {
			c.Viol("chosen", at, "chosen:"+n, "never tested: %s", n)
		}
	}
	// recorded exactly when inserted
	c.Obl("chosen", "recorded")
	n := 0
	eachInstr(f, func(ins ssa.Instruction) {
		cl, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		b, ok := cl.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || !strings.HasSuffix(cl.Type().String(), editPkg+".FuncInfo") {
			return
		}
		n++
		is := func(x ssa.Instruction) func(ssa.Instruction) bool {
			return func(y ssa.Instruction) bool { return x == y }
		}
		next := func(y ssa.Instruction) bool { return isReturn(y) || y.Block() == h }
		before := alwaysAfter(trap.call, is(cl), next) == nil
		domin := trap.call.Block().Dominates(cl.Block())
		if !(before && domin) {
			// recorded first
			if !(alwaysAfter(cl, is(trap.call), next) == nil && cl.Block().Dominates(trap.call.Block())) {
				c.Viol("chosen", c.Pos(p, cl.Pos()), "recording", "a trap can be inserted without its function being recorded, or the other way round")
			}
		}
	})
	if n != 1 {
		c.Viol("chosen", at, "recording", "functions trapped are recorded at %d places", n)
	}
}

// i04site: where files are trapped.
func (c *Ctx) i04site() {
	p := c.Root()
	f := p.Func(XI+"instrument_func", "TrapFuncs")
	if f == nil {
		panic("TrapFuncs not found in the command")
	}
	sites, _ := p.CallSitesOf(f)
	loops := 0
	for _, cs := range sites {
		g := cs.ins.Parent()
		if strings.HasSuffix(p.Fset.Position(cs.ins.Pos()).Filename, "_test.go") {
			continue
		}
		at := c.Pos(p, cs.ins.Pos())
		c.Obl("site", at)
		sh := c.newShaper(p)
		sh.opaque = func(h *ssa.Function) bool {
			return h.Pkg != nil && h.Pkg.Pkg.Path() != XI+"config" && h.Pkg != g.Pkg
		}
		fr := sh.top(g)
		args := cs.ins.Common().Args
		if loopOf(cs.ins.Block()) == nil {
			// one particular file
			paths := [3]string{}
			var base [3]ssa.Value
			for i, k := range []int{0, 2, 3} {
				base[i], paths[i] = fieldPath(args[k])
			}
			if paths != [3]string{".Edit", ".File.Syntax", ".Index"} || base[0] != base[1] || base[1] != base[2] {
				c.Viol("site", at, "TrapFuncs", "editor, syntax and index are not of one file: %v", paths)
			}
			continue
		}
		loops++
		ed := sh.eval(args[0], fr).String()
		if !strings.HasSuffix(ed, ".Edit") {
			c.Viol("site", at, "TrapFuncs", "the editor given is not a file's: %s", shapeErr(ed))
			continue
		}
		file := strings.TrimSuffix(ed, ".Edit")
		i := strings.LastIndex(file, ".Files[")
		if i < 0 {
			c.Viol("site", at, "TrapFuncs", "the file is not one of a package: %s", shapeErr(file))
			continue
		}
		pkg := file[:i]
		if s := sh.eval(args[2], fr).String(); s != file+".File.Syntax" {
			c.Viol("site", at, "TrapFuncs", "the syntax given is not that of the file edited: %s", shapeErr(s))
		}
		if s := sh.eval(args[3], fr).String(); s != file+".Index" {
			c.Viol("site", at, "TrapFuncs", "the index given is not that of the file edited: %s", shapeErr(s))
		}
		path := pkg + ".LoadPackage.GoPackage.ImportPath"
		if s := sh.eval(args[1], fr).String(); s != path {
			c.Viol("site", at, "TrapFuncs", "the package path given is not that of the file's package: %s", shapeErr(s))
		}
		o := sh.eval(args[4], fr)
		if o.k != sStruct {
			c.Viol("site", at, "TrapFuncs", "the options cannot be decided: %s", shapeErr(o))
			continue
		}
		want := map[string]func(string) bool{
			"Main": func(s string) bool { return s == pkg+".Main" },
			"PkgConfig": func(s string) bool {
				return strings.Contains(s, "["+path+"]") || strings.HasSuffix(s, "GetPkgConfig("+path+")")
			},
			"PkgRecorder": func(s string) bool { return strings.Contains(s, path) },
			"InstrumentMode": func(s string) bool {
				return strings.Contains(s, pkg+".Main") && strings.Contains(s, pkg+".Initial") && strings.Contains(s, pkg+".LoadPackage.GoPackage.Standard")
			},
		}
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := o.flds[k]
			if v == nil || !want[k](v.String()) {
				c.Viol("site", at, "TrapFuncs", "option %s is not the one of the file's package: %s", k, shapeErr(v))
			}
		}
		// what is recorded goes to the file
		call, ok := cs.ins.(*ssa.Call)
		kept := false
		if ok {
			eachInstr(g, func(ins ssa.Instruction) {
				st, ok := ins.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "TrapFuncs" {
					return
				}
				if sh.eval(fa.X, fr).String() != file {
					c.Viol("site", c.Pos(p, st.Pos()), "TrapFuncs", "traps are recorded with another file")
					return
				}
				if h2 := loopOf(st.Block()); h2 != nil && h2 != loopOf(call.Block()) && !skipsIteration(st) {
					// one by one
					if _, l, why := sh.loopList(h2); l != nil && why == "" && usesValue(l, call, 1) && call.Block().Dominates(h2) {
						kept = alwaysAfter(call, func(x ssa.Instruction) bool { return x.Block() == h2 }, func(x ssa.Instruction) bool { return isReturn(x) || x == ssa.Instruction(call) }) == nil
					}
					return
				}
				if usesValue(st.Val, call, 6) && call.Block().Dominates(st.Block()) {
					kept = alwaysAfter(call, func(x ssa.Instruction) bool { return x == ssa.Instruction(st) }, func(x ssa.Instruction) bool { return isReturn(x) || x == ssa.Instruction(call) }) == nil
				}
			})
		}
		if !kept {
			c.Viol("site", at, "TrapFuncs", "what is recorded is not added to the file's traps on every path")
		}
		// which files
		h := loopOf(cs.ins.Block())
		if h == nil {
			c.Viol("site", at, "TrapFuncs", "not called for each file")
			continue
		}
		outer := outerLoop(h)
		if outer == nil {
			c.Viol("site", at, "TrapFuncs", "not called for each package")
			continue
		}
		c.i04files(p, sh, fr, g, cs.ins, h, outer, pkg, file, at)
	}
	if loops == 0 {
		c.Viol("site", c.Pos(p, f.Pos()), "TrapFuncs", "not called for the files of the packages")
	}
}

// fieldPath gives the value a chain of fields starts at.
func fieldPath(v ssa.Value) (ssa.Value, string) {
	path := ""
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				path = "." + fieldName(fa.X.Type(), fa.Field) + path
				v = fa.X
				continue
			}
		case *ssa.Field:
			path = "." + fieldName(x.X.Type(), x.Field) + path
			v = x.X
			continue
		}
		return v, path
	}
}

// usesValue: v is made of x.
func usesValue(v ssa.Value, x ssa.Value, d int) bool {
	if v == x {
		return true
	}
	if d == 0 {
		return false
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range ins.Operands(nil) {
		if *o != nil && usesValue(*o, x, d-1) {
			return true
		}
	}
	return false
}

// i04files: the loops around reach the call for exactly the files wanted.
func (c *Ctx) i04files(p *Prog, sh *shaper, fr *sframe, g *ssa.Function, call ssa.CallInstruction, inner, outer *ssa.BasicBlock, pkg, file, at string) {
	bodyOf := func(h *ssa.BasicBlock) (*ssa.BasicBlock, *ssa.BasicBlock) {
		t := h
		if !sh.loopTest(h) {
			t = loopTestBlock(p, h)
		}
		if t == nil {
			return nil, nil
		}
		for _, s := range t.Succs {
			if inLoop(s, h) {
				return s, t
			}
		}
		return nil, nil
	}
	ob, ot := bodyOf(outer)
	ib, it := bodyOf(inner)
	if ob == nil || ib == nil {
		c.Viol("site", at, "TrapFuncs", "the loops around it were not recognised")
		return
	}
	if _, _, why := sh.loopList(outer); why != "" {
		c.Viol("site", at, "TrapFuncs", "not every package is gone through: %s", why)
	}
	if _, _, why := sh.loopList(inner); why != "" {
		c.Viol("site", at, "TrapFuncs", "not every file is gone through: %s", why)
	}
	allow := "is:" + pkg + ".AllowInstrument"
	seen := map[string]bool{}
	viol := func(m string) {
		if !seen[m] {
			seen[m] = true
			c.Viol("site", at, "TrapFuncs", "%s", m)
		}
	}
	err := sh.decide(ob, fr, 20000, func(b *ssa.BasicBlock) (bool, bool) {
		if b == inner {
			return true, true
		}
		return b == outer || b == ot || !inLoop(b, outer), false
	}, func(as map[string]bool, _ []string, hit bool) {
		c.Obl("site", "package")
		v, ok := as[allow]
		if !ok {
			viol("a package's files are gone through without asking whether it may be instrumented")
		} else if v && !hit {
			viol("the files of a package that may be instrumented are left out")
		} else if !v && hit {
			viol("the files of a package that may not be instrumented are trapped")
		}
	})
	if err != nil {
		viol(err.Error())
	}
	main := "is:" + pkg + ".Main"
	err = sh.decide(ib, fr, 20000, func(b *ssa.BasicBlock) (bool, bool) {
		if b == call.Block() {
			return true, true
		}
		return b == inner || b == it || !inLoop(b, inner), false
	}, func(as map[string]bool, _ []string, hit bool) {
		c.Obl("site", "file")
		m, mok := as[main]
		test, tok := false, false
		for k, v := range as {
			if strings.HasPrefix(k, "is:strings.HasSuffix("+file+".") && strings.Contains(k, ",\"_test.go\")") {
				test, tok = v, true
			}
		}
		want := m || !test
		if !mok && !(tok && !test) || !tok && !(mok && m) {
			viol("a file is trapped or not without asking whether it is a test outside main packages")
		} else if want != hit {
			viol(fmt.Sprintf("a file with main=%v, test=%v is trapped: %v", m, test, hit))
		}
	})
	if err != nil {
		viol(err.Error())
	}
}
