package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// functions: TrapFuncs.
func (m *gateModel) functions() {
	c, p := m.c, m.p
	f := p.Func(ifnPath, "TrapFuncs")
	if f == nil {
		c.Viol("function", ifnPath, "TrapFuncs", "TrapFuncs is gone")
		return
	}
	target := map[*ssa.BasicBlock]bool{}
	var h *ssa.BasicBlock
	eachInstr(f, func(ins ssa.Instruction) {
		if appendsPtr(ins, editPkg, "FuncInfo") || appendsPtr(ins, "github.com/xhd2015/xgo/instrument/compiler_extra", "Func") {
			target[ins.Block()] = true
			h = outerLoop(ins.Block())
		}
	})
	if len(target) < 2 || h == nil {
		c.Viol("function", c.Pos(p, f.Pos()), "TrapFuncs", "where functions are trapped was not found")
		return
	}
	// the declarations are all gone through
	iff, ok := lastIf(h)
	if !ok {
		c.Viol("function", c.Pos(p, f.Pos()), "loop", "the declarations are not gone through")
		return
	}
	var body *ssa.BasicBlock
	for _, s := range iff.Block().Succs {
		if inLoop(s, h) && s != h {
			body = s
		}
	}
	if idx, list := wholeIndex(p, h); idx == nil || !isAstField(list, "File", "Decls") {
		c.Viol("function", c.Pos(p, f.Pos()), "loop", "not every declaration of the file is looked at")
		return
	}
	if body == nil {
		c.Viol("function", c.Pos(p, f.Pos()), "loop", "the declarations are not gone through")
		return
	}
	paths, ok := enumRegion(body, h, func(b *ssa.BasicBlock) bool { return b == h || target[b] }, 60000)
	if !ok {
		c.Viol("function", c.Pos(p, f.Pos()), "TrapFuncs", "too many paths")
		return
	}
	w := &fnGate{m: m, f: f}
	w.init()
	reported := map[string]bool{}
	report := func(pos token.Pos, what, format string) {
		if !reported[what] {
			reported[what] = true
			c.Viol("function", c.Pos(p, pos), what, "%s", format)
		}
	}
	trapped, left := 0, 0
	for _, t := range paths {
		if t.end != h && !target[t.end] {
			report(f.Pos(), "end", "the declarations after one can be left out")
			continue
		}
		if t.end == h {
			left++
			if why := w.leftOut(t); why != "" {
				report(lastPos(t), "left out", why)
			}
			continue
		}
		trapped++
		if why := w.qualifies(t); why != "" {
			report(lastPos(t), "trapped", why)
		}
	}
	c.Obl("function", itoa(left)+" ways to leave a function out")
	c.Obl("function", itoa(trapped)+" ways to trap one")
	for i := 0; i < 6; i++ {
		c.Obl("function", "reason")
	}
	w.everyComment()
	w.prefixes()
	if left == 0 || trapped == 0 {
		report(f.Pos(), "ways", "no function is trapped, or none is left out")
	}
}

func itoa(n int) string {
	s := ""
	if n == 0 {
		return "0"
	}
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func lastPos(t *ptrace) token.Pos {
	for i := len(t.conds) - 1; i >= 0; i-- {
		if pos := t.conds[i].v.Pos(); pos.IsValid() {
			return pos
		}
	}
	return t.fn.Pos()
}

type fnGate struct {
	m        *gateModel
	f        *ssa.Function
	all      int64
	none     int64
	exported int64
}

func (w *fnGate) init() {
	sp := w.m.p.pkg(cfgPath)
	val := func(name string) int64 {
		if k, ok := sp.Members[name].(*ssa.NamedConst); ok {
			v, _ := constInt(k.Value)
			return v
		}
		return -1
	}
	w.all, w.none, w.exported = val("InstrumentMode_All"), val("InstrumentMode_None"), val("InstrumentMode_Exported")
}

// funcName: v is the name of the function declared.
func (w *fnGate) funcName(t *ptrace, v ssa.Value) bool {
	v = t.resolve(v)
	if !isAstField(v, "Ident", "Name") {
		return false
	}
	fa, ok := v.(*ssa.UnOp).X.(*ssa.FieldAddr)
	return ok && isAstField(t.resolve(fa.X), "FuncDecl", "Name")
}

func (w *fnGate) nilOf(t *ptrace, is func(ssa.Value) bool, want bool) bool {
	return t.knows(w.m.p, func(cond ssa.Value, pol bool) bool {
		v, isnil, ok := nilTest(cond, pol)
		return ok && isnil == want && is(t.resolve(v))
	})
}

func (w *fnGate) eqStr(t *ptrace, is func(ssa.Value) bool, s string, want bool) bool {
	return t.knows(w.m.p, func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || ((b.Op == token.EQL) == pol) != want {
			return false
		}
		for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if k, ok := constStr(q[1]); ok && k == s && is(q[0]) {
				return true
			}
		}
		return false
	})
}

func (w *fnGate) modeIs(t *ptrace, k int64, want bool) bool {
	return t.knows(w.m.p, func(cond ssa.Value, pol bool) bool {
		x, op, n, ok := normCompare(cond, pol)
		if !ok || !isNamed(x.Type(), cfgPath, "InstrumentMode") {
			return false
		}
		if want {
			return op == token.EQL && n == k
		}
		return op == token.NEQ && n == k || op == token.EQL && n != k
	})
}

// isFunc: the declaration is a function's.
func (w *fnGate) isFunc(t *ptrace, want bool) bool {
	return t.knows(w.m.p, func(cond ssa.Value, pol bool) bool {
		e, ok := cond.(*ssa.Extract)
		if !ok || e.Index != 1 || pol != want {
			return false
		}
		ta, ok := e.Tuple.(*ssa.TypeAssert)
		return ok && ptrTo(ta.AssertedType, "go/ast", "FuncDecl")
	})
}

func (w *fnGate) hasFlag(t *ptrace, is func(ssa.Value) bool, want bool) bool {
	return t.knows(w.m.p, func(cond ssa.Value, pol bool) bool { return pol == want && is(t.resolve(cond)) })
}

// mocked: a mock names the function, or the method.
func (w *fnGate) mocked(t *ptrace) (yes, no bool) {
	record := func(v ssa.Value) bool { return ptrTo(v.Type(), resvPath, "NameRecorder") }
	pkgRec := func(v ssa.Value) bool { return ptrTo(v.Type(), resvPath, "PkgRecorder") }
	// the record a flag is read from is that of: the function's name, or
	// the receiver's type
	keyOf := func(rec ssa.Value) ssa.Value {
		switch x := t.resolve(rec).(type) {
		case *ssa.Call:
			if len(x.Common().Args) == 2 && pkgRec(x.Common().Args[0]) {
				return x.Common().Args[1]
			}
		case *ssa.Lookup:
			if fieldNamed(x.X, "Names") {
				return x.Index
			}
		case *ssa.Extract:
			if l, ok := x.Tuple.(*ssa.Lookup); ok && fieldNamed(l.X, "Names") {
				return l.Index
			}
		}
		return nil
	}
	byFunc := func(rec ssa.Value) bool { k := keyOf(rec); return k != nil && w.funcName(t, k) }
	byType := func(rec ssa.Value) bool {
		k := keyOf(rec)
		if k == nil || w.funcName(t, k) {
			return false
		}
		k = t.resolve(k)
		return isAstField(k, "Ident", "Name")
	}
	fieldBase := func(v ssa.Value) ssa.Value {
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fa.X
			}
		}
		return nil
	}
	fnFlag := func(want bool) bool {
		return w.hasFlag(t, func(v ssa.Value) bool { return fieldNamed(v, "HasMockRef") && byFunc(fieldBase(v)) }, want)
	}
	methodFlag := func(want bool) bool {
		return w.hasFlag(t, func(v ssa.Value) bool {
			l, ok := v.(*ssa.Lookup)
			if e, isE := v.(*ssa.Extract); isE {
				l, ok = e.Tuple.(*ssa.Lookup)
			}
			return ok && fieldNamed(l.X, "NamesHavingMock") && byType(fieldBase(l.X)) && w.funcName(t, l.Index)
		}, want)
	}
	if fnFlag(true) || methodFlag(true) {
		return true, false
	}
	noRec := w.nilOf(t, pkgRec, true)
	noFn := noRec || fnFlag(false) || w.nilOf(t, func(v ssa.Value) bool { return record(v) && byFunc(v) }, true)
	noMethod := noRec || methodFlag(false) ||
		w.nilOf(t, func(v ssa.Value) bool { return record(v) && byType(v) }, true) ||
		w.nilOf(t, func(v ssa.Value) bool { return ptrTo(v.Type(), "go/ast", "Ident") }, true) ||
		w.nilOf(t, func(v ssa.Value) bool { return isAstField(v, "FuncDecl", "Recv") || ptrTo(v.Type(), "go/ast", "Field") }, true)
	return false, noFn && noMethod
}

func (w *fnGate) nosplit(t *ptrace) bool {
	return t.knows(w.m.p, func(cond ssa.Value, pol bool) bool {
		k, ok := cond.(*ssa.Call)
		if ok && pol && calleeName(k) == "strings.HasPrefix" {
			s, ok := constStr(k.Common().Args[1])
			return ok && strings.HasPrefix(s, "//go:nosplit") && isAstField(k.Common().Args[0], "Comment", "Text")
		}
		b, ok := cond.(*ssa.BinOp)
		if ok && (b.Op == token.EQL) == pol {
			for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if s, ok := constStr(q[1]); ok && s == "//go:nosplit" && isAstField(q[0], "Comment", "Text") {
					return true
				}
			}
		}
		return false
	})
}

// everyComment: the directive is looked for in the whole of the doc comment.
func (w *fnGate) everyComment() {
	c, p := w.m.c, w.m.p
	n := 0
	for _, f := range p.Funcs {
		if fnPkgPath(f) != ifnPath {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			v, ok := ins.(ssa.Value)
			if !ok || !isAstField(v, "Comment", "Text") {
				return
			}
			n++
			h := loopOf(ins.Block())
			if h == nil {
				c.Viol("function", c.Pos(p, ins.Pos()), "comments", "go:nosplit is not looked for in every line of the doc comment")
				return
			}
			found := func(b *ssa.BasicBlock, i int) bool {
				iff, ok := lastIf(b)
				return ok && p.implies(iff.Cond, i == 0, isNosplit, 0)
			}
			// left early only when found: directly, or after noting it
			excused := func(b *ssa.BasicBlock, i int) bool {
				if found(b, i) {
					return true
				}
				return p.blockGuarded(b, isNosplit, 0)
			}
			whole := false
			for _, i := range h.Instrs {
				switch x := i.(type) {
				case *ssa.Phi, *ssa.BinOp:
					if ok, list := loopWhole(p, x.(ssa.Value), excused); ok && isAstField(list, "CommentGroup", "List") {
						whole = true
					}
				}
			}
			if !whole {
				c.Viol("function", c.Pos(p, ins.Pos()), "comments", "go:nosplit is not looked for in every line of the doc comment")
			}
		})
	}
	c.Obl("function", "doc comments")
	if n == 0 {
		c.Viol("function", c.Pos(p, w.f.Pos()), "comments", "go:nosplit is not looked for")
	}
}

func isNosplit(cond ssa.Value, pol bool) bool {
	k, ok := cond.(*ssa.Call)
	if ok && pol && calleeName(k) == "strings.HasPrefix" {
		s, ok := constStr(k.Common().Args[1])
		return ok && strings.HasPrefix(s, "//go:nosplit")
	}
	b, ok := cond.(*ssa.BinOp)
	if ok && (b.Op == token.EQL) == pol {
		for _, v := range []ssa.Value{b.X, b.Y} {
			if s, ok := constStr(v); ok && s == "//go:nosplit" {
				return true
			}
		}
	}
	return false
}

// prefixes: what says whether a name starts with one of a list does so.
func (w *fnGate) prefixes() {
	c, p := w.m.c, w.m.p
	done := map[*ssa.Function]bool{}
	eachInstr(w.f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		g := call.Common().StaticCallee()
		if g == nil || !isRepoFn(g) || done[g] {
			return
		}
		li := -1
		for i, a := range call.Common().Args {
			if fieldNamed(a, "WhitelistFuncPrefix") {
				li = i
			}
		}
		if li < 0 || len(g.Params) != 2 {
			return
		}
		done[g] = true
		c.Obl("function", "prefixes")
		list, name := ssa.Value(g.Params[li]), ssa.Value(g.Params[1-li])
		elem := func(v ssa.Value) bool {
			ia := unloadElem(v)
			return ia != nil && ia.X == list
		}
		has := func(cond ssa.Value, pol bool) bool {
			k, ok := cond.(*ssa.Call)
			return ok && pol && calleeName(k) == "strings.HasPrefix" && k.Common().Args[0] == name && elem(k.Common().Args[1])
		}
		for _, r := range returnsOf(g) {
			vals := []ssa.Value{r.Results[0]}
			for _, v := range vals {
				k, ok := constBool(v)
				switch {
				case ok && k:
					if !p.Guarded(r, has) {
						c.Viol("function", c.Pos(p, r.Pos()), "prefixes", "a name counts as listed without starting with a listed prefix")
					}
				case ok:
					var h *ssa.BasicBlock
					for _, b := range g.Blocks {
						if isLoopHeader(b) {
							h = b
						}
					}
					var idx, l ssa.Value
					if h != nil {
						for _, i := range h.Instrs {
							switch x := i.(type) {
							case *ssa.Phi, *ssa.BinOp:
								if ok, ll := loopWhole(p, x.(ssa.Value), func(b *ssa.BasicBlock, i int) bool {
									iff, ok := lastIf(b)
									return ok && p.implies(iff.Cond, i == 0, has, 0)
								}); ok {
									idx, l = x.(ssa.Value), ll
								}
							}
						}
					}
					tested := false
					eachInstr(g, func(i ssa.Instruction) {
						if v, ok := i.(*ssa.Call); ok && has(v, true) && !skipsIterationUnless(i, func(b *ssa.BasicBlock, j int) bool {
							iff, ok := lastIf(b)
							return ok && p.implies(iff.Cond, j == 0, func(cond ssa.Value, pol bool) bool { return emptyStringOf(cond, pol, elem) }, 0)
						}) {
							tested = true
						}
					})
					if idx == nil || l != list || !tested {
						c.Viol("function", c.Pos(p, r.Pos()), "prefixes", "a name does not count as listed although it starts with a listed prefix")
					}
				default:
					c.Viol("function", c.Pos(p, r.Pos()), "prefixes", "whether a name starts with a listed prefix is not told")
				}
			}
		}
	})
}

func (w *fnGate) listed(t *ptrace, want bool) bool {
	// what is listed is named with its receiver
	full := func(v ssa.Value) bool {
		return isStringType(v.Type()) && (!w.funcName(t, v) || w.nilOf(t, func(x ssa.Value) bool {
			return isAstField(x, "FuncDecl", "Recv") || ptrTo(x.Type(), "go/ast", "Field")
		}, true))
	}
	exact := w.hasFlag(t, func(v ssa.Value) bool {
		l, ok := v.(*ssa.Lookup)
		if e, isE := v.(*ssa.Extract); isE {
			l, ok = e.Tuple.(*ssa.Lookup)
		}
		return ok && fieldNamed(l.X, "WhitelistFunc") && full(l.Index)
	}, want)
	prefix := w.hasFlag(t, func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		list, name := false, false
		for _, a := range call.Common().Args {
			list = list || fieldNamed(a, "WhitelistFuncPrefix")
			name = name || full(a)
		}
		return list && name
	}, want)
	if want {
		return exact || prefix
	}
	return exact && prefix
}

func isPkgConfig(v ssa.Value) bool { return ptrTo(v.Type(), cfgPath, "PkgConfig") }

// leftOut says what is wrong with a path on which the function is left out.
func (w *fnGate) leftOut(t *ptrace) string {
	body := func(v ssa.Value) bool { return isAstField(v, "FuncDecl", "Body") }
	recv := func(v ssa.Value) bool { return isAstField(v, "FuncDecl", "Recv") }
	fname := func(v ssa.Value) bool { return w.funcName(t, v) }
	nameIdent := func(v ssa.Value) bool { return isAstField(v, "FuncDecl", "Name") }
	pkgPath := func(v ssa.Value) bool {
		pr, ok := t.resolve(v).(*ssa.Parameter)
		return ok && pr.Parent() == w.f && isStringType(pr.Type())
	}
	switch {
	case w.isFunc(t, false), w.nilOf(t, body, true), w.nilOf(t, nameIdent, true):
		return ""
	case w.eqStr(t, fname, "", true), w.eqStr(t, fname, "_", true):
		return ""
	case w.eqStr(t, fname, "init", true) && w.nilOf(t, recv, true):
		return ""
	case w.eqStr(t, pkgPath, "time", true) && (w.eqStr(t, fname, "XgoRealNow", true) || w.eqStr(t, fname, "XgoRealSleep", true)):
		return ""
	case w.nosplit(t):
		return ""
	}
	// the rest hangs on the mode
	if !w.modeIs(t, w.all, false) {
		return "a function of a package to be trapped wholly is left out"
	}
	yes, no := w.mocked(t)
	if yes {
		return "a function that a mock names is left out"
	}
	if !no {
		return "a function is left out without having asked whether a mock names it"
	}
	switch {
	case w.nilOf(t, isPkgConfig, false) && w.listed(t, false):
		return ""
	case w.modeIs(t, w.none, true) && w.nilOf(t, isPkgConfig, true):
		return ""
	case w.nilOf(t, isPkgConfig, true) && w.hasFlag(t, w.isExportedCall(t), false):
		return ""
	case w.modeIs(t, w.none, false) && w.modeIs(t, w.exported, false):
		return "" // no such mode
	}
	// the limits on what is trapped in bulk
	if t.knows(w.m.p, func(cond ssa.Value, pol bool) bool {
		x, op, _, ok := normCompare(cond, pol)
		if !ok {
			return false
		}
		if l := lenArg(x); l != nil && (op == token.GEQ || op == token.GTR) {
			sl, ok := l.Type().Underlying().(*types.Slice)
			return ok && ptrTo(sl.Elem(), "github.com/xhd2015/xgo/instrument/compiler_extra", "Func")
		}
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL && (op == token.LEQ || op == token.LSS || op == token.EQL) {
			return fieldNamed(t.resolve(u.X), "PkgExtraQuota")
		}
		return false
	}) {
		return ""
	}
	return "a function that qualifies is left out"
}

func (w *fnGate) isExportedCall(t *ptrace) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeName(call)
		if n != "go/token.IsExported" && n != "go/ast.IsExported" && n != "(*go/ast.Ident).IsExported" {
			return false
		}
		a := call.Common().Args[0]
		return w.funcName(t, a) || isAstField(t.resolve(a), "FuncDecl", "Name")
	}
}

// qualifies says what is wrong with a path on which the function is trapped.
func (w *fnGate) qualifies(t *ptrace) string {
	body := func(v ssa.Value) bool { return isAstField(v, "FuncDecl", "Body") }
	recv := func(v ssa.Value) bool { return isAstField(v, "FuncDecl", "Recv") }
	fname := func(v ssa.Value) bool { return w.funcName(t, v) }
	pkgPath := func(v ssa.Value) bool {
		pr, ok := t.resolve(v).(*ssa.Parameter)
		return ok && pr.Parent() == w.f && isStringType(pr.Type())
	}
	switch {
	case !w.isFunc(t, true):
		return "something other than a function is trapped"
	case !w.nilOf(t, body, false):
		return "a function without a body is trapped"
	case !w.eqStr(t, fname, "_", false):
		return "a function named _ is trapped"
	case !w.eqStr(t, fname, "init", false) && !w.nilOf(t, recv, false):
		return "an init function is trapped"
	case !w.eqStr(t, pkgPath, "time", false) && !(w.eqStr(t, fname, "XgoRealNow", false) && w.eqStr(t, fname, "XgoRealSleep", false)):
		return "the functions kept for xgo's own use are trapped"
	case w.nosplit(t):
		return "a function with no room on its stack (go:nosplit) is trapped"
	}
	// its comments were looked at
	looked := w.nilOf(t, func(v ssa.Value) bool { return isAstField(v, "FuncDecl", "Doc") }, true)
	t.each(func(ins ssa.Instruction) {
		if v, ok := ins.(ssa.Value); ok && isAstField(v, "CommentGroup", "List") {
			looked = true
		}
	})
	if !looked {
		return "a function with no room on its stack (go:nosplit) is trapped"
	}
	if w.modeIs(t, w.all, true) {
		return ""
	}
	if yes, _ := w.mocked(t); yes {
		return ""
	}
	if w.nilOf(t, isPkgConfig, false) && w.listed(t, true) {
		return ""
	}
	if w.nilOf(t, isPkgConfig, true) && w.modeIs(t, w.exported, true) && w.hasFlag(t, w.isExportedCall(t), true) {
		return ""
	}
	return "a function that nothing asks for is trapped"
}

// assume tells whether the path is possible with the name and the package
// given, and whether it hangs on something else.
func (m *gateModel) assume(t *ptrace, name, pkg string) (possible bool, unresolved bool) {
	possible = true
	for _, cd := range t.conds {
		b, ok := cd.v.(*ssa.BinOp)
		if ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			known := false
			for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				k, isK := constStr(q[1])
				if !isK {
					continue
				}
				v := t.resolve(q[0])
				var have string
				switch {
				case fieldNamed(v, "PkgPath"):
					have = pkg
				case fieldNamed(v, "Name"):
					have = name
				default:
					continue
				}
				known = true
				if (have == k) != ((b.Op == token.EQL) == cd.pol) {
					possible = false
				}
			}
			if known {
				continue
			}
		}
		// resolved: the good outcome of looking the reference up
		good := false
		switch x := cd.v.(type) {
		case *ssa.Call:
			good = !cd.pol // IsUnknown
		case *ssa.Extract:
			good = cd.pol && x.Index == 1
		}
		if !good {
			unresolved = true
		}
	}
	return
}

// recordTrap: which calls count as naming a function.
func (m *gateModel) recordTrap() {
	c, p := m.c, m.p
	f := p.Func(resvPath, "Scope.recordTrap")
	if f == nil {
		c.Viol("mocked", resvPath, "recordTrap", "Scope.recordTrap is gone")
		return
	}
	paths, ok := enumPaths(f, 5000)
	if !ok || len(paths) == 0 {
		c.Viol("mocked", c.Pos(p, f.Pos()), "recordTrap", "too many paths")
		return
	}
	type ref struct{ name, pkg string }
	refs := []ref{}
	for _, n := range []string{"Patch", "Mock"} {
		refs = append(refs, ref{n, xgoRT + "/mock"})
	}
	for _, n := range []string{"AddFuncInterceptor", "MarkIntercept"} {
		refs = append(refs, ref{n, xgoRT + "/trap"})
	}
	for _, n := range []string{"Record", "RecordCall", "RecordResult"} {
		refs = append(refs, ref{n, xgoRT + "/trace"})
	}
	for _, n := range []string{"InfoFunc", "InfoVar"} {
		refs = append(refs, ref{n, xgoRT + "/functab"})
	}
	for _, r := range refs {
		c.Obl("mocked", r.pkg+"."+r.name)
		yes := false
		for _, t := range paths {
			poss, unres := m.assume(t, r.name, r.pkg)
			if !poss || unres {
				continue
			}
			res := m.outcomesAs(t, t.ret.Results[0], r.name, r.pkg)
			if res[false] {
				c.Viol("mocked", c.Pos(p, t.ret.Pos()), r.name, "%s.%s(fn, ...) does not count as naming fn: fn may stay untrapped", strings.TrimPrefix(r.pkg, xgoRT+"/"), r.name)
			}
			yes = yes || res[true]
		}
		if !yes {
			c.Viol("mocked", c.Pos(p, f.Pos()), r.name, "%s.%s(fn, ...) does not count as naming fn: fn may stay untrapped", strings.TrimPrefix(r.pkg, xgoRT+"/"), r.name)
		}
	}
	// an interceptor of everything
	for _, n := range []string{"AddInterceptor", "MarkInterceptAll"} {
		c.Obl("mocked", n)
		sets := false
		for _, t := range paths {
			poss, unres := m.assume(t, n, xgoRT+"/trap")
			if !poss || unres {
				continue
			}
			set := false
			t.each(func(ins ssa.Instruction) {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "HasTrapInterceptorRef" {
						k, ok := constBool(st.Val)
						set = ok && k
					}
				}
			})
			if !set {
				c.Viol("mocked", c.Pos(p, t.ret.Pos()), n, "trap.%s does not turn on the trapping of all that it is to see", n)
			}
			sets = sets || set
		}
		if !sets {
			c.Viol("mocked", c.Pos(p, f.Pos()), n, "trap.%s does not turn on the trapping of all that it is to see", n)
		}
	}
	// each such call is acted on
	mock := p.Func(resvPath, "Scope.recordMockRef")
	n := 0
	sites, _ := p.CallSitesOf(f)
	for _, site := range sites {
		n++
		call, ok := site.ins.(*ssa.Call)
		if !ok {
			continue
		}
		c.Obl("mocked", "acted on")
		good := false
		eachInstr(call.Parent(), func(ins ssa.Instruction) {
			k, ok := ins.(*ssa.Call)
			if !ok || k.Common().StaticCallee() != mock {
				return
			}
			first := false
			var ia *ssa.IndexAddr
			if ia = unloadElem(k.Common().Args[1]); ia != nil {
				i, ok := constInt(ia.Index)
				first = ok && i == 0 && isAstField(ia.X, "CallExpr", "Args")
			}
			if !first {
				return
			}
			// nothing but the call's being one decides
			if p.Guarded(k, func(cond ssa.Value, pol bool) bool { return pol && cond == ssa.Value(call) }) {
				if iff, ok := lastIf(call.Block()); ok && iff.Cond == ssa.Value(call) && iff.Block().Succs[0] == k.Block() {
					good = true
				}
			}
		})
		if !good {
			c.Viol("mocked", c.Pos(p, call.Pos()), "acted on", "what a mock names is not always recorded")
		}
	}
	if n == 0 {
		c.Viol("mocked", c.Pos(p, f.Pos()), "acted on", "calls of mocks are not looked for")
	}
}

// outcomesAs: the values a boolean result can have with that name and package.
func (m *gateModel) outcomesAs(t *ptrace, v ssa.Value, name, pkg string) map[bool]bool {
	out := map[bool]bool{}
	for k, n := range outcomes(t, v) {
		if poss, _ := m.assume(n, name, pkg); poss {
			out[k] = true
		}
	}
	return out
}

// recordMock: the record says what the mock named.
func (m *gateModel) recordMock() {
	c, p := m.c, m.p
	f := p.Func(resvPath, "Scope.recordMockRef")
	if f == nil {
		c.Viol("mocked", resvPath, "recordMockRef", "Scope.recordMockRef is gone")
		return
	}
	paths, ok := enumPaths(f, 5000)
	if !ok || len(paths) == 0 {
		c.Viol("mocked", c.Pos(p, f.Pos()), "recordMockRef", "too many paths")
		return
	}
	check := p.Func(cfgPath, "CheckInstrument")
	const tp = "github.com/xhd2015/xgo/instrument/resolve/types"
	is := func(t *ptrace, typ string) bool {
		return t.knows(p, func(cond ssa.Value, pol bool) bool {
			e, ok := cond.(*ssa.Extract)
			if !ok || !pol || e.Index != 1 {
				return false
			}
			ta, ok := e.Tuple.(*ssa.TypeAssert)
			return ok && isNamed(ta.AssertedType, tp, typ)
		})
	}
	seen := map[string]bool{}
	for _, t := range paths {
		kind := ""
		switch {
		case is(t, "PkgFunc"):
			kind = "function"
		case is(t, "PkgTypeMethod") && is(t, "NamedType"):
			kind = "method"
		case is(t, "Pointer") && is(t, "PkgVariable"):
			kind = "variable"
		}
		var did string
		var rec, sub ssa.Value
		var field ssa.Value
		t.each(func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					n := fieldVar(fa.X.Type(), fa.Field).Name()
					k, isB := constBool(x.Val)
					if n == "HasMockRef" && isB && k {
						did, sub = "function", fa.X
					}
					if n == "HasVarTrap" && isB && k {
						did, sub = "variable", fa.X
					}
				}
			case *ssa.Call:
				if g := x.Common().StaticCallee(); g != nil && len(x.Common().Args) == 2 && ptrTo(x.Common().Args[0].Type(), resvPath, "NameRecorder") {
					did, sub, field = "method", x.Common().Args[0], x.Common().Args[1]
				}
			}
		})
		where := c.Pos(p, t.ret.Pos())
		if did == "" {
			if kind == "" {
				continue
			}
			// not to be instrumented, or nameless
			if t.knows(p, func(cond ssa.Value, pol bool) bool {
				e, ok := cond.(*ssa.Extract)
				if !ok || pol || e.Index != 1 {
					return false
				}
				call, ok := e.Tuple.(*ssa.Call)
				return ok && call.Common().StaticCallee() == check
			}) || t.knows(p, func(cond ssa.Value, pol bool) bool {
				return emptyStringOf(cond, pol, func(v ssa.Value) bool { return true })
			}) {
				continue
			}
			c.Viol("mocked", where, "recorded "+kind, "a %s that a mock names is not recorded", kind)
			continue
		}
		c.Obl("mocked", "recorded "+did)
		if kind == "" {
			c.Viol("mocked", where, "recorded other", "something is recorded as mocked that is neither a function, a method nor a variable")
			continue
		}
		if !t.knows(p, func(cond ssa.Value, pol bool) bool {
			e, ok := cond.(*ssa.Extract)
			if !ok || !pol || e.Index != 1 {
				return false
			}
			call, ok := e.Tuple.(*ssa.Call)
			return ok && call.Common().StaticCallee() == check
		}) {
			c.Viol("mocked", where, "recorded allowed", "a %s is recorded without asking whether its package may be instrumented", did)
		}
		// a method with the empty name is told apart by its name
		if kind != did {
			if kind == "method" && did == "function" && t.knows(p, func(cond ssa.Value, pol bool) bool {
				return emptyStringOf(cond, pol, func(v ssa.Value) bool { return fieldNamed(t.resolve(v), "Name") })
			}) {
				continue
			}
			c.Viol("mocked", where, "recorded as "+did, "a %s that a mock names is recorded as a %s", kind, did)
			continue
		}
		seen[did] = true
		// the record's place: package, then name
		k2, ok := t.resolve(sub).(*ssa.Call)
		good := false
		if ok && len(k2.Common().Args) == 2 {
			rec = t.resolve(k2.Common().Args[0])
			nameOK := fieldNamed(t.resolve(k2.Common().Args[1]), "Name")
			if k1, ok := rec.(*ssa.Call); ok && len(k1.Common().Args) == 2 {
				pkgOK := fieldNamed(t.resolve(k1.Common().Args[1]), "PkgPath")
				good = nameOK && pkgOK && sameStruct(t.resolve(k2.Common().Args[1]), t.resolve(k1.Common().Args[1]))
			}
		}
		if did == "method" && good {
			// the method's own name, not its receiver's
			fv := t.resolve(field)
			good = fieldNamed(fv, "Name") && !sameStruct(fv, t.resolve(k2.Common().Args[1]))
		}
		if did == "variable" && good {
			counted := false
			t.each(func(ins ssa.Instruction) {
				st, ok := ins.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || t.resolve(fa.X) != rec || fieldVar(fa.X.Type(), fa.Field).Name() != "NumVars" {
					return
				}
				b, ok := st.Val.(*ssa.BinOp)
				if !ok || b.Op != token.ADD {
					return
				}
				for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if k, ok := constInt(q[1]); ok && k > 0 && fieldNamed(q[0], "NumVars") {
						counted = true
					}
				}
			})
			if !counted {
				c.Viol("mocked", where, "recorded count", "a variable that a mock names is not counted: its package is built as if none were")
			}
		}
		if !good {
			c.Viol("mocked", where, "recorded under "+did, "a %s that a mock names is recorded under another package or name", did)
		}
	}
	for _, k := range []string{"function", "method", "variable"} {
		if !seen[k] {
			c.Viol("mocked", c.Pos(p, f.Pos()), "recorded "+k, "a %s that a mock names is not recorded", k)
		}
	}
}

// sameStruct: two fields of one value.
func sameStruct(a, b ssa.Value) bool {
	base := func(v ssa.Value) ssa.Value {
		switch x := v.(type) {
		case *ssa.Field:
			return x.X
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fa.X
			}
		}
		return nil
	}
	x, y := base(a), base(b)
	return x != nil && x == y
}

// recorded: asking for a record twice gives the same one.
func (m *gateModel) recorded() {
	c, p := m.c, m.p
	for _, n := range []string{"Recorder.GetOrInit", "PkgRecorder.GetOrInit"} {
		f := p.Func(resvPath, n)
		if f == nil {
			c.Viol("mocked", resvPath, n, "%s is gone", n)
			continue
		}
		c.Obl("mocked", n)
		paths, ok := enumPaths(f, 200)
		if !ok || len(paths) == 0 {
			c.Viol("mocked", c.Pos(p, f.Pos()), n, "too many paths")
			continue
		}
		for _, t := range paths {
			v := t.resolve(t.ret.Results[0])
			key := ssa.Value(f.Params[1])
			there := func(v ssa.Value) bool {
				e, ok := v.(*ssa.Extract)
				if ok {
					l, ok := e.Tuple.(*ssa.Lookup)
					return ok && l.Index == key && e.Index == 0
				}
				l, ok := v.(*ssa.Lookup)
				return ok && l.Index == key
			}
			if there(v) {
				if !t.knows(p, func(cond ssa.Value, pol bool) bool {
					e, ok := cond.(*ssa.Extract)
					if ok && pol && e.Index == 1 {
						l, ok := e.Tuple.(*ssa.Lookup)
						return ok && l.Index == key
					}
					x, isnil, ok := nilTest(cond, pol)
					return ok && !isnil && there(x)
				}) {
					c.Viol("mocked", c.Pos(p, t.ret.Pos()), n, "a missing record is answered")
				}
				continue
			}
			kept := false
			t.each(func(ins ssa.Instruction) {
				if u, ok := ins.(*ssa.MapUpdate); ok && u.Key == key && t.resolve(u.Value) == v {
					kept = true
				}
			})
			if _, fresh := v.(*ssa.Alloc); !fresh || !kept || !t.knows(p, func(cond ssa.Value, pol bool) bool {
				e, ok := cond.(*ssa.Extract)
				if ok && !pol && e.Index == 1 {
					l, ok := e.Tuple.(*ssa.Lookup)
					return ok && l.Index == key
				}
				x, isnil, ok := nilTest(cond, pol)
				return ok && isnil && there(x)
			}) {
				c.Viol("mocked", c.Pos(p, t.ret.Pos()), n, "a record made is not kept, or replaces one there is: what a mock named is forgotten")
			}
			// the map is only made anew when there is none
			t.each(func(ins ssa.Instruction) {
				st, ok := ins.(*ssa.Store)
				if !ok {
					return
				}
				if _, isM := st.Val.(*ssa.MakeMap); isM && !t.knows(p, func(cond ssa.Value, pol bool) bool {
					x, isnil, ok := nilTest(cond, pol)
					return ok && isnil && sameLoad2(x, st.Addr)
				}) {
					c.Viol("mocked", c.Pos(p, st.Pos()), n, "records already made are dropped")
				}
			})
		}
	}
	// a method's name is added to those already there
	f := p.Func(resvPath, "NameRecorder.AddMockName")
	if f == nil {
		return
	}
	c.Obl("mocked", "AddMockName")
	paths, _ := enumPaths(f, 50)
	for _, t := range paths {
		added := false
		t.each(func(ins ssa.Instruction) {
			if u, ok := ins.(*ssa.MapUpdate); ok && u.Key == ssa.Value(f.Params[1]) {
				k, ok := constBool(u.Value)
				added = ok && k
			}
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			if _, isM := st.Val.(*ssa.MakeMap); isM && !t.knows(p, func(cond ssa.Value, pol bool) bool {
				x, isnil, ok := nilTest(cond, pol)
				return ok && isnil && sameLoad2(x, st.Addr)
			}) {
				c.Viol("mocked", c.Pos(p, st.Pos()), "AddMockName", "method names already recorded are dropped")
			}
		})
		if !added {
			c.Viol("mocked", c.Pos(p, f.Pos()), "AddMockName", "the name of a method a mock names is not recorded")
		}
	}
}

// sameLoad2: v is read from a place like addr.
func sameLoad2(v, addr ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	if u.X == addr {
		return true
	}
	a, ok1 := u.X.(*ssa.FieldAddr)
	b, ok2 := addr.(*ssa.FieldAddr)
	return ok1 && ok2 && a.X == b.X && a.Field == b.Field
}

// driver: the command hands every file over.
func (m *gateModel) driver() {
	c, p := m.c, m.p
	trap := p.Func(ifnPath, "TrapFuncs")
	mode := p.Func(cfgPath, "CheckInstrumentMode")
	cfg := p.Func(cfgPath, "GetPkgConfig")
	n := 0
	sites, _ := p.CallSitesOf(trap)
	for _, site := range sites {
		call, ok := site.ins.(*ssa.Call)
		if !ok || !isRepoFn(call.Parent()) {
			continue
		}
		f := call.Parent()
		if !strings.HasSuffix(fnPkgPath(f), "cmd/xgo") {
			continue
		}
		n++
		where := c.Pos(p, call.Pos())
		c.Obl("driver", shortFn(f))
		// the package at hand
		isPkg := func(v ssa.Value) bool { return ptrTo(v.Type(), editPkg, "Package") }
		var pkg ssa.Value
		allowed := func(cond ssa.Value, pol bool) bool {
			if !pol || !fieldNamed(cond, "AllowInstrument") {
				return false
			}
			u, ok := cond.(*ssa.UnOp)
			if !ok {
				return false
			}
			x := u.X.(*ssa.FieldAddr).X
			if isPkg(x) {
				pkg = x
			}
			return true
		}
		if !p.Guarded(call, allowed) || pkg == nil {
			c.Viol("driver", where, "allowed", "functions are trapped in packages that must not be instrumented")
			continue
		}
		of := func(v ssa.Value, field string) bool { return fieldNamed(v, field) && baseOf(v, pkg) }
		// every package and every file
		for _, h := range []*ssa.BasicBlock{loopOf(call.Block()), outerLoop(call.Block())} {
			if h == nil {
				c.Viol("driver", where, "loop", "the files are not gone through")
				continue
			}
			idx, list := wholeIndex(p, h)
			if idx == nil || !(fieldNamed(list, "Files") && baseOf(list, pkg) || fieldNamed(list, "Packages")) {
				c.Viol("driver", where, "every file", "not every file of every package is handed over")
			}
			if blockSkipped(call.Block(), h, func(b *ssa.BasicBlock, i int) bool {
				iff, ok := lastIf(b)
				if !ok {
					return false
				}
				if p.implies(iff.Cond, i == 0, func(cond ssa.Value, pol bool) bool { return !pol && fieldNamed(cond, "AllowInstrument") }, 0) {
					return true
				}
				isTest := func(cond ssa.Value, pol bool) bool {
					k, ok := cond.(*ssa.Call)
					if !ok || !pol || calleeName(k) != "strings.HasSuffix" {
						return false
					}
					s, ok := constStr(k.Common().Args[1])
					return ok && s == "_test.go" && fieldNamed(k.Common().Args[0], "Name")
				}
				both := func(a atomMatch) bool {
					return p.implies(iff.Cond, i == 0, a, 0) || p.blockGuarded(b, a, 0)
				}
				if (p.implies(iff.Cond, i == 0, isTest, 0) || p.implies(iff.Cond, i == 0, notMain(pkg), 0)) && both(isTest) && both(notMain(pkg)) {
					return true
				}
				// the loop over the files is over
				return h != loopOf(call.Block()) && b == loopOf(call.Block())
			}) {
				c.Viol("driver", where, "left out", "a file of an allowed package is left out that is not a test file of another module")
			}
		}
		if !p.Guarded(call, func(cond ssa.Value, pol bool) bool {
			k, ok := cond.(*ssa.Call)
			return ok && !pol && calleeName(k) == "strings.HasSuffix" || notMainNeg(pkg)(cond, pol)
		}) && !testFilesSkipped(p, call, pkg) {
			c.Viol("driver", where, "test files", "test files of packages outside the main module are trapped")
		}
		m.actedOn(call)
		// the settings
		args := call.Common().Args
		if !of(args[1], "ImportPath") {
			c.Viol("driver", where, "path", "the functions are trapped under another package's path")
		}
		opts := optionStores(args[4])
		for _, o := range []struct {
			name string
			ok   func(ssa.Value) bool
		}{
			{"Main", func(v ssa.Value) bool { return of(v, "Main") }},
			{"PkgConfig", func(v ssa.Value) bool {
				k, ok := v.(*ssa.Call)
				return ok && k.Common().StaticCallee() == cfg && of(k.Common().Args[0], "ImportPath")
			}},
			{"PkgRecorder", func(v ssa.Value) bool {
				k, ok := v.(*ssa.Call)
				return ok && ptrTo(k.Type(), resvPath, "PkgRecorder") && of(k.Common().Args[len(k.Common().Args)-1], "ImportPath")
			}},
			{"InstrumentMode", func(v ssa.Value) bool {
				k, ok := v.(*ssa.Call)
				if !ok || k.Common().StaticCallee() != mode {
					return false
				}
				a := k.Common().Args
				return of(a[0], "Standard") && of(a[1], "Main") && of(a[2], "Initial") && m.trapAll(a[3])
			}},
		} {
			c.Obl("driver", "setting "+o.name)
			good := len(opts[o.name]) > 0
			for _, v := range opts[o.name] {
				good = good && o.ok(v)
			}
			if !good {
				c.Viol("driver", where, "setting "+o.name, "%s handed over with the functions of a package is not this package's", o.name)
			}
		}
	}
	if n == 0 {
		c.Viol("driver", "cmd/xgo", "TrapFuncs", "no functions are trapped")
	}
}

// actedOn: what TrapFuncs answers is kept, and what it needs was done.
func (m *gateModel) actedOn(call *ssa.Call) {
	c, p := m.c, m.p
	where := c.Pos(p, call.Pos())
	c.Obl("driver", "kept")
	kept := map[int]bool{}
	for _, r := range *call.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok {
			continue
		}
		for _, r2 := range *e.Referrers() {
			switch x := r2.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == ssa.Value(e) && fieldVar(fa.X.Type(), fa.Field).Name() == "Funcs" {
					// only left out when there are none
					if m.reachedUnlessEmpty(call, x, e) {
						kept[e.Index] = true
					}
				}
			case *ssa.Call:
				if _, ok := isBuiltinCall(x, "append"); ok && x.Common().Args[1] == ssa.Value(e) && m.appendsTraps(call, x, x, e) {
					kept[e.Index] = true
				}
			}
		}
		// one by one
		eachInstr(call.Parent(), func(ins ssa.Instruction) {
			_, isApp := isBuiltinCall(ins, "append")
			x, ok := ins.(*ssa.Call)
			if !ok || !isApp {
				return
			}
			vs := variadicArgs(x.Common().Args[1])
			if len(vs) != 1 {
				return
			}
			ia := unloadElem(vs[0])
			h := loopOf(x.Block())
			if ia == nil || ia.X != ssa.Value(e) || h == nil || skipsIteration(x) {
				return
			}
			if _, l := wholeIndex(p, h); l == ssa.Value(e) && m.appendsTraps(call, x, h.Instrs[len(h.Instrs)-1], e) {
				kept[e.Index] = true
			}
		})
	}
	if !kept[0] {
		c.Viol("driver", where, "kept traps", "the functions trapped in a file are not kept with the file: what they are is never registered")
	}
	if !kept[1] {
		c.Viol("driver", where, "kept extra", "the functions the compiler is to trap are not handed to it")
	}
	// the references and the variables come first
	for _, w := range []struct{ pkg, name string }{
		{resvPath, "Traverse"}, {"github.com/xhd2015/xgo/instrument/instrument_var", "TrapVariables"},
	} {
		c.Obl("driver", w.name)
		if !alwaysBefore(call, func(i ssa.Instruction) bool {
			k, ok := i.(*ssa.Call)
			if !ok || k.Common().StaticCallee() == nil {
				return false
			}
			g := k.Common().StaticCallee()
			return g.Name() == w.name && fnPkgPath(g) == w.pkg
		}) {
			c.Viol("driver", where, "before "+w.name, "functions are trapped without %s having been called: what mocks name is not known, or variables go untrapped", w.name)
		}
	}
}

// appendsTraps: x extends the list of the functions trapped in the file.
func (m *gateModel) appendsTraps(call, x *ssa.Call, at ssa.Instruction, e ssa.Value) bool {
	for _, r3 := range *x.Referrers() {
		st, ok := r3.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !ptrTo(fa.X.Type(), editPkg, "File") || fieldVar(fa.X.Type(), fa.Field).Name() != "TrapFuncs" {
			continue
		}
		if !fieldNamed(x.Common().Args[0], "TrapFuncs") || !baseOf(x.Common().Args[0], fa.X) || !baseOf(call.Common().Args[0], fa.X) {
			continue
		}
		if m.reachedUnlessEmpty(call, at, e) {
			return true
		}
	}
	return false
}

// reachedUnlessEmpty: after from, ins runs in the same turn unless the list e
// is empty.
func (m *gateModel) reachedUnlessEmpty(from, ins ssa.Instruction, e ssa.Value) bool {
	p := m.p
	if !inLoop(ins.Block(), loopOf(from.Block())) {
		return false
	}
	return !skipsIterationUnless(ins, func(b *ssa.BasicBlock, i int) bool {
		if !from.Block().Dominates(b) {
			return !b.Succs[i].Dominates(from.Block()) // not trapped at all
		}
		iff, ok := lastIf(b)
		return ok && p.implies(iff.Cond, i == 0, func(cond ssa.Value, pol bool) bool {
			l, op, k, ok := lenCompare(cond, pol)
			return ok && l == e && impliesEmpty(op, k)
		}, 0)
	})
}

func notMain(pkg ssa.Value) atomMatch {
	return func(cond ssa.Value, pol bool) bool { return !pol && fieldNamed(cond, "Main") && baseOf(cond, pkg) }
}

func notMainNeg(pkg ssa.Value) atomMatch {
	return func(cond ssa.Value, pol bool) bool { return pol && fieldNamed(cond, "Main") && baseOf(cond, pkg) }
}

// testFilesSkipped: the call is not reached for a test file outside main.
func testFilesSkipped(p *Prog, call *ssa.Call, pkg ssa.Value) bool {
	h := loopOf(call.Block())
	if h == nil {
		return false
	}
	var body *ssa.BasicBlock
	for _, s := range h.Succs {
		if inLoop(s, h) && s != h {
			body = s
		}
	}
	if body == nil {
		return false
	}
	paths, ok := enumRegion(body, h, func(b *ssa.BasicBlock) bool { return b == h || b == call.Block() }, 5000)
	if !ok {
		return false
	}
	for _, t := range paths {
		if t.end != call.Block() {
			continue
		}
		if !t.knows(p, func(cond ssa.Value, pol bool) bool {
			k, ok := cond.(*ssa.Call)
			return ok && !pol && calleeName(k) == "strings.HasSuffix" || notMainNeg(pkg)(cond, pol)
		}) {
			return false
		}
	}
	return true
}

// optionStores: the values stored to the fields of a struct passed by value.
func optionStores(v ssa.Value) map[string][]ssa.Value {
	out := map[string][]ssa.Value{}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return out
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return out
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				n := fieldVar(fa.X.Type(), fa.Field).Name()
				out[n] = append(out[n], st.Val)
			}
		}
	}
	return out
}

// trapAll: v is true when asked for, or unless told otherwise when an
// interceptor of everything is used.
func (m *gateModel) trapAll(v ssa.Value) bool {
	p := m.p
	eq := func(s string) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || (b.Op == token.EQL) != pol || b.Op != token.EQL && b.Op != token.NEQ {
				return false
			}
			for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := constStr(q[1]); ok && k == s {
					if _, isP := q[0].(*ssa.Parameter); isP {
						return true
					}
				}
			}
			return s == "" && emptyStringOf(cond, pol, func(x ssa.Value) bool { _, isP := x.(*ssa.Parameter); return isP })
		}
	}
	not := func(a atomMatch) atomMatch {
		return func(cond ssa.Value, pol bool) bool { return a(cond, !pol) }
	}
	ref := func(cond ssa.Value, pol bool) bool { return pol && fieldNamed(cond, "HasTrapInterceptorRef") }
	either := func(cond ssa.Value, pol bool) bool { return eq("true")(cond, pol) || ref(cond, pol) }
	deft := func(cond ssa.Value, pol bool) bool { return eq("true")(cond, pol) || eq("")(cond, pol) }
	noRef := func(cond ssa.Value, pol bool) bool { return not(ref)(cond, pol) || not(eq(""))(cond, pol) }
	return p.implies(v, true, either, 0) && p.implies(v, true, deft, 0) &&
		p.implies(v, false, not(eq("true")), 0) && p.implies(v, false, noRef, 0)
}

// variables: TrapVariables.
func (m *gateModel) variables() {
	c, p := m.c, m.p
	f := p.Func("github.com/xhd2015/xgo/instrument/instrument_var", "TrapVariables")
	if f == nil {
		c.Viol("driver", "instrument/instrument_var", "TrapVariables", "TrapVariables is gone")
		return
	}
	n := 0
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil || fnPkgPath(call.Common().StaticCallee()) != fnPkgPath(f) {
			return
		}
		takes := false
		for _, a := range call.Common().Args {
			takes = takes || ptrTo(a.Type(), editPkg, "Decl")
		}
		if !takes {
			return
		}
		n++
		where := c.Pos(p, call.Pos())
		c.Obl("driver", "variables")
		if !p.Guarded(call, func(cond ssa.Value, pol bool) bool { return pol && fieldNamed(cond, "AllowInstrument") }) {
			c.Viol("driver", where, "variables allowed", "variables are trapped in packages that must not be instrumented")
		}
		h := outerLoop(call.Block())
		if h == nil {
			c.Viol("driver", where, "variables loop", "the variables are not gone through")
			return
		}
		var body *ssa.BasicBlock
		for _, s := range h.Succs {
			if inLoop(s, h) && s != h {
				body = s
			}
		}
		// the declarations' loop
		inner := loopOf(call.Block())
		excuse := func(cond ssa.Value, pol bool) bool {
			if !pol && fieldNamed(cond, "AllowInstrument") || !pol && fieldNamed(cond, "HasVarTrap") {
				return true
			}
			if l, op, k, ok := lenCompare(cond, pol); ok && impliesEmpty(op, k) && (fieldNamed(l, "VarRefs") || fieldNamed(l, "Names")) {
				return true
			}
			if x, op, _, ok := normCompare(cond, pol); ok && fieldNamed(x, "Kind") && op == token.NEQ {
				return true
			}
			if v, isnil, ok := nilTest(cond, pol); ok && isnil && (ptrTo(v.Type(), resvPath, "PkgRecorder") || ptrTo(v.Type(), resvPath, "NameRecorder")) {
				return true
			}
			return false
		}
		_ = body
		for _, l := range []*ssa.BasicBlock{inner, loopAround(inner), h} {
			if l == nil {
				continue
			}
			if idx, _ := wholeIndex(p, l); idx == nil {
				c.Viol("driver", where, "variables all", "not every variable of every file is looked at")
			}
		}
		if blockSkipped(call.Block(), h, func(b *ssa.BasicBlock, i int) bool {
			iff, ok := lastIf(b)
			if !ok {
				return false
			}
			if isLoopHeader(b) && b != h && !inLoop(b.Succs[i], b) {
				return true // the inner loop is over
			}
			return p.implies(iff.Cond, i == 0, excuse, 0)
		}) {
			c.Viol("driver", where, "variables left out", "a referenced variable of the main module, or one that a mock names, is left out")
		}
		// what is left out for want of a record is outside main
		eachInstr(f, func(i2 ssa.Instruction) {
			iff, ok := i2.(*ssa.If)
			if !ok || !inLoop(iff.Block(), h) {
				return
			}
			for i, s := range iff.Block().Succs {
				if s == nil {
					continue
				}
				byRec := func(cond ssa.Value, pol bool) bool {
					if !pol && fieldNamed(cond, "HasVarTrap") {
						return true
					}
					v, isnil, ok := nilTest(cond, pol)
					return ok && isnil && (ptrTo(v.Type(), resvPath, "PkgRecorder") || ptrTo(v.Type(), resvPath, "NameRecorder"))
				}
				if !p.implies(iff.Cond, i == 0, byRec, 0) {
					continue
				}
				out := func(cond ssa.Value, pol bool) bool { return !pol && fieldNamed(cond, "Main") }
				if !p.blockGuarded(iff.Block(), out, 0) {
					c.Viol("driver", c.Pos(p, iff.Cond.Pos()), "variables main", "a variable of the main module is left out for not being named by a mock")
				}
			}
		})
	})
	if n == 0 {
		c.Viol("driver", c.Pos(p, f.Pos()), "variables", "no variables are trapped")
	}
}

// loopAround is the header of the loop around the one with header h.
func loopAround(h *ssa.BasicBlock) *ssa.BasicBlock {
	if h == nil || h.Idom() == nil {
		return nil
	}
	for b := h.Idom(); b != nil; b = b.Idom() {
		if isLoopHeader(b) && inLoop(h, b) {
			return b
		}
	}
	return nil
}

func init() {
	props["I06"] = propDef{run: runI06, assumptions: []string{
		"the go command tells which packages are standard, dependencies only, and what files they have",
		"whether an expression given to a mock is resolved to the function it names is I02's and I03's part; where it is not resolved nothing is recorded",
		"the compiler traps what is handed to it by identity name (outside this repository's tests)",
	}}
}
