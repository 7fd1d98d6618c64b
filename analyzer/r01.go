package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R01"] = propDef{run: checkR01, assumptions: []string{
		"the linked runtime functions XgoGetCurG and XgoInitFinished answer for the calling goroutine and for package initialisation (patched into the Go runtime; their shape is checked by R10)",
		"the registry is only reached through typed Go code (no unsafe access to it)",
	}}
}

func checkR01(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("scope-write", "every change of a registry field goes either to the registry of the current goroutine, on paths where initialisation has finished, or to the process-wide registry, on paths where it has not; goroutine creation only writes the created goroutine's")
	c.Rule("scope-read", "every registry a trap looks into is the process-wide one or that of the current goroutine")
	c.Rule("both-scopes", "for each kind of registration, the traps look it up in both scopes; a lookup of recorders or interceptors leaves the list of one scope out only where it is empty")
	c.Rule("data-kept", "the data of a goroutine, which holds its registrations and its tracing state, is only put in place when it has none")
	c.Rule("one-kind", "a list read for dispatch, or stored back, only combines lists of one kind of registration under one key")
	c.Rule("local-first", "a goroutine's own mock takes precedence: the process-wide list is only used when the goroutine's list is empty")
	c.Rule("trap-kind", "each trap consults the registrations of its own kind (function, variable, variable pointer)")

	c.Rule("push-kind", "a registration about the pointers to a variable is kept where the trap of address-taking reads looks, one about its value where the trap of value reads looks")

	create := m.inCreate()
	for _, w := range m.regWrites() {
		construct := shortFn(w.ins.Parent()) + " " + w.field.Name()
		c.Obl("scope-write", construct+" at "+c.Pos(p, w.ins.Pos()))
		for _, o := range p.Origins(w.reg, originOpts{}) {
			switch {
			case o.Val == ssa.Value(m.Global):
				if create[w.ins.Parent()] {
					c.Viol("scope-write", c.Pos(p, w.ins.Pos()), construct, "goroutine creation changes the process-wide registry")
					continue
				}
				if !p.originGuarded(o, w.ins, m.initAtom(false)) && !m.captured(o, w) {
					c.Viol("scope-write", c.Pos(p, w.ins.Pos()), construct, "the process-wide registry is changed on a path where initialisation may have finished: the registration leaks to every goroutine")
				}
			default:
				src := m.gSources(o.Val)
				if create[w.ins.Parent()] {
					if !src.child || src.parent || src.cur || src.global {
						c.Viol("scope-write", c.Pos(p, w.ins.Pos()), construct, "goroutine creation writes a registry of: %s, want only the created goroutine's", src)
					}
					continue
				}
				if !src.cur || src.global || src.parent || src.child {
					c.Viol("scope-write", c.Pos(p, w.ins.Pos()), construct, "the registry changed belongs to: %s, want the current goroutine's", src)
					continue
				}
				if !p.originGuarded(o, w.ins, m.initAtom(true)) {
					c.Viol("scope-write", c.Pos(p, w.ins.Pos()), construct, "a goroutine's registry is used on a path where initialisation may not have finished: the registration would not be process-wide")
				}
			}
		}
	}
	// every registry field has a registration
	written := map[*types.Var]bool{}
	for _, w := range m.regWrites() {
		if !create[w.ins.Parent()] {
			written[w.field] = true
		}
	}
	for _, f := range m.RegFields {
		if !written[f] {
			c.Viol("scope-write", "-", f.Name(), "no registration writes this registry field")
		}
	}

	// reads during dispatch
	var roots []*ssa.Function
	for _, k := range []string{"func", "var", "varptr"} {
		roots = append(roots, m.TrapFns[k])
	}
	type rd struct{ local, global bool }
	byTrap := map[string]map[*types.Var]*rd{}
	for _, k := range []string{"func", "var", "varptr"} {
		byTrap[k] = map[*types.Var]*rd{}
		reach := p.Reach([]*ssa.Function{m.TrapFns[k]}, func(f *ssa.Function) bool { return fnPkg(f) == nil || fnPkg(f).Path() != rtTrap })
		for _, fn := range p.Funcs {
			if !reach[fn] {
				continue
			}
			eachInstr(fn, func(ins ssa.Instruction) {
				v, ok := ins.(ssa.Value)
				if !ok {
					return
				}
				var f *types.Var
				var reg ssa.Value
				switch x := ins.(type) {
				case *ssa.UnOp:
					f, reg = m.regField(x)
				case *ssa.Field:
					f, reg = m.regField(x)
				}
				if f == nil {
					return
				}
				_ = v
				construct := shortFn(fn) + " " + f.Name()
				if k == "func" {
					c.Obl("scope-read", construct+" at "+c.Pos(p, ins.Pos()))
				}
				r := byTrap[k][f]
				if r == nil {
					r = &rd{}
					byTrap[k][f] = r
				}
				for _, o := range p.Origins(reg, originOpts{}) {
					if o.Val == ssa.Value(m.Global) {
						r.global = true
						continue
					}
					src := m.gSources(o.Val)
					if !src.cur || src.parent || src.child || src.global {
						c.Viol("scope-read", c.Pos(p, ins.Pos()), construct, "a trap looks into the registry of: %s, want the current goroutine's", src)
						continue
					}
					r.local = true
				}
			})
		}
	}
	for _, f := range m.RegFields {
		l, g := false, false
		for _, k := range []string{"func", "var", "varptr"} {
			if r := byTrap[k][f]; r != nil {
				l = l || r.local
				g = g || r.global
			}
		}
		c.Obl("both-scopes", f.Name())
		if !l {
			c.Viol("both-scopes", "-", f.Name(), "no trap looks into the goroutine's own %s registrations", f.Name())
		}
		if !g {
			c.Viol("both-scopes", "-", f.Name(), "no trap looks into the process-wide %s registrations", f.Name())
		}
	}
	m.mergesBoth(c)
	m.dataKept(c, "data-kept")
	// kind of the trap: map fields only (keyed); value type signature tells
	// func from var; the var kinds are told apart by the registering side.
	varFields := map[string][]*types.Var{}
	for _, k := range []string{"func", "var", "varptr"} {
		for f := range byTrap[k] {
			varFields[k] = append(varFields[k], f)
		}
	}
	for _, f := range m.RegFields {
		if _, ok := f.Type().Underlying().(*types.Map); !ok {
			continue
		}
		var traps []string
		for _, k := range []string{"func", "var", "varptr"} {
			if byTrap[k][f] != nil {
				traps = append(traps, k)
			}
		}
		c.Obl("trap-kind", f.Name()+" <- "+strings.Join(traps, ","))
		want := "func"
		ln := strings.ToLower(f.Name())
		if strings.Contains(ln, "varptr") {
			want = "varptr"
		} else if strings.Contains(ln, "var") {
			want = "var"
		}
		has := false
		for _, t := range traps {
			if t == want {
				has = true
				continue
			}
			c.Viol("trap-kind", "-", f.Name(), "the %s trap consults %s registrations", t, f.Name())
		}
		if !has {
			c.Viol("trap-kind", "-", f.Name(), "the %s trap does not consult %s registrations", want, f.Name())
		}
	}
	kindOf := map[string]map[*types.Var]bool{}
	for k, fs := range byTrap {
		kindOf[k] = map[*types.Var]bool{}
		for f := range fs {
			kindOf[k][f] = true
		}
	}
	m.checkPushKind(c, kindOf)
	c.Floor("scope-write", 7)
	c.Floor("scope-read", 3)

	// one kind
	for _, w := range m.regWrites() {
		if w.val == nil {
			continue
		}
		construct := shortFn(w.ins.Parent()) + " " + w.field.Name()
		c.Obl("one-kind", construct+" at "+c.Pos(p, w.ins.Pos()))
		for f := range listFields(m, w.val) {
			if f != w.field {
				c.Viol("one-kind", c.Pos(p, w.ins.Pos()), construct, "a list of %s registrations is stored as %s", f.Name(), w.field.Name())
			}
		}
	}
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtTrap }) {
		sig := fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			fields := map[*types.Var]bool{}
			for _, r := range returnsOf(fn) {
				if i < len(r.Results) {
					if isListOrHolderFunc(m, sig.At(i).Type()) {
						for f := range listFieldsOpt(m, r.Results[i], true) {
							fields[f] = true
						}
					}
				}
			}
			if len(fields) == 0 {
				continue
			}
			c.Obl("one-kind", shortFn(fn)+" result")
			if len(fields) > 1 {
				var l []string
				for f := range fields {
					l = append(l, f.Name())
				}
				c.Viol("one-kind", c.Pos(p, fn.Pos()), shortFn(fn), "one result combines registrations of several kinds: %s", joinSorted(l))
			}
		}
	}
	// local first, for mocks
	for _, f := range m.RegFields {
		if !m.isMock(f) {
			continue
		}
		found := false
		for _, fn := range p.FuncsIn(func(s string) bool { return s == rtTrap }) {
			if create[fn] {
				continue
			}
			eachInstr(fn, func(ins ssa.Instruction) {
				ld, ok := ins.(*ssa.UnOp)
				if !ok {
					return
				}
				rf, reg := m.regField(ld)
				if rf != f {
					return
				}
				isGlobal := false
				for _, o := range p.Origins(reg, originOpts{noParams: true}) {
					if o.Val == ssa.Value(m.Global) && len(o.Edges) == 0 {
						isGlobal = true
					}
				}
				if !isGlobal || !m.dispatch(fn) {
					return
				}
				found = true
				c.Obl("local-first", shortFn(fn)+" "+f.Name())
				localOf := func(v ssa.Value) bool {
					for lf, regs := range listFields(m, v) {
						if lf != f {
							continue
						}
						for _, r := range regs {
							for _, o := range p.Origins(r, originOpts{noParams: true}) {
								if o.Val != ssa.Value(m.Global) {
									return true
								}
							}
						}
					}
					return false
				}
				// the goroutine has no data at all, or no registration of
				// this kind
				emptyLocal := func(cond ssa.Value, pol bool) bool {
					if lo, op, k, ok := lenCompare(cond, pol); ok {
						return impliesEmpty(op, k) && localOf(lo)
					}
					b, ok := cond.(*ssa.BinOp)
					if !ok || (b.Op == token.EQL) != pol || (b.Op != token.EQL && b.Op != token.NEQ) {
						return false
					}
					for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if !isNilConst(pr[1]) {
							continue
						}
						if isPtrTo(pr[0].Type(), m.Data) {
							return true
						}
						if m.isHolderPtr(pr[0].Type()) && localOf(pr[0]) && m.nilOnlyWhenEmpty(pr[0]) {
							return true
						}
					}
					return false
				}
				// guard at the load, or at every use of the looked up list
				if p.Guarded(ld, emptyLocal) {
					return
				}
				if m.usesGuarded(ld, emptyLocal) {
					return
				}
				c.Viol("local-first", c.Pos(p, ld.Pos()), shortFn(fn)+" "+f.Name(), "the process-wide %s list may be used although the goroutine has its own", f.Name())
			})
		}
		if !found {
			c.Viol("local-first", "-", f.Name(), "no lookup of the process-wide %s list found", f.Name())
		}
	}
}

// nilOnlyWhenEmpty: the entry picked from a list is nil only when there is
// no list or it is empty.
func (m *RTModel) nilOnlyWhenEmpty(v ssa.Value) bool {
	p := m.p
	none := func(cond ssa.Value, pol bool) bool {
		if lo, op, k, ok := lenCompare(cond, pol); ok {
			return impliesEmpty(op, k) && m.isHolderList(lo.Type())
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok || (b.Op == token.EQL) != pol || (b.Op != token.EQL && b.Op != token.NEQ) {
			return false
		}
		return isNilConst(b.Y) && isPtrTo(b.X.Type(), m.Data) || isNilConst(b.X) && isPtrTo(b.Y.Type(), m.Data)
	}
	os := p.Origins(v, originOpts{noParams: true})
	for _, o := range os {
		if isNilConst(o.Val) && !p.originGuarded(o, nil, none) {
			return false
		}
	}
	return len(os) > 0
}

// captured: a cancel function writes the registry its registration chose;
// the choice was guarded where the closure was made.
func (m *RTModel) captured(o Origin, w regWrite) bool {
	fn := w.ins.Parent()
	for f := fn; f != nil; f = f.Parent() {
		for _, mc := range m.p.closures[f] {
			if mc.Parent() == nil {
				continue
			}
			for _, e := range o.Edges {
				if m.p.edgeGuarded(e.pred, e.phi.Block(), m.initAtom(false), 0) {
					return true
				}
			}
		}
	}
	return m.cellGuarded(w.reg, m.initAtom(false))
}

// cellGuarded: the registry pointer lives in a captured variable; the
// stores of the process-wide registry that can still be current afterwards
// are overwritten whenever initialisation has finished.
func (m *RTModel) cellGuarded(reg ssa.Value, atom atomMatch) bool {
	var cell *ssa.Alloc
	walkAddr := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok {
			if a := m.p.localCell(u.X); a != nil {
				cell = a
			}
		}
	}
	walkAddr(reg)
	if cell == nil {
		return false
	}
	return m.storeOverwritten(cell, atom)
}

// storeOverwritten: after a store of the global registry into cell, each
// path to a function exit or closure creation either crosses an atom edge
// or stores something else.
func (m *RTModel) storeOverwritten(cell *ssa.Alloc, atom atomMatch) bool {
	ok := true
	n := 0
	stores := m.p.cellStoreInstrs(cell)
	for _, st := range stores {
		isG := false
		for _, o := range m.p.Origins(st.Val, originOpts{}) {
			if o.Val == ssa.Value(m.Global) {
				isG = true
			}
		}
		if !isG {
			continue
		}
		n++
		if m.p.Guarded(st, atom) {
			continue
		}
		// walk forward
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, from int) bool
		walk = func(b *ssa.BasicBlock, from int) bool {
			for _, ins := range b.Instrs[from:] {
				if s2, is := ins.(*ssa.Store); is && s2.Addr == st.Addr {
					return true
				}
				switch ins.(type) {
				case *ssa.Return:
					return false
				}
				if u, is := ins.(*ssa.UnOp); is && u.X == st.Addr {
					return false
				}
			}
			for i, s := range b.Succs {
				if m.p.edgeHolds(b, i, atom, 0) || seen[s] {
					continue
				}
				seen[s] = true
				if !walk(s, 0) {
					return false
				}
			}
			return true
		}
		if !walk(st.Block(), instrIndex(st)+1) {
			ok = false
		}
	}
	return ok && n > 0
}

// listFields: the registry fields whose lists flow into v as list content
// (appended, copied, sliced, indexed), with their registry pointers.
func listFields(m *RTModel, v ssa.Value) map[*types.Var][]ssa.Value {
	return listFieldsOpt(m, v, false)
}

func listFieldsOpt(m *RTModel, v ssa.Value, local bool) map[*types.Var][]ssa.Value {
	out := map[*types.Var][]ssa.Value{}
	m.p.slice(v, true, local, func(x ssa.Value) bool {
		if f, reg := m.regField(x); f != nil {
			out[f] = append(out[f], reg)
			return false
		}
		return !isScalar(x.Type())
	})
	return out
}

func isScalar(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() != types.UnsafePointer
}

// copiedInto: sources of copy() calls whose destination is (a slice of) ms,
// and values stored into its elements.
func copiedInto(p *Prog, ms *ssa.MakeSlice) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Slice:
				walk(x)
			case *ssa.Phi:
				walk(x)
			case *ssa.MapUpdate:
				// read back from the table by the same key
				if x.Value == v && x.Map.Referrers() != nil {
					for _, r2 := range *x.Map.Referrers() {
						if lk, ok := r2.(*ssa.Lookup); ok && structEq(p, lk.Index, x.Key, 0) {
							walk(lk)
						}
					}
				}
			case *ssa.IndexAddr:
				if x.X == v && x.Referrers() != nil {
					for _, r2 := range *x.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
							out = append(out, st.Val)
						}
					}
				}
			case *ssa.Store:
				if x.Val == v {
					if a := p.localCell(x.Addr); a != nil {
						for _, l := range p.cellLoads(a) {
							walk(l)
						}
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" && x.Call.Args[0] == v {
						out = append(out, x.Call.Args[1])
					}
					if b.Name() == "append" && x.Call.Args[0] == v {
						out = append(out, x.Call.Args[1])
						walk(x)
					}
				}
			}
		}
	}
	walk(ms)
	return out
}

func isListOrHolderFunc(m *RTModel, t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if n := namedOf(sl.Elem()); n != nil && m.Holders[n] {
			return true
		}
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		for h := range m.Holders {
			st := h.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), t) {
					return true
				}
			}
		}
		return false
	}
	if n := namedOf(t); n != nil && m.Holders[n] {
		return true
	}
	return false
}

// dispatch: fn is reachable from a trap.
func (m *RTModel) dispatch(fn *ssa.Function) bool {
	var roots []*ssa.Function
	for _, f := range m.TrapFns {
		roots = append(roots, f)
	}
	return m.p.Reach(roots, func(f *ssa.Function) bool { return fnPkg(f) == nil || fnPkg(f).Path() != rtTrap })[fn]
}

// usesGuarded: the loaded map's looked up lists only flow on through phi
// edges or instructions on which the atom holds.
func (m *RTModel) usesGuarded(ld ssa.Value, atom atomMatch) bool {
	n := 0
	for _, r := range *ld.Referrers() {
		lk, ok := r.(*ssa.Lookup)
		if !ok {
			return false
		}
		for _, u := range *lk.Referrers() {
			n++
			switch x := u.(type) {
			case *ssa.Phi:
				for i, e := range x.Edges {
					if e == ssa.Value(lk) && !m.p.edgeGuarded(x.Block().Preds[i], x.Block(), atom, 0) {
						return false
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				if !m.p.Guarded(x, atom) {
					return false
				}
			default:
				if !m.p.Guarded(u, atom) {
					return false
				}
			}
		}
	}
	return n > 0
}

// ptrMode: the condition says that the registration is about pointers to
// the variable, not about its value: the name asked for has the "*" mark,
// or the type given matches one made from the pointer type itself.
func (m *RTModel) ptrMode(cond ssa.Value, pol bool) bool {
	p := m.p
	isStar := func(v ssa.Value) bool {
		if s, ok := constStr(v); ok {
			return s == "*"
		}
		k, ok := constInt(v)
		return ok && k == '*'
	}
	var cl *ssa.Call
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != pol {
			return false
		}
		if isStar(x.X) || isStar(x.Y) {
			return true
		}
		if !isReflectType(x.X.Type()) {
			return false
		}
		return m.typeMode(x.X) == 2 && m.typeMode(x.Y) >= 0 || m.typeMode(x.Y) == 2 && m.typeMode(x.X) >= 0
	case *ssa.Call:
		cl = x
	case *ssa.Extract:
		cl, _ = x.Tuple.(*ssa.Call)
		if cl != nil && !isBoolT(x.Type()) {
			return false
		}
	}
	if cl == nil || !pol {
		return false
	}
	f := cl.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "strings.HasPrefix", "strings.CutPrefix":
		return isStar(cl.Call.Args[1])
	}
	if !p.inRepo[f] {
		return false
	}
	made, val, n := false, false, 0
	for _, a := range cl.Call.Args {
		t := a.Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if !isReflectType(t) {
			continue
		}
		n++
		switch m.typeMode(a) {
		case 2:
			made = true
		case -1:
			val = true
		}
	}
	if n < 2 || val {
		return false
	}
	return made || !callsElem(f)
}

// typeMode: -1 when v is made from a pointer type's element, 2 when it is a
// type or list made from other types as they are, 0 otherwise.
func (m *RTModel) typeMode(v ssa.Value) int {
	elem, made := false, false
	if _, ok := v.(*ssa.Slice); ok {
		made = true
	}
	m.p.slice(v, true, true, func(x ssa.Value) bool {
		if cl, ok := x.(*ssa.Call); ok {
			switch {
			case cl.Call.IsInvoke() && cl.Call.Method.Name() == "Elem":
				elem = true
			case calleeName(cl) == "reflect.FuncOf":
				made = true
			}
		}
		return true
	})
	switch {
	case elem:
		return -1
	case made:
		return 2
	}
	return 0
}

func callsElem(f *ssa.Function) bool {
	hit := false
	eachInstr(f, func(ins ssa.Instruction) {
		if cl, ok := ins.(*ssa.Call); ok && cl.Call.IsInvoke() && cl.Call.Method.Name() == "Elem" && isReflectType(cl.Call.Value.Type()) {
			hit = true
		}
	})
	return hit
}

// checkPushKind: a registration about the pointers to a variable goes to
// the lists the pointer trap consults, any other one does not.
func (m *RTModel) checkPushKind(c *Ctx, byTrap map[string]map[*types.Var]bool) {
	p := m.p
	create := m.inCreate()
	push := map[*ssa.Function]string{}
	for _, w := range m.regWrites() {
		fn := w.ins.Parent()
		if create[fn] {
			continue
		}
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		for _, k := range []string{"var", "varptr"} {
			if byTrap[k][w.field] && !byTrap["func"][w.field] {
				if push[fn] != "" && push[fn] != k {
					k = "both"
				}
				push[fn] = k
			}
		}
	}
	reaches := func(f *ssa.Function) (v, vp bool) {
		for g := range p.Reach([]*ssa.Function{f}, func(g *ssa.Function) bool { return fnPkg(g) == nil || fnPkg(g).Path() != rtTrap }) {
			v = v || push[g] == "var" || push[g] == "both"
			vp = vp || push[g] == "varptr" || push[g] == "both"
		}
		return
	}
	for _, fn := range p.FuncsIn(func(s string) bool { return strings.HasPrefix(s, rtMod) }) {
		if push[fn] != "" {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok || cl.Common().StaticCallee() == nil {
				return
			}
			f := cl.Common().StaticCallee()
			if fnPkg(f) == nil || fnPkg(f).Path() != rtTrap {
				return
			}
			construct := shortFn(fn) + " -> " + f.Name()
			switch push[f] {
			case "varptr":
				c.Obl("push-kind", construct+" at "+c.Pos(p, ins.Pos()))
				if !p.Guarded(ins, m.ptrMode) {
					c.Viol("push-kind", c.Pos(p, ins.Pos()), construct, "a registration that is not about pointers to the variable may be kept for the reads taking its address")
				}
			case "var":
				c.Obl("push-kind", construct+" at "+c.Pos(p, ins.Pos()))
				if p.Guarded(ins, m.ptrMode) || m.untestedMode(ins) {
					c.Viol("push-kind", c.Pos(p, ins.Pos()), construct, "a registration about pointers to the variable is kept for the reads of its value")
				}
			case "":
				if v, vp := reaches(f); v && !vp && p.Guarded(ins, m.ptrMode) {
					c.Viol("push-kind", c.Pos(p, ins.Pos()), construct, "a registration about pointers to the variable is kept for the reads of its value")
				}
			}
		})
	}
	c.Floor("push-kind", 3)
}

// untestedMode: before ins, something told whether pointers are meant, and
// ins is reached whatever it said.
func (m *RTModel) untestedMode(ins ssa.Instruction) bool {
	bad := false
	eachInstr(ins.Parent(), func(i ssa.Instruction) {
		v, ok := i.(ssa.Value)
		if !ok || bad || !isBoolT(v.Type()) || i.Block() != ins.Block() && !blockReaches([]*ssa.BasicBlock{i.Block()}, ins.Block()) {
			return
		}
		switch i.(type) {
		case *ssa.Call, *ssa.Extract, *ssa.BinOp:
		default:
			return
		}
		told := m.p.implies(v, true, m.ptrMode, 0)
		if !told && !m.p.implies(v, false, m.ptrMode, 0) {
			return
		}
		var is func(x ssa.Value, d int) bool
		is = func(x ssa.Value, d int) bool {
			if x == v {
				return true
			}
			if ph, ok := x.(*ssa.Phi); ok && d < 8 {
				for _, e := range ph.Edges {
					if e != x && is(e, d+1) {
						return true
					}
				}
			}
			return false
		}
		if !m.p.Guarded(ins, func(cond ssa.Value, pol bool) bool { return pol != told && is(cond, 0) }) {
			bad = true
		}
	})
	return bad
}
