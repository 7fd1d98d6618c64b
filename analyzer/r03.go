package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R03"] = propDef{run: checkR03, assumptions: []string{
		"an instance is identified by the value behind the receiver pointer, as the runtime does (== on the dereferenced receivers)",
		"Inspect obtains the receiver by calling the bound method value",
	}}
	props["R04"] = propDef{run: checkR04}
}

// holderField: v loads a field of a holder.
func (m *RTModel) holderField(v ssa.Value) (*types.Var, ssa.Value) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, nil
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if n := namedOf(fa.X.Type()); n != nil && m.Holders[n] {
				return fieldVar(fa.X.Type(), fa.Field), fa.X
			}
		}
	case *ssa.Field:
		if n := namedOf(x.X.Type()); n != nil && m.Holders[n] {
			return fieldVar(x.X.Type(), x.Field), x.X
		}
	}
	return nil, nil
}

func isFuncField(f *types.Var) bool {
	_, ok := f.Type().Underlying().(*types.Signature)
	return ok
}

// recvField of a holder type: its interface field, nil when it has none.
func recvField(n *types.Named) *types.Var {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.IsInterface(st.Field(i).Type()) {
			return st.Field(i)
		}
	}
	return nil
}

func holderOfField(m *RTModel, f *types.Var) *types.Named {
	for h := range m.Holders {
		st := h.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				return h
			}
		}
	}
	return nil
}

// handlerCalls: calls of a function that came out of a holder, with the
// field it came from.
type handlerCall struct {
	ins     ssa.CallInstruction
	field   *types.Var
	origins []Origin
}

func (m *RTModel) handlerCalls() []handlerCall {
	var out []handlerCall
	for _, fn := range m.p.FuncsIn(func(s string) bool { return s == rtTrap }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok || cl.Common().IsInvoke() || cl.Common().StaticCallee() != nil {
				return
			}
			if _, b := cl.Common().Value.(*ssa.Builtin); b {
				return
			}
			var fld *types.Var
			os := m.p.Origins(cl.Common().Value, originOpts{})
			for _, o := range os {
				if f, _ := m.holderField(o.Val); f != nil && isFuncField(f) {
					fld = f
				}
			}
			if fld != nil {
				out = append(out, handlerCall{cl, fld, os})
			}
		})
	}
	return out
}

// trapRecvParam: the receiver parameter of the function trap.
func (m *RTModel) sliceHas(v ssa.Value, is func(ssa.Value) bool) bool {
	hit := false
	m.p.Slice(v, func(x ssa.Value) bool {
		if is(x) {
			hit = true
		}
		return !hit
	})
	return hit
}

// instanceAtom: no instance was asked for (want == nil), or the called
// receiver's value equals the wanted one's.
func (m *RTModel) instanceAtom(rf *types.Var) atomMatch {
	isWant := func(v ssa.Value) bool { f, _ := m.holderField(v); return f == rf }
	anyWant := func(v ssa.Value) bool {
		f, base := m.holderField(v)
		return f != nil && recvField(namedOf(base.Type())) == f
	}
	trapRecv := m.TrapFns["func"].Params[1]
	isAct := func(v ssa.Value) bool { return v == ssa.Value(trapRecv) }
	pure := func(v ssa.Value) bool {
		ok := true
		elems := 0
		m.p.Slice(v, func(x ssa.Value) bool {
			if cl, is := x.(*ssa.Call); is {
				n := calleeName(cl)
				switch n {
				case "reflect.ValueOf", "(reflect.Value).Interface":
				case "(reflect.Value).Elem":
					elems++
				default:
					if f := cl.Call.StaticCallee(); f != nil && m.p.inRepo[f] {
						return !anyWant(x)
					}
					ok = false
				}
			}
			return !anyWant(x) && !isAct(x)
		})
		return ok && elems > 0
	}
	return func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if isNilConst(pr[1]) {
				os := m.p.Origins(pr[0], originOpts{})
				n := 0
				for _, o := range os {
					if isWant(o.Val) {
						n++
					} else if !isNilConst(o.Val) {
						return false
					}
				}
				if n > 0 {
					return true
				}
				continue
			}
		}
		if !types.IsInterface(b.X.Type()) || isNilConst(b.X) || isNilConst(b.Y) {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if m.sliceHas(pr[0], isWant) && m.sliceHas(pr[1], isAct) && !m.sliceHas(pr[1], isWant) && !m.sliceHas(pr[0], isAct) {
				return pure(pr[0]) && pure(pr[1])
			}
		}
		// a comparison helper used in both directions or for several holders
		wx, ax := m.sliceHas(b.X, isWant), m.sliceHas(b.X, isAct)
		wy, ay := m.sliceHas(b.Y, isWant), m.sliceHas(b.Y, isAct)
		if (wx && ay || ax && wy) && b.X != b.Y {
			px, py := paramRoots(m.p, b.X), paramRoots(m.p, b.Y)
			if len(px) == 1 && len(py) == 1 && px[0] != py[0] {
				return pure(b.X) && pure(b.Y)
			}
		}
		return false
	}
}

// paramRoots: the parameters of the enclosing function v depends on.
func paramRoots(p *Prog, v ssa.Value) []*ssa.Parameter {
	set := map[*ssa.Parameter]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if pr, ok := v.(*ssa.Parameter); ok {
			set[pr] = true
			return
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if a := p.localCell(u.X); a != nil {
				for _, s := range p.cellStores(a) {
					walk(s)
				}
			}
		}
		if ins, ok := v.(ssa.Instruction); ok {
			var ops [10]*ssa.Value
			for _, op := range ins.Operands(ops[:0]) {
				if op != nil && *op != nil {
					walk(*op)
				}
			}
		}
	}
	walk(v)
	var out []*ssa.Parameter
	for pr := range set {
		out = append(out, pr)
	}
	return out
}

func checkR03(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("match", "a mock, pre or post callback bound to an instance is only called where no instance was asked for or the called receiver equals the one asked for")
	c.Rule("recorded", "a registration keeps the receiver its target was resolved to, next to the callbacks it keeps")
	c.Rule("resolved", "the key, the receiver and the callbacks of one registration come from one and the same resolution of the target")
	c.Rule("inspect", "resolving a bound method yields the receiver seen by the probe call, or panics")

	// match
	calls := m.handlerCalls()
	kinds := map[string]int{}
	for _, hc := range calls {
		h := holderOfField(m, hc.field)
		rf := recvField(h)
		if rf == nil {
			continue
		}
		construct := shortFn(hc.ins.Parent()) + " " + h.Obj().Name() + "." + hc.field.Name()
		// general interceptors share the holder type: they have no key
		general := true
		for _, o := range hc.origins {
			f, base := m.holderField(o.Val)
			if f == nil {
				continue
			}
			for lf := range m.holderLists(base) {
				if _, ok := lf.Type().Underlying().(*types.Map); ok {
					general = false
				}
			}
			if len(m.holderLists(base)) == 0 {
				general = false
			}
		}
		if general {
			continue
		}
		c.Obl("match", construct+" at "+c.Pos(p, hc.ins.Pos()))
		kinds[h.Obj().Name()+"."+hc.field.Name()]++
		atom := m.instanceAtom(rf)
		if p.Guarded(hc.ins, atom) {
			continue
		}
		for _, o := range hc.origins {
			if isNilConst(o.Val) {
				continue
			}
			if !p.originGuarded(o, nil, atom) {
				c.Viol("match", c.Pos(p, hc.ins.Pos()), construct, "the callback may run for a receiver other than the instance it was registered for")
				break
			}
		}
	}
	for h := range m.Holders {
		if recvField(h) == nil {
			continue
		}
		st := h.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if isFuncField(st.Field(i)) && kinds[h.Obj().Name()+"."+st.Field(i).Name()] == 0 {
				c.Viol("match", "-", h.Obj().Name()+"."+st.Field(i).Name(), "no call of this callback was found")
			}
		}
	}

	// recorded: holder allocations in registrations
	create := m.inCreate()
	general := m.generalRegFns()
	type regSite struct {
		fn                *ssa.Function
		recvParam, keyIdx int
	}
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtTrap }) {
		if create[fn] {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			a, ok := ins.(*ssa.Alloc)
			if !ok {
				return
			}
			n := namedOf(a.Type().(*types.Pointer).Elem())
			if n == nil || !m.Holders[n] || !m.isHolderPtr(a.Type()) {
				return
			}
			rf := recvField(n)
			if rf == nil || general[fn] {
				return
			}
			construct := shortFn(fn) + " " + n.Obj().Name()
			c.Obl("recorded", construct)
			found := false
			for _, st := range storesToField(a, rf) {
				for _, o := range p.Origins(st.Val, originOpts{}) {
					if !isNilConst(o.Val) {
						found = true
					}
				}
				if isNilConst(st.Val) {
					found = false
				}
			}
			if !found {
				c.Viol("recorded", c.Pos(p, a.Pos()), construct, "the receiver of an instance registration is not kept: it applies to every instance")
			}
		})
	}
	c.Floor("recorded", 1)

	// resolved: calls passing (key, recv, callbacks): key uintptr param and
	// recv interface param of the function that writes a keyed field
	for _, w := range m.regWrites() {
		if w.key == nil || create[w.ins.Parent()] || w.ins.Parent().Parent() != nil {
			continue
		}
		h := holderElem(w.field.Type())
		if h == nil || recvField(h) == nil {
			continue
		}
		reg := w.ins.Parent()
		ki, ri := -1, -1
		for i, pr := range reg.Params {
			if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr && ki < 0 {
				ki = i
			}
			if types.IsInterface(pr.Type()) && ri < 0 {
				ri = i
			}
		}
		if ki < 0 || ri < 0 {
			continue
		}
		for _, s := range p.callers[reg] {
			args := s.Common().Args
			construct := shortFn(s.Parent()) + " -> " + shortFn(reg)
			c.Obl("resolved", construct+" at "+c.Pos(p, s.Pos()))
			kt := tupleOf(p, args[ki])
			rt := tupleOf(p, args[ri])
			if kt == nil || rt == nil || kt != rt {
				c.Viol("resolved", c.Pos(p, s.Pos()), construct, "the key and the receiver registered do not come from one resolution of the target")
				continue
			}
			// helpers given a receiver for this registration get the same
			for i, a := range args {
				if i == ki || i == ri {
					continue
				}
				for _, src := range builderCalls(p, a) {
					for _, ba := range src.Call.Args {
						if types.IsInterface(ba.Type()) && isRecvLike(p, ba, rt) == 0 && sameInterfaceName(src, ba) {
							c.Viol("resolved", c.Pos(p, src.Pos()), construct, "the callbacks are built for another receiver than the one registered")
						}
					}
				}
			}
		}
	}
	c.Floor("resolved", 3)

	// inspect: the probe's receiver is returned
	insp := p.Func(rtTrap, "Inspect")
	if insp == nil {
		c.Viol("inspect", "-", "Inspect", "not found")
		return
	}
	dyn := 0
	for _, r := range returnsOf(insp) {
		c.Obl("inspect", "Inspect return at "+c.Pos(p, r.Pos()))
		for _, o := range p.Origins(r.Results[0], originOpts{noCalls: true}) {
			if _, ok := o.Val.(*ssa.Parameter); ok {
				dyn++
			}
		}
	}
	if dyn == 0 {
		c.Viol("inspect", c.Pos(p, insp.Pos()), "Inspect", "no return yields the receiver observed by the probe")
	}
}

// holderLists: the registry fields a holder pointer may come from.
func (m *RTModel) holderLists(base ssa.Value) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for f := range listFields(m, base) {
		out[f] = true
	}
	return out
}

// generalRegFns: functions registering only in unkeyed fields.
func (m *RTModel) generalRegFns() map[*ssa.Function]bool {
	keyed := map[*ssa.Function]bool{}
	un := map[*ssa.Function]bool{}
	for _, w := range m.regWrites() {
		f := w.ins.Parent()
		if _, ok := w.field.Type().Underlying().(*types.Map); ok {
			keyed[f] = true
		} else {
			un[f] = true
		}
	}
	out := map[*ssa.Function]bool{}
	for f := range un {
		if !keyed[f] {
			out[f] = true
		}
	}
	return out
}

func storesToField(a ssa.Value, f *types.Var) []*ssa.Store {
	var out []*ssa.Store
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field) != f || fa.Referrers() == nil {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
				out = append(out, st)
			}
		}
	}
	return out
}

// tupleOf: the multi-result call v is a result of.
func tupleOf(p *Prog, v ssa.Value) ssa.Value {
	os := p.Origins(v, originOpts{noCalls: true, noParams: true})
	var t ssa.Value
	for _, o := range os {
		ex, ok := o.Val.(*ssa.Extract)
		if !ok {
			// parameters of a wrapper: both from the wrapper's parameters
			if pr, ok := o.Val.(*ssa.Parameter); ok {
				return pr.Parent()
			}
			return nil
		}
		if t != nil && t != ex.Tuple {
			return nil
		}
		t = ex.Tuple
	}
	return t
}

// builderCalls: the calls (with repository callees) producing v.
func builderCalls(p *Prog, v ssa.Value) []*ssa.Call {
	var out []*ssa.Call
	for _, o := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		switch x := o.Val.(type) {
		case *ssa.Call:
			out = append(out, x)
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				out = append(out, cl)
			}
		}
	}
	return out
}

// isRecvLike: 1 when v is a result of tuple t.
func isRecvLike(p *Prog, v ssa.Value, t ssa.Value) int {
	if tupleOf(p, v) == t {
		return 1
	}
	return 0
}

// sameInterfaceName: the callee's parameter receiving ba is what it
// compares against nil to tell instance registrations apart.
func sameInterfaceName(src *ssa.Call, ba ssa.Value) bool {
	f := src.Call.StaticCallee()
	if f == nil {
		return false
	}
	for i, a := range src.Call.Args {
		if a == ba && i < len(f.Params) {
			return capturedNilCompared(f.Params[i])
		}
	}
	return false
}

func capturedNilCompared(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				if (isNilConst(x.X) || isNilConst(x.Y)) && x.Parent().Parent() != nil {
					return true
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for j, b := range x.Bindings {
					if b == v && walk(f.FreeVars[j]) {
						return true
					}
				}
			case *ssa.Store:
				if x.Val == v {
					if walk(x.Addr) {
						return true
					}
				}
			case *ssa.UnOp:
				if walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// ------------------------------------------------------------------ R04

func checkR04(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("inherit", "when a goroutine is created, each kind of registration of the creating goroutine is given to the created one")
	c.Rule("independent", "what the created goroutine gets is a copy: its tables, lists and holders are not shared with the creator where either may change them")
	c.Rule("complete", "each copied registration keeps all of its parts (callbacks and the instance it is bound to), and every entry is copied under its own key")
	c.Rule("tracing", "tracing state is inherited exactly when the creator is tracing, and the created goroutine's stack is attached below the creating call")
	create := m.inCreate()
	byField := map[*types.Var][]regWrite{}
	for _, w := range m.regWrites() {
		if create[w.ins.Parent()] {
			byField[w.field] = append(byField[w.field], w)
		}
	}
	structCopy := m.wholeRegistryCopies(create)
	for _, f := range m.RegFields {
		c.Obl("inherit", f.Name())
		ws := byField[f]
		if len(ws) == 0 {
			if len(structCopy) > 0 {
				c.Viol("independent", c.Pos(p, structCopy[0].Pos()), f.Name(), "the registry is copied as a whole: both goroutines share its tables")
				continue
			}
			c.Viol("inherit", "-", f.Name(), "a new goroutine does not get its creator's %s registrations", f.Name())
			continue
		}
		direct := false
		for _, w := range ws {
			if w.key != nil {
				continue
			}
			direct = true
			srcs := false
			// the value must carry the parent's own field
			for lf, regs := range deepListFields(m, w.val) {
				if lf != f {
					c.Viol("inherit", c.Pos(p, w.ins.Pos()), f.Name(), "a new goroutine gets its creator's %s registrations as %s", lf.Name(), f.Name())
					continue
				}
				for _, r := range regs {
					s := m.gSources(r)
					if s.parent && !s.child {
						srcs = true
					}
				}
			}
			if !srcs {
				c.Viol("inherit", c.Pos(p, w.ins.Pos()), f.Name(), "what a new goroutine gets does not come from its creator's %s registrations", f.Name())
			}
			// unconditional, unless there is nothing to inherit
			if bad := m.skippable(w); bad != "" {
				c.Viol("inherit", c.Pos(p, w.ins.Pos()), f.Name(), "%s", bad)
			}
			m.checkFresh(c, f, w.val, c.Pos(p, w.ins.Pos()))
		}
		if !direct {
			c.Viol("inherit", c.Pos(p, ws[0].ins.Pos()), f.Name(), "a new goroutine does not get its creator's %s registrations as a whole", f.Name())
		}
	}
	// tracing state
	st := m.Data.Underlying().(*types.Struct)
	var flag, filter *types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			flag = f
		}
		if sg, ok := f.Type().Underlying().(*types.Signature); ok && sg.Results().Len() == 1 {
			filter = f
		}
	}
	if flag == nil || filter == nil {
		c.Viol("tracing", "-", m.Data.Obj().Name(), "the tracing flag or filter of a goroutine was not found")
		return
	}
	parentTracing := func(want bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || pol != want {
				return false
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			return ok && fieldVar(fa.X.Type(), fa.Field) == flag && m.gSources(fa.X).parent
		}
	}
	// the creator is not tracing, has no stack or no data; f itself is nil
	notTracing := func(f *types.Var) atomMatch {
		pt := parentTracing(false)
		return func(cond ssa.Value, pol bool) bool {
			if pt(cond, pol) || m.raceSafe(cond) && pol {
				return true
			}
			b, ok := cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != pol {
				return false
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if !isNilConst(pr[1]) {
					continue
				}
				if isNamed(pr[0].Type(), rtStack, "Stack") || namedOf(pr[0].Type()) == m.Data {
					return m.gSources(pr[0]).parent
				}
				if u, ok := pr[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && f != nil && fieldVar(fa.X.Type(), fa.Field) == f {
						return m.gSources(fa.X).parent
					}
				}
			}
			return false
		}
	}
	for _, f := range []*types.Var{flag, filter} {
		n := 0
		for _, s := range p.fieldStores[f] {
			if !create[s.Parent()] {
				continue
			}
			n++
			c.Obl("tracing", f.Name()+" at "+c.Pos(p, s.Pos()))
			src := m.gSources(s.Addr)
			if !src.child || src.parent {
				c.Viol("tracing", c.Pos(p, s.Pos()), f.Name(), "goroutine creation changes the tracing state of: %s", src)
			}
			fromParent := false
			for _, o := range p.Origins(s.Val, originOpts{}) {
				if u, ok := o.Val.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == f && m.gSources(fa.X).parent {
						fromParent = true
					}
				}
			}
			if !fromParent && !p.Guarded(s, parentTracing(true)) {
				c.Viol("tracing", c.Pos(p, s.Pos()), f.Name(), "the created goroutine may be marked as tracing though its creator is not")
			}
			if f == filter && !fromParent {
				c.Viol("tracing", c.Pos(p, s.Pos()), f.Name(), "the created goroutine does not get its creator's trace filter")
			}
			if at := m.avoidableUp(s, create, notTracing(f), 0); at != nil {
				c.Viol("tracing", c.Pos(p, at.Pos()), f.Name(), "a path through goroutine creation leaves the created goroutine without %s though its creator is tracing", f.Name())
			}
			if f == flag {
				if v, ok := constBool(s.Val); ok && !v {
					c.Viol("tracing", c.Pos(p, s.Pos()), f.Name(), "the created goroutine is marked as not tracing")
				}
			}
		}
		if n == 0 {
			c.Viol("tracing", "-", f.Name(), "goroutine creation does not pass %s on", f.Name())
		}
	}
	// child attached under the creating call: a call to a Stack method that
	// appends a node carrying the child's stack
	attach := 0
	attachers := map[*ssa.Function]bool{}
	for fn := range create {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			callee := cl.Common().StaticCallee()
			if callee == nil || fnPkg(callee) == nil || fnPkg(callee).Path() != rtStack || !m.addsGoNode(callee) {
				return
			}
			if create[callee] && fnPkg(fn).Path() == rtStack {
				return
			}
			attach++
			attachers[callee] = true
			if at := m.avoidableUp(ins, create, notTracing(nil), 0); at != nil {
				c.Viol("tracing", c.Pos(p, at.Pos()), "attach", "a path through goroutine creation leaves the created goroutine out of its creator's trace though that is tracing")
			}
			c.Obl("tracing", "attach at "+c.Pos(p, ins.Pos()))
			rs := m.gSources(cl.Common().Args[0])
			if !rs.parent || rs.child {
				c.Viol("tracing", c.Pos(p, ins.Pos()), "attach", "the node is added to the stack of: %s", rs)
			}
			childSeen := false
			for _, a := range cl.Common().Args[1:] {
				if _, isF := a.Type().Underlying().(*types.Signature); isF {
					for _, g := range p.FuncValues(a) {
						for _, r := range returnsOf(g) {
							for _, rv := range r.Results {
								s := m.gSources(rv)
								if s.child && !s.parent {
									childSeen = true
								} else {
									c.Viol("tracing", c.Pos(p, ins.Pos()), "attach", "the node refers to the stack of: %s", s)
								}
							}
						}
					}
				}
			}
			if !childSeen {
				c.Viol("tracing", c.Pos(p, ins.Pos()), "attach", "the node added does not refer to the created goroutine's stack")
			}
			if !p.Guarded(ins, parentTracing(true)) {
				c.Viol("tracing", c.Pos(p, ins.Pos()), "attach", "a node is added though the creator is not tracing")
			}
		})
	}
	// inside the attaching method, only a missing stack or a missing call in
	// progress may keep the node from being added
	noTop := func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != pol {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if isNilConst(pr[1]) && (isNamed(pr[0].Type(), rtStack, "Stack") || isNamed(pr[0].Type(), rtStack, "Entry")) {
				return true
			}
		}
		return false
	}
	for root := range attachers {
		inStack := p.Reach([]*ssa.Function{root}, func(f *ssa.Function) bool { return fnPkg(f) == nil || fnPkg(f).Path() != rtStack })
		for fn := range inStack {
			if fnPkg(fn) == nil || fnPkg(fn).Path() != rtStack {
				continue
			}
			eachInstr(fn, func(ins ssa.Instruction) {
				s, ok := ins.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type(), rtStack, "Entry") {
					return
				}
				sl, ok := s.Val.Type().Underlying().(*types.Slice)
				if !ok || !isNamed(sl.Elem(), rtStack, "Entry") {
					return
				}
				c.Obl("tracing", "node added at "+c.Pos(p, s.Pos()))
				if at := m.avoidableUp(s, inStack, noTop, 0); at != nil {
					c.Viol("tracing", c.Pos(p, at.Pos()), "attach", "the node may be left out though a call is in progress")
				}
			})
		}
	}
	if attach == 0 {
		c.Viol("tracing", "-", "attach", "the created goroutine's stack is not attached to its creator's trace")
	}
}

// addsGoNode: fn (or a callee) stores a function into an Entry-like struct
// and appends it to a list.
func (m *RTModel) addsGoNode(fn *ssa.Function) bool {
	for g := range m.p.Reach([]*ssa.Function{fn}, func(f *ssa.Function) bool { return fnPkg(f) == nil || fnPkg(f).Path() != rtStack }) {
		hit := false
		eachInstr(g, func(ins ssa.Instruction) {
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if f := fieldVar(fa.X.Type(), fa.Field); f != nil && isFuncField(f) && isNamed(fa.X.Type(), rtStack, "Entry") {
						hit = true
					}
				}
			}
		})
		if hit {
			return true
		}
	}
	return false
}

func (m *RTModel) wholeRegistryCopies(create map[*ssa.Function]bool) []ssa.Instruction {
	var out []ssa.Instruction
	for fn := range create {
		eachInstr(fn, func(ins ssa.Instruction) {
			if st, ok := ins.(*ssa.Store); ok && namedOf(st.Val.Type()) == m.Reg {
				if _, isPtr := st.Val.Type().Underlying().(*types.Pointer); !isPtr {
					out = append(out, ins)
				}
			}
		})
	}
	return out
}

// deepListFields is listFields also through maps filled in a loop.
func deepListFields(m *RTModel, v ssa.Value) map[*types.Var][]ssa.Value {
	out := map[*types.Var][]ssa.Value{}
	m.p.DeepSlice(v, func(x ssa.Value) bool {
		if f, reg := m.regField(x); f != nil {
			out[f] = append(out[f], reg)
			return false
		}
		return !isScalar(x.Type())
	})
	return out
}

// mapUpdates: updates of the map made at mk, through local copies.
func mapUpdates(p *Prog, mk ssa.Value) []*ssa.MapUpdate {
	var out []*ssa.MapUpdate
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.MapUpdate:
				if x.Map == v {
					out = append(out, x)
				}
			case *ssa.Phi:
				walk(x)
			case *ssa.Store:
				if x.Val == v {
					if a := p.localCell(x.Addr); a != nil {
						for _, l := range p.cellLoads(a) {
							walk(l)
						}
					}
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && p.inRepo[f] {
					for i, a := range x.Call.Args {
						if a == v && i < len(f.Params) {
							walk(f.Params[i])
						}
					}
				}
			}
		}
	}
	walk(mk)
	return out
}

// checkFresh: v (a table or list of holders) is newly made, and so are the
// lists and holders in it.
func (m *RTModel) checkFresh(c *Ctx, f *types.Var, v ssa.Value, pos string) {
	p := m.p
	var checkList func(v ssa.Value)
	var checkHolder func(v ssa.Value)
	checkHolder = func(v ssa.Value) {
		for _, o := range p.Origins(v, originOpts{noParams: true}) {
			a, ok := o.Val.(*ssa.Alloc)
			if !ok || !m.isHolderPtr(a.Type()) {
				// sharing the holder itself: nothing may change it
				if m.holdersImmutable() && m.isHolderPtr(o.Val.Type()) {
					c.Obl("complete", f.Name()+" shares holders")
					continue
				}
				c.Viol("independent", pos, f.Name(), "a holder is shared with the creator")
				continue
			}
			h := namedOf(a.Type())
			st := h.Underlying().(*types.Struct)
			whole := false
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if u, ok := s.Val.(*ssa.UnOp); ok && u.Op == token.MUL && m.isHolderPtr(u.X.Type()) {
						whole = true
					}
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				fv := st.Field(i)
				c.Obl("complete", f.Name()+": "+h.Obj().Name()+"."+fv.Name())
				ok := whole
				for _, s := range storesToField(a, fv) {
					for _, so := range p.Origins(s.Val, originOpts{noParams: true}) {
						if sf, _ := m.holderField(so.Val); sf == fv {
							ok = true
						} else {
							c.Viol("complete", c.Pos(p, s.Pos()), f.Name()+": "+h.Obj().Name()+"."+fv.Name(), "the copy's %s is not the original's", fv.Name())
						}
					}
				}
				// helper: func clone(h *H) *H
				if !ok {
					c.Viol("complete", c.Pos(p, a.Pos()), f.Name()+": "+h.Obj().Name()+"."+fv.Name(), "the copy given to a new goroutine loses %s", fv.Name())
				}
			}
		}
	}
	seenList := map[ssa.Value]bool{}
	checkList = func(v ssa.Value) {
		if seenList[v] {
			return
		}
		seenList[v] = true
		for _, o := range p.Origins(v, originOpts{noParams: true}) {
			if o.Val != v && seenList[o.Val] {
				continue
			}
			seenList[o.Val] = true
			switch x := o.Val.(type) {
			case *ssa.Const:
				continue
			case *ssa.MakeSlice:
				c.Obl("independent", f.Name()+" list")
				n := 0
				for _, s := range copiedInto(p, x) {
					if m.isHolderList(s.Type()) {
						n++
						if partialList(s) {
							c.Viol("complete", c.Pos(p, x.Pos()), f.Name(), "only a part of the list is copied")
						}
						for _, e := range spread(s) {
							checkHolder(e)
						}
						continue
					}
					n++
					checkHolder(s)
				}
				if n == 0 {
					c.Viol("complete", c.Pos(p, x.Pos()), f.Name(), "the new list is not filled")
				}
				m.fullLoop(c, f, x)
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if ok && b.Name() == "append" {
					c.Obl("independent", f.Name()+" list")
					checkList(x.Call.Args[0])
					m.fullAppend(c, f, x)
					if _, lit := x.Call.Args[1].(*ssa.Slice); !lit && !isNilConst(x.Call.Args[1]) && !m.holdersImmutable() {
						c.Viol("independent", pos, f.Name(), "a holder is shared with the creator")
					}
					if m.isHolderList(x.Call.Args[1].Type()) {
						for _, e := range spread(x.Call.Args[1]) {
							checkHolder(e)
						}
					}
					continue
				}
				c.Viol("independent", pos, f.Name(), "a list of unknown origin is given to the new goroutine")
			case *ssa.Slice:
				if _, ok := x.X.(*ssa.Alloc); ok {
					continue
				}
				c.Viol("independent", pos, f.Name(), "the created goroutine shares a list with its creator")
			default:
				c.Viol("independent", pos, f.Name(), "the created goroutine shares a list with its creator")
			}
		}
	}
	if _, ok := f.Type().Underlying().(*types.Map); !ok {
		checkList(v)
		return
	}
	for _, o := range p.Origins(v, originOpts{noParams: true}) {
		mk, ok := o.Val.(*ssa.MakeMap)
		if !ok {
			if isNilConst(o.Val) {
				continue
			}
			c.Viol("independent", pos, f.Name(), "the created goroutine shares its table of %s registrations with its creator", f.Name())
			continue
		}
		c.Obl("independent", f.Name()+" table")
		ups := mapUpdates(p, mk)
		if len(ups) == 0 {
			c.Viol("complete", c.Pos(p, mk.Pos()), f.Name(), "the new table is not filled")
		}
		for _, u := range ups {
			// key: the range key of the source
			ex, ok := u.Key.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				okk := false
				for _, ko := range p.Origins(u.Key, originOpts{noCalls: true}) {
					if e, is := ko.Val.(*ssa.Extract); is && e.Index == 1 {
						if _, isN := e.Tuple.(*ssa.Next); isN {
							okk = true
						}
					}
				}
				if !okk {
					c.Viol("complete", c.Pos(p, u.Pos()), f.Name(), "entries are not copied under their own key")
				}
			}
			checkList(u.Value)
			// each iteration updates
			if bad := skipsIteration(u); bad {
				c.Viol("complete", c.Pos(p, u.Pos()), f.Name(), "some entries of the table may be left out")
			}
			if mapLoopLeftEarly(u) {
				c.Viol("complete", c.Pos(p, u.Pos()), f.Name(), "the loop over the table may be left before all its entries are copied")
			}
		}
	}
}

// spread: the holders of a list literal / variadic argument; for another
// list, its elements as a whole are represented by the list's own element
// load (none), so nil.
func spread(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// holdersImmutable: holder fields are only stored while being built.
func (m *RTModel) holdersImmutable() bool {
	for h := range m.Holders {
		st := h.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			for _, s := range m.p.fieldStores[st.Field(i)] {
				fa := s.Addr.(*ssa.FieldAddr)
				if _, ok := fa.X.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return true
}

// fullLoop: stores into the made list happen in a loop over the whole
// source (every iteration stores).
func (m *RTModel) fullLoop(c *Ctx, f *types.Var, ms *ssa.MakeSlice) {
	if ms.Referrers() == nil {
		return
	}
	var stores []ssa.Instruction
	var find func(v ssa.Value, d int)
	find = func(v ssa.Value, d int) {
		if d > 4 || v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.IndexAddr:
				if x.Referrers() == nil {
					continue
				}
				for _, r2 := range *x.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
						stores = append(stores, st)
						if loopOf(st.Block()) != nil && !loopIsWhole(m.p, x.Index) {
							c.Viol("complete", c.Pos(m.p, st.Pos()), f.Name(), "the copy loop does not cover the whole list")
						}
						for _, src := range m.listReadsInLoop(st.Block()) {
							if partialList(src.X) {
								c.Viol("complete", c.Pos(m.p, st.Pos()), f.Name(), "only a part of the list is copied")
							}
							lx := &linCtx{p: m.p}
							if !lx.form(src.Index, 0).add(lx.form(x.Index, 0), -1).isConst(0) {
								c.Viol("complete", c.Pos(m.p, st.Pos()), f.Name(), "the copy's entries are not in the original's order, which decides which mock wins")
							}
						}
					}
				}
			case *ssa.Phi:
				find(x, d+1)
			case *ssa.MapUpdate:
				// list read back from the table by key
				for _, r2 := range *x.Map.Referrers() {
					if lk, ok := r2.(*ssa.Lookup); ok && structEq(m.p, lk.Index, x.Key, 0) {
						find(lk, d+1)
					}
				}
			}
		}
	}
	find(ms, 0)
	for _, s := range stores {
		if skipsIteration(s) {
			c.Viol("complete", c.Pos(m.p, s.Pos()), f.Name(), "some entries of the list may be left out")
		}
	}
}

// listReadsInLoop: the reads of elements of holder lists in b's loop.
func (m *RTModel) listReadsInLoop(b *ssa.BasicBlock) []*ssa.IndexAddr {
	h := loopOf(b)
	if h == nil {
		return nil
	}
	var out []*ssa.IndexAddr
	for _, x := range b.Parent().Blocks {
		if !inLoop(x, h) || loopOf(x) != h {
			continue
		}
		for _, ins := range x.Instrs {
			if ia, ok := ins.(*ssa.IndexAddr); ok && m.isHolderList(ia.X.Type()) && ia.Referrers() != nil {
				for _, r := range *ia.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						out = append(out, ia)
					}
				}
			}
		}
	}
	return out
}

// fullAppend: a list copied by appending in a loop gets every element, in
// order.
func (m *RTModel) fullAppend(c *Ctx, f *types.Var, ap *ssa.Call) {
	srcs := m.listReadsInLoop(ap.Block())
	if len(srcs) == 0 {
		return
	}
	if skipsIteration(ap) {
		c.Viol("complete", c.Pos(m.p, ap.Pos()), f.Name(), "some entries of the list may be left out")
	}
	for _, s := range srcs {
		if partialList(s.X) {
			c.Viol("complete", c.Pos(m.p, ap.Pos()), f.Name(), "only a part of the list is copied")
		}
		if dir, _ := loopRangeDir(m.p, s.Index); dir != 0 && !loopIsWhole(m.p, s.Index) {
			c.Viol("complete", c.Pos(m.p, ap.Pos()), f.Name(), "the copy loop may be left before the end of the list")
		}
		switch dir, _ := loopRangeDir(m.p, s.Index); dir {
		case 0:
			c.Viol("complete", c.Pos(m.p, ap.Pos()), f.Name(), "the copy loop does not cover the whole list")
		case -1:
			c.Viol("complete", c.Pos(m.p, ap.Pos()), f.Name(), "the copy's entries are not in the original's order, which decides which mock wins")
		}
	}
}

// skippable: the inheriting store may be skipped although the creator has
// registrations. Accepted reasons: no stack, race-safe mode, the parent's
// own table/list empty or nil.
func (m *RTModel) skippable(w regWrite) string {
	fn := w.ins.Parent()
	isNothing := func(cond ssa.Value, pol bool) bool {
		switch x := cond.(type) {
		case *ssa.BinOp:
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if isNilConst(pr[1]) && (x.Op == token.EQL) == pol {
					if f, _ := m.regField(pr[0]); f == w.field {
						return true
					}
					if isNamed(pr[0].Type(), rtStack, "Stack") && m.gSources(pr[0]).parent {
						return true
					}
					if namedOf(pr[0].Type()) == m.Data && m.gSources(pr[0]).parent {
						return true
					}
				}
			}
			if l, op, k, ok := lenCompare(cond, pol); ok && impliesEmpty(op, k) {
				f, _ := m.regField(l)
				return f == w.field
			}
		}
		return m.raceSafe(cond) && pol
	}
	seen := map[*ssa.BasicBlock]bool{}
	live := liveBlocks(fn)
	var st []*ssa.BasicBlock
	st = append(st, fn.Blocks[0])
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || b == w.ins.Block() || !live[b] {
			continue
		}
		seen[b] = true
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return "a path through goroutine creation leaves the created goroutine without its creator's registrations"
			}
		}
		for i, s := range b.Succs {
			if m.p.edgeHolds(b, i, isNothing, 0) {
				continue
			}
			st = append(st, s)
		}
	}
	return ""
}

// raceSafe: cond is the race-safe build flag (a constant or variable of the
// flags package).
func (m *RTModel) raceSafe(cond ssa.Value) bool {
	u, ok := cond.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == rtMod+"/internal/flags"
}
