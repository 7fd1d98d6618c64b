package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func edgesGuard(p *Prog, o Origin, a atomMatch) bool {
	for _, e := range o.Edges {
		if p.edgeGuarded(e.pred, e.phi.Block(), a, 0) {
			return true
		}
	}
	return false
}

// inspectAtom: the dispatch is xgo's own probe.
func (m *RTModel) inspectAtom() atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.NEQ) != pol {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if !isNilConst(pr[1]) {
				continue
			}
			if u, ok := pr[0].(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == m.Data {
					f := fieldVar(fa.X.Type(), fa.Field)
					sg, ok := f.Type().Underlying().(*types.Signature)
					return ok && sg.Params().Len() == 5
				}
			}
		}
		return false
	}
}

// dispatchEnd: one way a dispatch can end, after running what it returned.
type dispatchEnd struct {
	st  *estate
	at  token.Pos
	res []aval
}

// eachDispatch interprets the traps path-sensitively and reports every way
// a dispatch ends. Events recorded in the automaton:
//
//	mocks    symbols of mocks looked up
//	called   a mock was called ("1", "2" for more than once)
//	said     what it answered (T, F)
//	mismatch the receiver is not the instance asked for
//	stopped  a pre callback asked to stop
//	sched    closures running a post callback that were made
//	ran      those that were run
//	early    a post ran before the mock; late: a pre ran after it
func (m *RTModel) eachDispatch(c *Ctx, rule string, visit func(kind string, tf *ssa.Function, fin dispatchEnd)) {
	p := m.p
	calls := m.handlerCalls()
	callField := map[ssa.Instruction]*types.Var{}
	postClosure := map[*ssa.Function]bool{}
	var rf *types.Var
	for _, hc := range calls {
		callField[hc.ins] = hc.field
		if h := holderOfField(m, hc.field); h != nil && rf == nil {
			rf = recvField(h)
		}
		if hc.ins.Common().Signature().Results().Len() == 0 && !m.isMock(hc.field) {
			if f := hc.ins.Parent(); f.Parent() != nil {
				postClosure[f] = true
			}
		}
	}
	var mism []atomMatch
	for h := range m.Holders {
		if f := recvField(h); f != nil {
			mism = append(mism, m.mismatchAtom(f))
		}
	}
	mismatch := anyAtom(mism...)
	inspecting := m.inspectAtom()
	// a helper matters if it handles registrations or decides about them
	rel := map[*ssa.Function]bool{}
	relevant := func(f *ssa.Function) bool {
		if r, ok := rel[f]; ok {
			return r
		}
		hit := false
		for g := range p.Reach([]*ssa.Function{f}, func(g *ssa.Function) bool { return fnPkg(g) == nil || fnPkg(g).Path() != rtTrap }) {
			if postClosure[g] {
				hit = true
			}
			eachInstr(g, func(ins ssa.Instruction) {
				if callField[ins] != nil {
					hit = true
				}
				if v, ok := ins.(ssa.Value); ok {
					if hf, _ := m.holderField(v); hf != nil {
						hit = true
					}
					if isBoolT(v.Type()) && (mismatch(v, true) || mismatch(v, false)) {
						hit = true
					}
				}
				if cl, ok := ins.(*ssa.Call); ok && cl.Call.StaticCallee() == nil && !cl.Call.IsInvoke() && cl.Call.Signature().Params().Len() == 0 && cl.Call.Signature().Results().Len() == 0 {
					if _, b := cl.Call.Value.(*ssa.Builtin); !b {
						hit = true
					}
				}
			})
		}
		rel[f] = hit
		return hit
	}
	e := &esp{p: p, max: 1000000}
	e.keep = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsBoolean|types.IsInteger) != 0
		case *types.Signature:
			return true
		case *types.Slice:
			_, ok := u.Elem().Underlying().(*types.Signature)
			return ok
		case *types.Struct:
			n := namedOf(t)
			return n == nil || n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == rtTrap
		}
		return false
	}
	e.inline = func(f *ssa.Function) bool {
		pk := fnPkg(f)
		return pk != nil && pk.Path() == rtTrap && p.inRepo[f] && relevant(f)
	}
	e.load = func(st *estate, v ssa.Value) (aval, bool) {
		f, _ := m.holderField(v)
		if f == nil || !isFuncField(f) {
			return aval{}, false
		}
		id := e.id(v)
		if m.isMock(f) {
			s := "!m" + id
			e.fresh(st, s)
			st.add("mocks", s)
			return avSym(s), true
		}
		s := "h" + id
		e.fresh(st, s)
		return avSym(s), true
	}
	m.preLoops = nil
	loopTest := map[ssa.Instruction]string{}
	for _, hc := range calls {
		if hc.ins.Common().Signature().Results().Len() != 2 || m.isMock(hc.field) {
			continue
		}
		for _, pl := range m.loopsCalling(hc.ins, 0) {
			id := fmt.Sprintf("%d", len(m.preLoops))
			m.preLoops = append(m.preLoops, pl)
			h := pl.head
			if br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
				if ci, ok := br.Cond.(ssa.Instruction); ok {
					loopTest[ci] = id
				}
			}
		}
	}
	d := m.depthModel()
	e.cond = func(st *estate, cond ssa.Value, pol bool) {
		if mismatch(cond, pol) {
			st.set("mismatch", "1")
		}
		if p.implies(cond, pol, m.unregistered, 0) {
			st.set("nodata", "1")
		}
		if d.nested(cond, pol) {
			st.set("deep", "1")
		}
		if ci, ok := cond.(ssa.Instruction); ok && !m.readsRegistry(ci.Parent()) {
			for _, f := range m.RegFields {
				f := f
				if p.implies(cond, pol, func(c ssa.Value, pol bool) bool { return m.saysEmpty(c, pol, f) }, 0) {
					st.add("empty", f.Name())
				}
			}
		}
		if inspecting(cond, pol) {
			st.set("inspecting", "1")
		}
	}
	e.instr = func(st *estate, ins ssa.Instruction) {
		if id, ok := loopTest[ins]; ok {
			st.add("visited", id)
		}
		if mc, ok := ins.(*ssa.MakeClosure); ok && postClosure[mc.Fn.(*ssa.Function)] {
			st.add("sched", "c"+e.id(mc))
			if st.get("stopped") != "" {
				st.set("schedStopped", "1")
			}
		}
	}
	e.call = func(e *esp, st *estate, ins ssa.CallInstruction, fv aval, args []aval) []*estate {
		if fv.k == 'C' && fv.mc != nil && postClosure[fv.fn] {
			st.add("ran", "c"+e.id(fv.mc))
			if st.get("called") == "" && st.get("stopped") == "" {
				st.set("ranEarly", "1")
			}
			return []*estate{st}
		}
		if fv.k == 'E' {
			for _, id := range splitIDs(fv.s) {
				st.add("ran", id)
			}
			if st.get("called") == "" && st.get("stopped") == "" {
				st.set("ranEarly", "1")
			}
			return []*estate{st}
		}
		f := callField[ins]
		if f == nil {
			return nil
		}
		res := ins.Common().Signature().Results()
		switch {
		case m.isMock(f):
			if st.get("called") != "" {
				st.set("called", "2")
			} else {
				st.set("called", "1")
			}
			if st.get("ranEarly") != "" {
				st.set("early", "1")
			}
			if res.Len() == 1 && isBoolT(res.At(0).Type()) {
				o := st.clone()
				e.setResult(st, ins, 0, avTrue)
				st.set("said", "T")
				e.setResult(o, ins, 0, avFalse)
				o.set("said", "F")
				return []*estate{st, o}
			}
			return []*estate{st}
		case res.Len() == 2:
			if st.get("called") != "" {
				st.set("late", "1")
			}
			if st.get("stopped") != "" {
				st.set("preStopped", "1")
			}
			o := st.clone()
			e.setResult(st, ins, 0, aval{})
			e.setResult(o, ins, 0, aval{})
			e.setResult(st, ins, 1, avTrue)
			st.set("stopped", "1")
			e.setResult(o, ins, 1, avFalse)
			return []*estate{st, o}
		}
		return []*estate{st}
	}
	for _, k := range []string{"func", "var", "varptr"} {
		tf := m.TrapFns[k]
		e.steps = 0
		exits := e.Exec(tf, newState(), nil, nil)
		if e.overflow {
			c.Viol(rule, "-", shortFn(tf), "the dispatch is too complex to decide")
			return
		}
		c.Count("dispatch paths", len(exits))
		for _, ex := range exits {
			c.Obl(rule, k+" trap ending at "+c.Pos(p, ex.ret.Pos()))
			if len(ex.res) == 0 || ex.res[0].k == 'N' {
				visit(k, tf, dispatchEnd{ex.st, ex.ret.Pos(), ex.res})
				continue
			}
			if ex.res[0].k != 'C' {
				if len(splitIDs(ex.st.get("sched"))) > 0 {
					c.Viol("post-run", c.Pos(p, ex.ret.Pos()), shortFn(tf), "what is returned for running the post callbacks is unknown")
				}
				visit(k, tf, dispatchEnd{ex.st, ex.ret.Pos(), ex.res})
				continue
			}
			for _, ex2 := range e.Exec(ex.res[0].fn, ex.st, nil, e.Binds(ex.res[0])) {
				visit(k, tf, dispatchEnd{ex2.st, ex.ret.Pos(), ex.res})
			}
		}
	}
}

func checkR13(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("applied", "a mock found for the target is called on every path of the dispatch, unless a pre callback asked to stop or it is bound to another instance")
	c.Rule("once", "a mock is called at most once in one dispatch, and never after a pre callback asked to stop")
	c.Rule("decides", "whether the original function runs is what the mock (or a stopping pre callback) said, and only that")
	c.Rule("after-pre", "pre callbacks run before the mock, post callbacks after it")
	seen := map[string]map[string]int{}
	m.eachDispatch(c, "applied", func(k string, tf *ssa.Function, fin dispatchEnd) {
		st := fin.st
		if seen[k] == nil {
			seen[k] = map[string]int{}
		}
		at := c.Pos(p, fin.at)
		if fin.at == token.NoPos {
			at = c.Pos(p, tf.Pos())
		}
		stopped, called := st.get("stopped") != "" && k == "func", st.get("called")
		for _, s := range splitIDs(st.get("mocks")) {
			isNil, known := st.facts["nil:"+s]
			if known && isNil {
				continue
			}
			seen[k]["mock"]++
			if called == "" && !stopped && st.get("mismatch") == "" {
				c.Viol("applied", at, shortFn(tf), "the dispatch may end here with a mock set that was not called")
			}
		}
		if called == "2" {
			c.Viol("once", at, shortFn(tf), "a mock may be called twice for one call")
		}
		if called != "" && stopped {
			c.Viol("once", at, shortFn(tf), "the mock may be called although a pre callback asked to stop")
		}
		if st.get("early") != "" {
			c.Viol("after-pre", at, shortFn(tf), "a post callback may run before the mock")
		}
		if st.get("late") != "" {
			c.Viol("after-pre", at, shortFn(tf), "a pre callback may run after the mock")
		}
		if called != "" {
			seen[k]["called"]++
		}
		if k != "func" || len(fin.res) < 2 {
			return
		}
		c.Obl("decides", "func trap ending at "+at)
		want := byte('F')
		why := "the original function may be skipped though neither a mock nor a pre callback said so"
		switch {
		case st.get("inspecting") != "":
			want = 'T'
			why = "xgo's own probe runs the function probed"
		case stopped:
			want = 'T'
			why = "the original function may run although a pre callback asked to stop"
		case called != "":
			want = st.get("said")[0]
			why = "whether the original function runs is not what the mock said"
		}
		if fin.res[1].k != want {
			c.Viol("decides", at, shortFn(tf), "%s", why)
		}
	})
	for _, k := range []string{"func", "var", "varptr"} {
		if seen[k]["mock"] == 0 {
			c.Viol("applied", "-", k, "the %s trap looks up no mock", k)
		}
		if seen[k]["called"] == 0 {
			c.Viol("applied", "-", k, "the %s trap calls no mock", k)
		}
	}
	c.Floor("decides", 2)
}

// preLoop: a loop running the pre callbacks of a list of registrations.
type preLoop struct {
	head   *ssa.BasicBlock
	fields map[*types.Var]bool
}

// loopsCalling: the innermost loops running ins, in its function or in the
// callers of it.
func (m *RTModel) loopsCalling(ins ssa.Instruction, depth int) []preLoop {
	if h := loopOf(ins.Block()); h != nil {
		pl := preLoop{nil, map[*types.Var]bool{}}
		for _, b := range ins.Parent().Blocks {
			if !inLoop(b, h) {
				continue
			}
			for _, i := range b.Instrs {
				if ia, ok := i.(*ssa.IndexAddr); ok && m.isHolderList(ia.X.Type()) {
					for f := range m.listOf(ia.X) {
						pl.fields[f] = true
					}
					if _, _, t := loopRangeTest(m.p, ia.Index); t != nil {
						pl.head = t
					}
				}
			}
		}
		if pl.head == nil {
			return nil
		}
		return []preLoop{pl}
	}
	if depth > 3 {
		return nil
	}
	var out []preLoop
	sites, _ := m.p.CallSitesOf(ins.Parent())
	for _, s := range sites {
		out = append(out, m.loopsCalling(s.ins, depth+1)...)
	}
	return out
}

// readsRegistry: fn itself reads a list out of the registry.
func (m *RTModel) readsRegistry(fn *ssa.Function) bool {
	hit := false
	eachInstr(fn, func(ins ssa.Instruction) {
		if v, ok := ins.(ssa.Value); ok {
			if f, _ := m.regField(v); f != nil {
				hit = true
			}
		}
	})
	return hit
}

// unregistered: the goroutine has no usable stack, or no data.
func (m *RTModel) unregistered(cond ssa.Value, pol bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
		return false
	}
	n := namedOf(b.X.Type())
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == rtStack
}

// nested: the trapping depth is above the outermost.
func (d *depthModel) nested(cond ssa.Value, pol bool) bool {
	x, op, k, ok := normCompare(cond, pol)
	if !ok || !(op == token.GTR && k == 1 || op == token.GEQ && k == 2 || op == token.NEQ && k == 1) {
		return false
	}
	os := d.m.p.Origins(x, originOpts{noCalls: true})
	for _, o := range os {
		cl, ok := o.Val.(*ssa.Call)
		if !ok || !d.isInc(cl) {
			return false
		}
	}
	return len(os) > 0
}

// saysEmpty: there is no registration in the list of kind f.
func (m *RTModel) saysEmpty(cond ssa.Value, pol bool, f *types.Var) bool {
	x, op, k, ok := normCompare(cond, pol)
	if !ok || !(op == token.EQL && k == 0 || op == token.LEQ && k == 0 || op == token.LSS && k == 1) {
		return false
	}
	var in func(x ssa.Value, d int) bool
	in = func(x ssa.Value, d int) bool {
		if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && d < 8 {
			return in(b.X, d+1) || in(b.Y, d+1)
		}
		l := lenArg(x)
		return l != nil && m.listOf(l)[f]
	}
	return in(x, 0)
}
