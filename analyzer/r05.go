package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R05"] = propDef{run: checkR05, assumptions: []string{
		"the depth counter itself (patched into the Go runtime) counts per goroutine; its shape is checked by R10/R12",
	}}
	props["R06"] = propDef{run: checkR06}
	props["R13"] = propDef{run: checkR13}
}

const (
	incName = "IncTrappingDepth"
	decName = "DecTrappingDepth"
)

// depthFns: functions whose net effect is +1 or -1 on the trapping depth.
type depthModel struct {
	m        *RTModel
	inc, dec map[*ssa.Function]bool
}

func (m *RTModel) depthModel() *depthModel {
	d := &depthModel{m, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
	for _, fn := range m.p.Funcs {
		if pk := fnPkg(fn); pk != nil && pk.Path() == rtLink {
			if fn.Name() == incName {
				d.inc[fn] = true
			}
			if fn.Name() == decName {
				d.dec[fn] = true
			}
		}
	}
	// wrappers
	for changed := true; changed; {
		changed = false
		for _, fn := range m.p.FuncsIn(func(s string) bool { return strings.HasPrefix(s, rtMod+"/internal/") && s != rtLink }) {
			if d.inc[fn] || d.dec[fn] || m.TrapFns["func"] == fn || m.TrapFns["var"] == fn || m.TrapFns["varptr"] == fn {
				continue
			}
			ni, nd, other := 0, 0, 0
			eachInstr(fn, func(ins ssa.Instruction) {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					return
				}
				if _, isDefer := ins.(*ssa.Defer); isDefer {
					other++
					return
				}
				switch {
				case d.isInc(c):
					ni++
				case d.isDec(c):
					nd++
				default:
					if f := c.Common().StaticCallee(); f == nil || fnPkg(f) == nil || fnPkg(f).Path() != rtLink && !strings.HasSuffix(fnPkg(f).Path(), "/stack") {
						other++
					}
				}
			})
			if other == 0 && ni == 1 && nd == 0 && len(fn.Blocks) == 1 {
				d.inc[fn] = true
				changed = true
			}
			if other == 0 && nd == 1 && ni == 0 && len(fn.Blocks) == 1 {
				d.dec[fn] = true
				changed = true
			}
		}
	}
	return d
}

func (d *depthModel) isInc(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && d.inc[f]
}
func (d *depthModel) isDec(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && d.dec[f]
}

// deferredDec: a defer of Dec or of a closure calling Dec unconditionally.
func (d *depthModel) deferredDec(ins ssa.Instruction) bool {
	df, ok := ins.(*ssa.Defer)
	if !ok {
		return false
	}
	if d.isDec(df) {
		return true
	}
	for _, f := range d.m.p.FuncValues(df.Call.Value) {
		if len(f.Blocks) == 0 {
			continue
		}
		hit := false
		eachInstr(f, func(i ssa.Instruction) {
			if c, ok := i.(*ssa.Call); ok && d.isDec(c) && i.Block() == f.Blocks[0] {
				hit = true
			}
		})
		if hit {
			return true
		}
	}
	return false
}

// within: ins executes with the depth raised by its own function, or by
// every caller.
func (d *depthModel) within(ins ssa.Instruction, busy map[*ssa.Function]bool) bool {
	fn := ins.Parent()
	isIncCall := func(i ssa.Instruction) bool {
		c, ok := i.(*ssa.Call)
		return ok && d.isInc(c)
	}
	if alwaysBefore(ins, isIncCall) {
		// no direct Dec in between
		bad := false
		eachInstr(fn, func(i ssa.Instruction) {
			if c, ok := i.(*ssa.Call); ok && d.isDec(c) && mayFollow(i, ins) {
				bad = true
			}
		})
		if !bad {
			return true
		}
	}
	if busy[fn] {
		return true
	}
	busy[fn] = true
	defer delete(busy, fn)
	sites, complete := d.m.p.CallSitesOf(fn)
	if fn.Parent() != nil && (!complete || len(sites) == 0) {
		// handed around as a plain func(): every dynamic call of that type
		// in the package
		return d.dynamicCallsWithin(fn, busy)
	}
	if !complete || len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		if !d.within(s.ins, busy) {
			return false
		}
	}
	return true
}

func (d *depthModel) dynamicCallsWithin(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	n := 0
	for _, g := range d.m.dispatchFns() {
		ok := true
		eachInstr(g, func(ins ssa.Instruction) {
			c, is := ins.(ssa.CallInstruction)
			if !is || c.Common().IsInvoke() || c.Common().StaticCallee() != nil {
				return
			}
			if _, b := c.Common().Value.(*ssa.Builtin); b {
				return
			}
			if !types.Identical(c.Common().Value.Type().Underlying(), fn.Signature) {
				return
			}
			n++
			if !d.within(ins, busy) {
				ok = false
			}
		})
		if !ok {
			return false
		}
	}
	return n > 0
}

func (m *RTModel) dispatchFns() []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range m.TrapFns {
		roots = append(roots, f)
	}
	reach := m.p.Reach(roots, func(f *ssa.Function) bool { return fnPkg(f) == nil || fnPkg(f).Path() != rtTrap })
	var out []*ssa.Function
	for _, f := range m.p.Funcs {
		if reach[f] {
			out = append(out, f)
		}
	}
	return out
}

// dataCallbacks: calls of function-typed fields of the per-goroutine data.
func (m *RTModel) dataCallbacks() []handlerCall {
	var out []handlerCall
	for _, fn := range m.dispatchFns() {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok || cl.Common().IsInvoke() || cl.Common().StaticCallee() != nil {
				return
			}
			for _, o := range m.p.Origins(cl.Common().Value, originOpts{}) {
				u, ok := o.Val.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if ok && namedOf(fa.X.Type()) == m.Data {
					out = append(out, handlerCall{cl, fieldVar(fa.X.Type(), fa.Field), nil})
				}
			}
		})
	}
	return out
}

func checkR05(c *Ctx) {
	m := c.rtModel()
	p := m.p
	d := m.depthModel()
	c.Rule("paired", "wherever the trapping depth is raised, its lowering is deferred before anything that could panic or return")
	c.Rule("within", "user callbacks (mock, pre, post, trace filter) only run with the trapping depth raised")
	c.Rule("outermost", "general interceptors, the trace filter and trace recording only happen at the outermost depth")
	c.Rule("returned", "a post callback handed to the instrumented function raises the depth itself before running user code")
	if len(d.inc) == 0 || len(d.dec) == 0 {
		c.Viol("paired", "-", "depth", "the functions raising and lowering the trapping depth were not found")
		return
	}
	for _, fn := range p.FuncsIn(func(s string) bool { return strings.HasPrefix(s, rtMod) && s != rtLink }) {
		if d.inc[fn] || d.dec[fn] {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok || !d.isInc(cl) {
				return
			}
			c.Obl("paired", shortFn(fn)+" at "+c.Pos(p, ins.Pos()))
			isDone := func(i ssa.Instruction) bool {
				if d.deferredDec(i) {
					return true
				}
				cc, ok := i.(*ssa.Call)
				return ok && d.isDec(cc)
			}
			exits := func(i ssa.Instruction) bool {
				switch x := i.(type) {
				case *ssa.Return, *ssa.Panic:
					return true
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					if f != nil && fnPkg(f) != nil && (fnPkg(f).Path() == rtLink || fnPkg(f).Path() == rtStack) {
						return false
					}
					if _, b := x.Common().Value.(*ssa.Builtin); b {
						return false
					}
					return true
				}
				return false
			}
			if bad := alwaysAfter(ins, isDone, exits); bad != nil {
				c.Viol("paired", c.Pos(p, ins.Pos()), shortFn(fn), "the trapping depth may stay raised: %s can be reached before its lowering is scheduled", c.Pos(p, bad.Pos()))
			}
		})
	}
	c.Floor("paired", 1)
	// a lowering without raising
	for _, fn := range p.FuncsIn(func(s string) bool { return strings.HasPrefix(s, rtMod) && s != rtLink }) {
		if d.dec[fn] || d.inc[fn] {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			cc, ok := ins.(ssa.CallInstruction)
			if !ok || !d.isDec(cc) {
				return
			}
			isIncCall := func(i ssa.Instruction) bool {
				x, ok := i.(*ssa.Call)
				return ok && d.isInc(x)
			}
			if alwaysBefore(ins, isIncCall) {
				return
			}
			if fn.Parent() != nil {
				// deferred closure: raised in the parent
				ok := false
				for _, mc := range p.closures[fn] {
					if alwaysBefore(mc, isIncCall) {
						ok = true
					}
				}
				if len(p.closures[fn]) == 0 {
					for _, u := range p.valueUses[fn] {
						if alwaysBefore(u, isIncCall) {
							ok = true
						}
					}
				}
				if ok {
					return
				}
			}
			c.Viol("paired", c.Pos(p, ins.Pos()), shortFn(fn), "the trapping depth is lowered without having been raised")
		})
	}

	calls := append(m.handlerCalls(), m.dataCallbacks()...)
	for _, hc := range calls {
		if m.inCreate()[hc.ins.Parent()] {
			continue
		}
		construct := shortFn(hc.ins.Parent()) + " " + hc.field.Name()
		c.Obl("within", construct+" at "+c.Pos(p, hc.ins.Pos()))
		if strings.Contains(hc.field.Name(), "inspecting") {
			continue // xgo's own probe, not user code
		}
		if !d.within(hc.ins, map[*ssa.Function]bool{}) {
			c.Viol("within", c.Pos(p, hc.ins.Pos()), construct, "user code may run without the trapping depth raised: an instrumented call inside it traps again")
		}
	}
	c.Floor("within", 4)

	outer := func(cond ssa.Value, pol bool) bool {
		x, op, k, ok := normCompare(cond, pol)
		if !ok {
			return false
		}
		isDepth := false
		for _, o := range p.Origins(x, originOpts{noCalls: true}) {
			if cl, ok := o.Val.(*ssa.Call); ok && d.isInc(cl) {
				isDepth = true
			} else {
				return false
			}
		}
		if !isDepth {
			return false
		}
		return op == token.LEQ && k == 1 || op == token.LSS && k == 2 || op == token.EQL && k == 1
	}
	nGen := 0
	for _, fn := range m.dispatchFns() {
		eachInstr(fn, func(ins ssa.Instruction) {
			// reads of the unkeyed list
			if u, ok := ins.(*ssa.UnOp); ok {
				if f, _ := m.regField(u); f != nil {
					if _, isMap := f.Type().Underlying().(*types.Map); !isMap {
						nGen++
						c.Obl("outermost", shortFn(fn)+" reads "+f.Name()+" at "+c.Pos(p, ins.Pos()))
						if !p.Guarded(ins, outer) {
							c.Viol("outermost", c.Pos(p, ins.Pos()), shortFn(fn)+" "+f.Name(), "general interceptors may run inside a callback: they would trap themselves without end")
						}
					}
				}
			}
			if cl, ok := ins.(*ssa.Call); ok {
				f := cl.Call.StaticCallee()
				if f != nil && fnPkg(f) != nil && fnPkg(f).Path() == rtStack && pushesEntry(p, f) {
					c.Obl("outermost", shortFn(fn)+" records at "+c.Pos(p, ins.Pos()))
					if !p.Guarded(ins, outer) {
						c.Viol("outermost", c.Pos(p, ins.Pos()), shortFn(fn)+" "+f.Name(), "a call made by a callback may be recorded in the trace")
					}
				}
			}
		})
	}
	if nGen == 0 {
		c.Viol("outermost", "-", "interceptors", "no read of the general interceptors found")
	}
	for _, hc := range m.dataCallbacks() {
		if hc.ins.Common().Signature().Results().Len() != 1 {
			continue // only the filter
		}
		c.Obl("outermost", shortFn(hc.ins.Parent())+" calls "+hc.field.Name()+" at "+c.Pos(p, hc.ins.Pos()))
		if !p.Guarded(hc.ins, outer) {
			c.Viol("outermost", c.Pos(p, hc.ins.Pos()), shortFn(hc.ins.Parent())+" "+hc.field.Name(), "the trace filter may be asked about calls it makes itself: unbounded recursion")
		}
	}

	// returned post callbacks
	tf := m.TrapFns["func"]
	for _, r := range returnsOf(tf) {
		for _, o := range p.Origins(r.Results[0], originOpts{}) {
			if isNilConst(o.Val) {
				continue
			}
			c.Obl("returned", shortFn(tf)+" return at "+c.Pos(p, r.Pos()))
			var f *ssa.Function
			switch x := o.Val.(type) {
			case *ssa.MakeClosure:
				f = x.Fn.(*ssa.Function)
			case *ssa.Function:
				f = x
			default:
				c.Viol("returned", c.Pos(p, r.Pos()), shortFn(tf), "a post callback of unknown origin is returned")
				continue
			}
			eachInstr(f, func(ins ssa.Instruction) {
				cl, ok := ins.(*ssa.Call)
				if !ok || cl.Call.IsInvoke() || cl.Call.StaticCallee() != nil {
					return
				}
				if _, b := cl.Call.Value.(*ssa.Builtin); b {
					return
				}
				if !d.within(ins, map[*ssa.Function]bool{f: false}) || !alwaysBefore(ins, func(i ssa.Instruction) bool {
					c, ok := i.(*ssa.Call)
					return ok && d.isInc(c)
				}) {
					c.Viol("returned", c.Pos(p, r.Pos()), shortFn(tf), "the post callback returned runs user code without raising the trapping depth")
				}
			})
		}
	}
	c.Floor("returned", 1)
}

// pushesEntry: f stores into the tree's top field (it adds an entry).
func pushesEntry(p *Prog, f *ssa.Function) bool {
	for g := range p.Reach([]*ssa.Function{f}, func(g *ssa.Function) bool { return fnPkg(g) == nil || fnPkg(g).Path() != rtStack }) {
		hit := false
		eachInstr(g, func(ins ssa.Instruction) {
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), rtStack, "Stack") {
					if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && isListOfEntries(fv.Type()) {
						hit = true
					}
				}
			}
		})
		if hit {
			return true
		}
	}
	return false
}

func isListOfEntries(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(sl.Elem(), rtStack, "Entry")
}

// ------------------------------------------------------------------ R06

// stopAtom: a pre callback asked to stop.
func (m *RTModel) stopAtom() atomMatch {
	pres := map[ssa.Value]bool{}
	for _, hc := range m.handlerCalls() {
		if v := hc.ins.Value(); v != nil && hc.ins.Common().Signature().Results().Len() == 2 {
			pres[v] = true
		}
	}
	return func(cond ssa.Value, pol bool) bool {
		ex, ok := cond.(*ssa.Extract)
		return ok && pol && ex.Index == 1 && pres[ex.Tuple]
	}
}

func fieldNilAtom(m *RTModel, f *types.Var) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if !isNilConst(pr[1]) {
				continue
			}
			for _, o := range m.p.Origins(pr[0], originOpts{}) {
				if hf, _ := m.holderField(o.Val); hf == f {
					return true
				}
			}
		}
		return false
	}
}

// mismatchAtom: the receiver called is not the instance asked for.
func (m *RTModel) mismatchAtom(rf *types.Var) atomMatch {
	trapRecv := m.TrapFns["func"].Params[1]
	isWant := func(v ssa.Value) bool { f, _ := m.holderField(v); return f == rf }
	return func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
			return false
		}
		if isNilConst(b.X) || isNilConst(b.Y) {
			if (b.Op == token.EQL) != pol {
				return false
			}
			x := b.X
			if isNilConst(b.X) {
				x = b.Y
			}
			os := m.p.Origins(x, originOpts{})
			return len(os) == 1 && os[0].Val == ssa.Value(trapRecv)
		}
		if (b.Op == token.EQL) == pol || !types.IsInterface(b.X.Type()) {
			return false
		}
		return m.sliceHas(b.X, isWant) || m.sliceHas(b.Y, isWant)
	}
}

func anyAtom(l ...atomMatch) atomMatch {
	return func(c ssa.Value, pol bool) bool {
		for _, a := range l {
			if a(c, pol) {
				return true
			}
		}
		return false
	}
}

func (p *Prog) excused(a atomMatch) func(*ssa.BasicBlock, int) bool {
	return func(b *ssa.BasicBlock, i int) bool { return p.edgeHolds(b, i, a, 0) }
}

func checkR06(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("own-data", "a post callback deferred from a loop over registrations captures that iteration's own registration and data")
	c.Rule("all-visited", "a dispatch loop visits every registration of its list, leaving early only when a pre callback asked to stop")
	c.Rule("pre-run", "each visited registration's pre callback runs, unless it has none or is bound to another instance")
	c.Rule("post-scheduled", "each visited registration's post callback is scheduled, unless it has none, is bound to another instance or its pre asked to stop")
	c.Rule("post-run", "every scheduled post callback is run")
	c.Rule("post-data", "a post callback gets the data its own pre callback returned")
	c.Rule("same-call", "callbacks see the receiver, arguments and results of the call being dispatched")
	c.Rule("pre-post", "a callback given as pre is installed as pre, one given as post as post")

	stop := m.stopAtom()
	create := m.inCreate()
	dispatch := m.dispatchFns()

	// own-data
	for _, fn := range p.FuncsIn(func(s string) bool { return strings.HasPrefix(s, rtMod+"/internal/trap") }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok {
				return
			}
			h := loopOf(mc.Block())
			if h == nil || !closureEscapes(mc) {
				return
			}
			c.Obl("own-data", shortFn(mc.Fn.(*ssa.Function))+" at "+c.Pos(p, mc.Pos()))
			for i, b := range mc.Bindings {
				a, ok := b.(*ssa.Alloc)
				if !ok || inLoop(a.Block(), h) {
					continue
				}
				for _, st := range p.cellStoreInstrs(a) {
					if st.Parent() == fn && inLoop(st.Block(), h) {
						c.Viol("own-data", c.Pos(p, mc.Fn.Pos()), shortFn(mc.Fn.(*ssa.Function)), "the closure outlives the iteration but captures %s, which every iteration overwrites", mc.Fn.(*ssa.Function).FreeVars[i].Name())
						break
					}
				}
			}
		})
	}
	c.Floor("own-data", 1)

	// all-visited
	for _, fn := range dispatch {
		if create[fn] {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			ia, ok := ins.(*ssa.IndexAddr)
			if !ok || !m.isHolderList(ia.X.Type()) {
				return
			}
			isMockList := false
			for f := range m.listOf(ia.X) {
				if m.isMock(f) {
					isMockList = true
				}
			}
			if isMockList {
				return
			}
			// stores into a merged list are not visits
			if onlyStored(ia) {
				return
			}
			construct := shortFn(fn) + " over " + elemName(ia)
			c.Obl("all-visited", construct+" at "+c.Pos(p, ia.Pos()))
			if !loopCoversAll(p, ia.Index) {
				c.Viol("all-visited", c.Pos(p, ia.Pos()), construct, "the loop does not go over the whole list")
				return
			}
			if _, l := loopRange(p, ia.Index); l != nil && !sameSource(p, l, ia.X) {
				c.Viol("all-visited", c.Pos(p, ia.Pos()), construct, "the loop is bounded by another list's length")
			}
			if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
				c.Viol("all-visited", c.Pos(p, ia.Pos()), construct, "only a part of the list is visited")
			}
			h := loopOf(ia.Block())
			if h == nil {
				return
			}
			for _, b := range fn.Blocks {
				if b == h || !inLoop(b, h) {
					continue
				}
				for i, s := range b.Succs {
					if inLoop(s, h) || endsInPanic(s) {
						continue
					}
					if p.edgeHolds(b, i, stop, 0) || p.blockGuarded(b, stop, 0) {
						continue
					}
					c.Viol("all-visited", c.Pos(p, ia.Pos()), construct, "the loop may be left before the end of the list though no callback asked to stop")
				}
				if len(b.Succs) == 0 {
					if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && !p.blockGuarded(b, stop, 0) {
						c.Viol("all-visited", c.Pos(p, ia.Pos()), construct, "the loop may be left before the end of the list though no callback asked to stop")
					}
				}
			}
		})
	}
	c.Floor("all-visited", 2)

	// pre-run / post-scheduled
	calls := m.handlerCalls()
	seenKinds := map[string]int{}
	for _, hc := range calls {
		fn := hc.ins.Parent()
		h := holderOfField(m, hc.field)
		if m.isMock(hc.field) {
			continue
		}
		isPre := hc.ins.Common().Signature().Results().Len() == 2
		excuses := []atomMatch{fieldNilAtom(m, hc.field)}
		if rf := recvField(h); rf != nil {
			excuses = append(excuses, m.mismatchAtom(rf))
		}
		construct := shortFn(fn) + " " + h.Obj().Name() + "." + hc.field.Name()
		if isPre {
			seenKinds[h.Obj().Name()+".pre"]++
			c.Obl("pre-run", construct+" at "+c.Pos(p, hc.ins.Pos()))
			if loopOf(hc.ins.Block()) == nil {
				c.Note("pre call outside a loop at %s", c.Pos(p, hc.ins.Pos()))
				if !m.calledPerElement(fn, hc.ins, anyAtom(excuses...)) {
					c.Viol("pre-run", c.Pos(p, hc.ins.Pos()), construct, "the pre callback is not run for every registration")
				}
				continue
			}
			if skipsIterationUnless(hc.ins, p.excused(anyAtom(excuses...))) {
				c.Viol("pre-run", c.Pos(p, hc.ins.Pos()), construct, "a registration's pre callback may be skipped")
			}
			continue
		}
		seenKinds[h.Obj().Name()+".post"]++
		// post: called in a closure made in the loop, or directly in a loop
		c.Obl("post-scheduled", construct+" at "+c.Pos(p, hc.ins.Pos()))
		excuses = append(excuses, stop)
		if fn.Parent() == nil || len(p.closures[fn]) == 0 {
			if loopOf(hc.ins.Block()) != nil && skipsIterationUnless(hc.ins, p.excused(anyAtom(excuses...))) {
				c.Viol("post-scheduled", c.Pos(p, hc.ins.Pos()), construct, "a registration's post callback may be skipped")
			}
			continue
		}
		if !p.blockGuarded(hc.ins.Block(), fieldNilAtom(m, hc.field), 0) && hc.ins.Block() != fn.Blocks[0] && len(fn.Blocks) > 1 {
			// conditional inside the closure: only on post being set
			if !onlyUnder(p, hc.ins, func(cond ssa.Value, pol bool) bool { return fieldNilAtom(m, hc.field)(cond, !pol) }) {
				c.Viol("post-scheduled", c.Pos(p, hc.ins.Pos()), construct, "a scheduled post callback may do nothing")
			}
		}
		for _, mc := range p.closures[fn] {
			if loopOf(mc.Block()) == nil {
				if !m.calledPerElement(mc.Parent(), mc, anyAtom(excuses...)) {
					c.Viol("post-scheduled", c.Pos(p, mc.Pos()), construct, "the post callback is not scheduled for every registration")
				}
				continue
			}
			if skipsIterationUnless(mc, p.excused(anyAtom(excuses...))) {
				c.Viol("post-scheduled", c.Pos(p, mc.Pos()), construct, "a registration's post callback may not be scheduled")
			}
			if !appended(p, mc) {
				c.Viol("post-scheduled", c.Pos(p, mc.Pos()), construct, "the post callback is not kept")
			}
		}
		// post-data: last argument
		args := hc.ins.Common().Args
		c.Obl("post-data", construct+" at "+c.Pos(p, hc.ins.Pos()))
		fromPre := false
		for _, o := range p.Origins(args[len(args)-1], originOpts{noCalls: true}) {
			if ex, ok := o.Val.(*ssa.Extract); ok && ex.Index == 0 {
				if cl, ok := ex.Tuple.(*ssa.Call); ok && isHandlerCall(calls, cl) {
					fromPre = true
					continue
				}
			}
			if isNilConst(o.Val) {
				continue
			}
			if _, isA := o.Val.(*ssa.UnOp); isA {
				continue // zero value of the variable
			}
			c.Viol("post-data", c.Pos(p, hc.ins.Pos()), construct, "the post callback gets data its pre callback did not return")
		}
		if !fromPre {
			c.Viol("post-data", c.Pos(p, hc.ins.Pos()), construct, "the post callback does not get the data its pre callback returned")
		}
	}
	for h := range m.Holders {
		st := h.Underlying().(*types.Struct)
		nf := 0
		for i := 0; i < st.NumFields(); i++ {
			if isFuncField(st.Field(i)) {
				nf++
			}
		}
		if nf < 2 {
			continue
		}
		for _, k := range []string{".pre", ".post"} {
			if seenKinds[h.Obj().Name()+k] == 0 {
				c.Viol(strings.TrimPrefix(k, ".")+"-run", "-", h.Obj().Name()+k, "no call of this callback was found")
			}
		}
	}

	// post-run: func() elements of lists
	lists := 0
	for _, fn := range dispatch {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok || cl.Call.IsInvoke() || cl.Call.StaticCallee() != nil {
				return
			}
			for _, o := range p.Origins(cl.Call.Value, originOpts{noParams: true}) {
				u, ok := o.Val.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				ia, ok := u.X.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				construct := shortFn(fn) + " runs " + ia.X.Type().String()
				c.Obl("post-run", construct+" at "+c.Pos(p, cl.Pos()))
				if k, isC := constInt(ia.Index); isC {
					one := func(cond ssa.Value, pol bool) bool {
						l, op, kk, ok := lenCompare(cond, pol)
						return ok && k == 0 && (op == token.EQL && kk == 1 || op == token.LEQ && kk == 1 || op == token.LSS && kk == 2) && sameSource(p, l, ia.X)
					}
					if !p.originGuarded(o, ia, one) {
						c.Viol("post-run", c.Pos(p, cl.Pos()), construct, "only one of possibly several scheduled callbacks is run")
					}
					continue
				}
				lists++
				if ok, _ := loopWhole(p, ia.Index, nil); !ok {
					c.Viol("post-run", c.Pos(p, cl.Pos()), construct, "the loop does not run every scheduled callback")
				} else if skipsIteration(ins) {
					c.Viol("post-run", c.Pos(p, cl.Pos()), construct, "a scheduled callback may be skipped")
				}
			}
		})
	}
	if lists == 0 {
		c.Viol("post-run", "-", "post", "no loop running the scheduled callbacks was found")
	}
	// what is scheduled in a dispatch is run by it, or by what it returns
	seenLoop := map[string]map[string]bool{}
	var ends []struct {
		k   string
		tf  *ssa.Function
		fin dispatchEnd
	}
	m.eachDispatch(c, "post-run", func(k string, tf *ssa.Function, fin dispatchEnd) {
		ends = append(ends, struct {
			k   string
			tf  *ssa.Function
			fin dispatchEnd
		}{k, tf, fin})
		if seenLoop[k] == nil {
			seenLoop[k] = map[string]bool{}
		}
		for _, id := range splitIDs(fin.st.get("visited")) {
			seenLoop[k][id] = true
		}
		if k == "func" {
			if fin.st.get("preStopped") != "" {
				c.Viol("all-visited", c.Pos(p, fin.at), shortFn(tf), "a pre callback may run although an earlier one asked to stop")
			}
			if fin.st.get("schedStopped") != "" {
				c.Viol("post-scheduled", c.Pos(p, fin.at), shortFn(tf), "the post callback of the registration that asked to stop, or of a later one, may run")
			}
		}
		for _, id := range splitIDs(fin.st.get("sched")) {
			if !fin.st.has("ran", id) {
				c.Viol("post-run", c.Pos(p, fin.at), shortFn(tf), "post callbacks scheduled in the %s trap may never be run", k)
			}
		}
	})

	// every list is gone over, however the dispatch goes
	for _, e := range ends {
		st := e.fin.st
		if st.get("nodata") != "" || st.get("inspecting") != "" || st.get("stopped") != "" {
			continue
		}
		for id := range seenLoop[e.k] {
			if st.has("visited", id) {
				continue
			}
			var i int
			fmt.Sscan(id, &i)
			excused := false
			for f := range m.preLoops[i].fields {
				if st.has("empty", f.Name()) {
					excused = true
				}
				if _, isMap := f.Type().Underlying().(*types.Map); !isMap && st.get("deep") != "" {
					excused = true
				}
			}
			if !excused {
				c.Viol("all-visited", c.Pos(p, e.fin.at), shortFn(e.tf), "the %s trap may end without going over the registrations of %s, though no callback asked to stop", e.k, fieldNames(m.preLoops[i].fields))
			}
		}
	}
	for _, k := range []string{"func", "var", "varptr"} {
		if len(seenLoop[k]) == 0 {
			c.Viol("all-visited", "-", k, "no loop running pre callbacks was found in the %s trap", k)
		}
	}

	// same-call
	tf := m.TrapFns["func"]
	for _, hc := range calls {
		args := hc.ins.Common().Args
		if len(args) < 4 {
			continue
		}
		if !reachableOnlyFrom(m, hc.ins.Parent(), "func") {
			continue
		}
		construct := shortFn(hc.ins.Parent()) + " " + hc.field.Name()
		c.Obl("same-call", construct+" at "+c.Pos(p, hc.ins.Pos()))
		for i := 1; i <= 3; i++ {
			os := p.Origins(args[i], originOpts{})
			for _, o := range os {
				if o.Val != ssa.Value(tf.Params[i]) {
					c.Viol("same-call", c.Pos(p, hc.ins.Pos()), construct, "argument %d given to the callback is not that of the call being dispatched", i)
				}
			}
		}
	}

	// pre-post wiring
	for _, fn := range p.FuncsIn(func(s string) bool {
		return s == rtTrap || s == rtMod+"/trace" || s == rtMod+"/trap" || s == rtMod+"/mock"
	}) {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			callee := cl.Common().StaticCallee()
			if callee == nil || !p.inRepo[callee] {
				return
			}
			sig := callee.Signature
			off := 0
			if sig.Recv() != nil {
				off = 1
			}
			for i := 0; i < sig.Params().Len(); i++ {
				pn := prePost(sig.Params().At(i).Name())
				if pn == "" || i+off >= len(cl.Common().Args) {
					continue
				}
				a := cl.Common().Args[i+off]
				for _, o := range p.Origins(a, originOpts{noParams: true, noCalls: true}) {
					an := ""
					switch x := o.Val.(type) {
					case *ssa.Parameter:
						an = prePost(x.Name())
					case *ssa.FreeVar:
						an = prePost(x.Name())
					case *ssa.UnOp:
						if fa, ok := x.X.(*ssa.FieldAddr); ok {
							an = prePost(fieldVar(fa.X.Type(), fa.Field).Name())
						}
					case *ssa.Field:
						an = prePost(fieldVar(x.X.Type(), x.Field).Name())
					}
					if an == "" {
						continue
					}
					c.Obl("pre-post", shortFn(fn)+" -> "+shortFn(callee)+" "+pn)
					if an != pn {
						c.Viol("pre-post", c.Pos(p, cl.Pos()), shortFn(fn)+" -> "+shortFn(callee), "the %s callback is passed as %s", an, pn)
					}
				}
			}
		})
	}
	c.Floor("pre-post", 4)
}

func prePost(n string) string {
	n = strings.ToLower(n)
	switch {
	case strings.HasPrefix(n, "pre"):
		return "pre"
	case strings.HasPrefix(n, "post"):
		return "post"
	}
	return ""
}

func isHandlerCall(l []handlerCall, v ssa.Value) bool {
	for _, hc := range l {
		if hc.ins.Value() == v {
			return true
		}
	}
	return false
}

func elemName(ia *ssa.IndexAddr) string {
	s := ia.X.Type().String()
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func onlyStored(ia *ssa.IndexAddr) bool {
	if ia.Referrers() == nil {
		return true
	}
	for _, r := range *ia.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
			continue
		}
		return false
	}
	return true
}

func endsInPanic(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// closureEscapes: the closure may be run after the place creating it.
func closureEscapes(mc *ssa.MakeClosure) bool {
	if mc.Referrers() == nil {
		return false
	}
	for _, r := range *mc.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			if x.Call.Value == ssa.Value(mc) {
				continue
			}
			return true
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// appended: the closure is stored somewhere (a list element, a variable, a
// result).
func appended(p *Prog, mc *ssa.MakeClosure) bool {
	if mc.Referrers() == nil {
		return false
	}
	for _, r := range *mc.Referrers() {
		switch r.(type) {
		case *ssa.Store, *ssa.Phi, *ssa.Return, *ssa.Call, *ssa.ChangeType:
			return true
		}
	}
	return false
}

// onlyUnder: ins is skipped only across edges for which the atom holds.
func onlyUnder(p *Prog, ins ssa.Instruction, excuse atomMatch) bool {
	fn := ins.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || b == ins.Block() {
			continue
		}
		seen[b] = true
		if len(b.Succs) == 0 && !endsInPanic(b) {
			return false
		}
		for i, s := range b.Succs {
			if !p.edgeHolds(b, i, excuse, 0) {
				st = append(st, s)
			}
		}
	}
	return true
}

// calledPerElement: ins sits in a helper without a loop; the helper runs it
// unless excused, and the helper is called in a loop over the list.
func (m *RTModel) calledPerElement(fn *ssa.Function, ins ssa.Instruction, excuse atomMatch) bool {
	if !onlyUnder(m.p, ins, excuse) {
		return false
	}
	sites, complete := m.p.CallSitesOf(fn)
	if !complete || len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		if loopOf(s.ins.Block()) == nil {
			return false
		}
		if skipsIterationUnless(s.ins, m.p.excused(excuse)) {
			return false
		}
	}
	return true
}

func reachableOnlyFrom(m *RTModel, fn *ssa.Function, kind string) bool {
	for k, f := range m.TrapFns {
		r := m.p.Reach([]*ssa.Function{f}, func(f *ssa.Function) bool { return fnPkg(f) == nil || fnPkg(f).Path() != rtTrap })[fn]
		if (k == kind) != r {
			return false
		}
	}
	return true
}

func fieldNames(fs map[*types.Var]bool) string {
	var l []string
	for f := range fs {
		l = append(l, f.Name())
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}
