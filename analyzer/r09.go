package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R09"] = propDef{run: checkR09, assumptions: []string{
		"reflect's queries of a type (NumIn, In, NumOut, Out, Elem) answer the same each time",
		"a function the tables know no Go value of (a generic one) has no type to compare with",
	}}
}

// typeGate decides, for values handed in by the user as interface{}, where
// their dynamic type has been compared with something else's.
type typeGate struct {
	p    *Prog
	cmps map[*ssa.Function]bool // comparators used as gates
	busy map[*ssa.Function]bool
}

func isReflectType(t types.Type) bool { return isNamed(t, "reflect", "Type") }

func typeLike(t types.Type) bool {
	if isReflectType(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isReflectType(s.Elem())
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// from: does v depend, within its function, on one of xs?
func (g *typeGate) from(v ssa.Value, xs map[ssa.Value]bool) bool {
	hit := false
	g.p.slice(v, false, true, func(u ssa.Value) bool {
		if xs[u] {
			hit = true
		}
		return !hit
	})
	return hit
}

// notOnly: v depends on something else than xs (the target's type).
func (g *typeGate) notOnly(v ssa.Value, xs map[ssa.Value]bool) bool {
	hit := false
	g.p.slice(v, true, true, func(u ssa.Value) bool {
		if xs[u] {
			return false
		}
		switch y := u.(type) {
		case *ssa.Parameter, *ssa.Global:
			hit = true
		case *ssa.UnOp:
			if _, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

// atom: cond==pol says the type of xs was found to fit, or that there is
// nothing to fit.
func (g *typeGate) atom(xs map[ssa.Value]bool) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		switch x := cond.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != pol {
				return false
			}
			a, b := x.X, x.Y
			if isNilConst(a) {
				a, b = b, a
			}
			if isNilConst(b) {
				// nothing given, or a target without Go value
				if g.isTargetFunc(a) {
					return true
				}
				return (isEmptyIface(a.Type()) || isReflectType(a.Type())) && g.from(a, xs)
			}
			if !isReflectType(a.Type()) || !isReflectType(b.Type()) {
				return false
			}
			if g.isElement(a) || g.isElement(b) {
				return false
			}
			return g.from(a, xs) && !g.from(b, xs) && g.notOnly(b, xs) || g.from(b, xs) && !g.from(a, xs) && g.notOnly(a, xs)
		case *ssa.Extract:
			cl, ok := x.Tuple.(*ssa.Call)
			return ok && pol && g.comparison(cl, x.Index, xs)
		case *ssa.Call:
			return pol && g.comparison(x, 0, xs)
		}
		return false
	}
}

// isElement: one parameter or result type of a function type, not the
// whole type.
func (g *typeGate) isElement(v ssa.Value) bool {
	for _, o := range g.p.Origins(v, originOpts{noParams: true, noCalls: true}) {
		if cl, ok := o.Val.(*ssa.Call); ok && cl.Call.IsInvoke() && (cl.Call.Method.Name() == "In" || cl.Call.Method.Name() == "Out") {
			return true
		}
	}
	return false
}

// isTargetFunc: the Go value the tables have for a function.
func (g *typeGate) isTargetFunc(v ssa.Value) bool {
	for _, o := range g.p.Origins(v, originOpts{noParams: true, noCalls: true}) {
		u, ok := o.Val.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !isNamed(fa.X.Type(), rtMod+"/core", "FuncInfo") || fieldVar(fa.X.Type(), fa.Field).Name() != "Func" {
			return false
		}
		return true
	}
	return false
}

// comparison: the call answers whether the type of xs fits another type.
func (g *typeGate) comparison(cl *ssa.Call, idx int, xs map[ssa.Value]bool) bool {
	f := cl.Call.StaticCallee()
	if f == nil || !g.p.inRepo[f] || len(f.Blocks) == 0 {
		return false
	}
	res := f.Signature.Results()
	if idx >= res.Len() || !isBoolT(res.At(idx).Type()) {
		return false
	}
	mine, other := false, false
	for _, a := range cl.Call.Args {
		if !typeLike(a.Type()) {
			continue
		}
		if g.from(a, xs) {
			mine = true
		} else if g.notOnly(a, xs) {
			other = true
		}
	}
	if !mine || !other {
		return false
	}
	g.cmps[f] = true
	return true
}

// gateCall: the call only returns when the type of xs fits.
func (g *typeGate) gateCall(ins ssa.Instruction, xs map[ssa.Value]bool) bool {
	cl, ok := ins.(*ssa.Call)
	if !ok {
		return false
	}
	f := cl.Call.StaticCallee()
	if f == nil || !g.p.inRepo[f] || len(f.Blocks) == 0 || g.busy[f] {
		return false
	}
	in := map[ssa.Value]bool{}
	for i, a := range cl.Call.Args {
		if (typeLike(a.Type()) || isEmptyIface(a.Type()) || isNamed(a.Type(), "reflect", "Value")) && g.from(a, xs) && i < len(f.Params) {
			in[f.Params[i]] = true
		}
	}
	if len(in) == 0 {
		return false
	}
	g.busy[f] = true
	defer delete(g.busy, f)
	n := 0
	for _, r := range returnsOf(f) {
		n++
		if !g.passed(r, in) {
			return false
		}
	}
	return n > 0
}

// passed: every path to ins, in its function, has compared the type of xs.
func (g *typeGate) passed(ins ssa.Instruction, xs map[ssa.Value]bool) bool {
	m := g.atom(xs)
	fn := ins.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	stack := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		gated := false
		for _, i := range b.Instrs {
			if i == ins {
				return false
			}
			if g.gateCall(i, xs) {
				gated = true
				break
			}
		}
		if gated {
			continue
		}
		for i, s := range b.Succs {
			if !g.p.edgeHolds(b, i, m, 0) {
				stack = append(stack, s)
			}
		}
	}
	return true
}

// always: ins is only reached once the type of xs, values of its function,
// has been compared - there, where its closure was made, or in the callers.
func (g *typeGate) always(ins ssa.Instruction, xs map[ssa.Value]bool, depth int) (bool, ssa.Instruction) {
	if len(xs) == 0 {
		return false, ins
	}
	if g.passed(ins, xs) {
		return true, nil
	}
	fn := ins.Parent()
	if depth > 8 {
		return false, ins
	}
	if mcs := g.p.closures[fn]; len(mcs) > 0 {
		// captured values: in the terms of the function creating it; when
		// the value comes in by a parameter, its callers
		byParam := map[int]bool{}
		for i, pr := range fn.Params {
			if xs[pr] {
				byParam[i] = true
			}
		}
		if len(byParam) == 0 {
			for _, mc := range mcs {
				if ok, at := g.always(mc, g.roots(bindingsOf(fn, mc, xs)), depth+1); !ok {
					return false, at
				}
			}
			return true, nil
		}
	}
	sites, _ := g.p.CallSitesOf(fn)
	n := 0
	for _, s := range sites {
		in := map[ssa.Value]bool{}
		for i, pr := range fn.Params {
			if xs[pr] {
				if i < len(s.args) {
					for r := range g.roots([]ssa.Value{s.args[i]}) {
						in[r] = true
					}
				}
			}
		}
		if len(in) == 0 {
			continue // given none here
		}
		n++
		if ok, at := g.always(s.ins, in, depth+1); !ok {
			return false, at
		}
	}
	if n == 0 {
		return false, ins
	}
	return true, nil
}

func bindingsOf(fn *ssa.Function, mc *ssa.MakeClosure, xs map[ssa.Value]bool) []ssa.Value {
	var out []ssa.Value
	for i, fv := range fn.FreeVars {
		if xs[fv] && i < len(mc.Bindings) {
			out = append(out, mc.Bindings[i])
		}
	}
	return out
}

// roots: what the values stand for in their function: its interface{} (or
// reflect) parameters, and the captured variables.
func (g *typeGate) roots(vs []ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, v := range vs {
		fn := v.Parent()
		g.p.slice(v, false, true, func(u ssa.Value) bool {
			switch y := u.(type) {
			case *ssa.Parameter:
				if y.Parent() == fn && (isEmptyIface(y.Type()) || isNamed(y.Type(), "reflect", "Value") || typeLike(y.Type())) {
					out[y] = true
				}
			case *ssa.FreeVar:
				if y.Parent() == fn {
					out[y] = true
					return false
				}
			}
			return true
		})
	}
	return out
}

func checkR09(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("R09.gate", "a function given by the user as interface{} is only called by reflection, in a callback that gets registered, once its type was found equal to the target's: directly, or by a comparison of function types, on every path of the setup (a target without Go value, or no function given, excepted)")
	c.Rule("R09.compare", "a comparison of function types only answers yes when the number of parameters is equal, every parameter was compared with its counterpart, and the same holds for the results")
	c.Rule("R09.error", "an error returned by a user's interceptor is returned, raised by panic or stored as the call's error result on every path; only the sentinel for a mocked call is not, and it makes a pre callback report the call as mocked")
	c.Rule("R09.nil", "a lookup by name that finds nothing panics before anything of the result is used")

	g := &typeGate{p: p, cmps: map[*ssa.Function]bool{}, busy: map[*ssa.Function]bool{}}
	fns := p.FuncsIn(func(s string) bool { return s == rtTrap })
	for _, fn := range fns {
		fn := fn
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			f := cl.Common().StaticCallee()
			if f == nil || fnPkg(f) == nil || fnPkg(f).Path() != "reflect" || f.Signature.Recv() == nil || f.Name() != "Call" && f.Name() != "CallSlice" {
				return
			}
			callee, args := cl.Common().Args[0], cl.Common().Args[1]
			if g.selfTyped(args) {
				return
			}
			xs := g.roots([]ssa.Value{callee})
			name := shortFn(fn) + " calls a user's function"
			c.Obl("R09.gate", name)
			if ok, at := g.always(ins, xs, 0); !ok {
				where := ins
				if at != nil {
					where = at
				}
				c.Viol("R09.gate", c.Pos(p, where.Pos()), name, "the function called by reflection here reaches this point (%s) without its type having been compared with the target's: one that does not fit gets installed and fails, or corrupts the call, later", shortFn(where.Parent()))
			}
		})
	}
	c.Floor("R09.gate", 4)
	for f := range g.cmps {
		g.comparator(c, f)
	}
	c.Floor("R09.compare", 2)
	g.wantLists(c, fns)
	m.checkCallbackErrors(c, fns)
	c.Floor("R09.error", 5)
	m.checkLookups(c, fns)
	c.Floor("R09.nil", 5)
}

// selfTyped: the arguments are made after the callee's own parameter types.
func (g *typeGate) selfTyped(args ssa.Value) bool {
	hit := false
	g.p.slice(args, true, true, func(u ssa.Value) bool {
		if cl, ok := u.(*ssa.Call); ok {
			if f := cl.Call.StaticCallee(); f != nil && (fnName(f) == "reflect.New" || fnName(f) == "reflect.Zero") {
				g.p.slice(cl.Call.Args[0], false, true, func(w ssa.Value) bool {
					if c2, ok := w.(*ssa.Call); ok && c2.Call.IsInvoke() && c2.Call.Method.Name() == "In" {
						hit = true
					}
					return true
				})
			}
		}
		return true
	})
	return hit
}

// ---------------------------------------------------------- comparators

// elemQuery: v is (the pointee of) an element of a type list: t.In(i),
// t.Out(i) or types[i].
func (g *typeGate) elemQuery(v ssa.Value) (kind string, list, idx ssa.Value) {
	os := g.p.Origins(v, originOpts{noParams: true, noCalls: true})
	if len(os) != 1 {
		return "", nil, nil
	}
	switch x := os[0].Val.(type) {
	case *ssa.Call:
		if !x.Call.IsInvoke() {
			return "", nil, nil
		}
		switch x.Call.Method.Name() {
		case "In", "Out":
			return x.Call.Method.Name(), x.Call.Value, x.Call.Args[0]
		case "Elem":
			return g.elemQuery(x.Call.Value)
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && typeLike(ia.X.Type()) {
			return "list", ia.X, ia.Index
		}
	}
	return "", nil, nil
}

// counted: v holds a number of parameters/results/list elements; the kinds
// of counts in it.
func (g *typeGate) counted(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	g.p.slice(v, false, true, func(u ssa.Value) bool {
		if cl, ok := u.(*ssa.Call); ok {
			if cl.Call.IsInvoke() {
				switch cl.Call.Method.Name() {
				case "NumIn":
					out["In"] = true
				case "NumOut":
					out["Out"] = true
				}
			} else if l := lenArg(u); l != nil && typeLike(l.Type()) {
				out["list"] = true
			}
		}
		return true
	})
	return out
}

// fullLoops finds the loops of fn comparing every In (Out) element with its
// counterpart, as the edges leaving them.
func (g *typeGate) fullLoops(fn *ssa.Function, kind string) map[ssa.Value]bool {
	out := map[ssa.Value]bool{} // loop test -> polarity leaving the loop
	for _, b := range fn.Blocks {
		iff, ok := lastIf(b)
		if !ok {
			continue
		}
		h := loopOf(b)
		if h == nil || inLoop(b.Succs[0], h) == inLoop(b.Succs[1], h) {
			continue
		}
		good := false
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if good || !ok || !cl.Call.IsInvoke() || cl.Call.Method.Name() != kind || !isReflectType(cl.Call.Value.Type()) || !inLoop(cl.Block(), h) {
				return
			}
			if g.coveringLoop(fn, cl, h, kind) {
				good = true
			}
		})
		if !good {
			continue
		}
		// this test bounds the index
		cmp, isCmp := iff.Cond.(*ssa.BinOp)
		if !isCmp {
			continue
		}
		if a, b := g.counted(cmp.X), g.counted(cmp.Y); !a[kind] && !a["list"] && !b[kind] && !b["list"] {
			continue
		}
		if len(g.elementTest(iff.Cond)) > 0 {
			continue
		}
		out[iff.Cond] = !inLoop(b.Succs[0], h)
	}
	return out
}

func lastIf(b *ssa.BasicBlock) (*ssa.If, bool) {
	if len(b.Instrs) == 0 {
		return nil, false
	}
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i, ok
}

// elementTest: cond compares two elements; the kinds.
func (g *typeGate) elementTest(cond ssa.Value) []string {
	x, ok := cond.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return nil
	}
	k1, l1, _ := g.elemQuery(x.X)
	k2, l2, _ := g.elemQuery(x.Y)
	if k1 == "" || k2 == "" || sameSource(g.p, l1, l2) {
		return nil
	}
	return []string{k1, k2}
}

// coveringLoop: the loop with header h runs over all elements q belongs to
// and an iteration only completes over an edge saying that elements at
// matching positions are equal.
func (g *typeGate) coveringLoop(fn *ssa.Function, q *ssa.Call, h *ssa.BasicBlock, kind string) bool {
	lin := &linCtx{p: g.p}
	covered := false
	eq := func(b *ssa.BasicBlock, succ int) bool {
		return g.p.edgeHolds(b, succ, func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.BinOp)
			if !ok || (x.Op == token.EQL) != pol || x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			k1, l1, i1 := g.elemQuery(x.X)
			k2, l2, i2 := g.elemQuery(x.Y)
			if k1 == "" || k2 == "" || k1 != kind && k2 != kind || sameSource(g.p, l1, l2) {
				return false
			}
			ok1, n1 := loopRange(g.p, i1)
			ok2, n2 := loopRange(g.p, i2)
			diff := lin.form(i1, 0).add(lin.form(i2, 0), -1)
			of := func(n ssa.Value, l ssa.Value) bool {
				src := g.countOf(n)
				if src == nil && typeLike(n.Type()) {
					src = n
				}
				return src != nil && (sameSource(g.p, src, l) || diff.isConst(0) && (sameSource(g.p, src, l1) || sameSource(g.p, src, l2)))
			}
			if !(ok1 && of(n1, l1)) && !(ok2 && of(n2, l2)) {
				return false
			}
			if !g.alignedWith(fn, lin, diff, kind, l1, l2) {
				return false
			}
			covered = true
			return true
		}, 0)
	}
	// can an iteration complete without crossing such an edge?
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for i, s := range h.Succs {
		if inLoop(s, h) && !eq(h, i) {
			st = append(st, s)
		}
	}
	skip := false
	for len(st) > 0 && !skip {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if b == h {
			skip = true
			break
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		for i, s := range b.Succs {
			if eq(b, i) {
				continue
			}
			if s == h {
				skip = true
			} else if inLoop(s, h) {
				st = append(st, s)
			}
		}
	}
	return covered && !skip
}

// alignedWith: comparing element i+d of the one list with element i of the
// other fits the comparison of their lengths: len(one)-d == len(other).
func (g *typeGate) alignedWith(fn *ssa.Function, lin *linCtx, diff linForm, kind string, l1, l2 ssa.Value) bool {
	n := 0
	for _, b := range fn.Blocks {
		iff, ok := lastIf(b)
		if !ok {
			continue
		}
		x, ok := iff.Cond.(*ssa.BinOp)
		if !ok || x.Op != token.EQL && x.Op != token.NEQ {
			continue
		}
		k := g.counted(x.X)
		for s := range g.counted(x.Y) {
			k[s] = true
		}
		if !k[kind] || kind == "In" && k["Out"] || kind == "Out" && k["In"] {
			continue
		}
		n++
		f := lin.form(x.X, 0).add(lin.form(x.Y, 0), -1)
		// remove the two counts
		rest := linForm{c: f.c, co: map[ssa.Value]int64{}}
		sgn := int64(0)
		for v, k := range f.co {
			if src := g.countOf(v); src != nil {
				switch {
				case sameSource(g.p, src, l1):
					sgn += k
				case sameSource(g.p, src, l2):
					sgn -= k
				default:
					rest.co[v] = k
				}
				continue
			}
			rest.co[v] = k
		}
		// f = s*(n1 - n2) + rest == 0  =>  n1 - n2 == -rest/s; must be diff
		if sgn == 2 && rest.add(diff, 1).isConst(0) || sgn == -2 && rest.add(diff, -1).isConst(0) {
			return true
		}
	}
	// the lengths are compared elsewhere
	return n == 0 && diff.isConst(0)
}

func (g *typeGate) countOf(v ssa.Value) ssa.Value {
	if l := lenArg(v); l != nil {
		return l
	}
	if cl, ok := v.(*ssa.Call); ok && cl.Call.IsInvoke() && (cl.Call.Method.Name() == "NumIn" || cl.Call.Method.Name() == "NumOut") {
		return cl.Call.Value
	}
	return nil
}

func (g *typeGate) comparator(c *Ctx, f *ssa.Function) {
	p := g.p
	nTypes := 0
	for _, pr := range f.Params {
		if isReflectType(pr.Type()) {
			nTypes++
		}
	}
	kinds := []string{"In"}
	if nTypes >= 2 {
		kinds = append(kinds, "Out")
	}
	bi := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isBoolT(f.Signature.Results().At(i).Type()) {
			bi = i
		}
	}
	local := p.Reach([]*ssa.Function{f}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtTrap })
	for _, kind := range kinds {
		kind := kind
		what := map[string]string{"In": "parameters", "Out": "results"}[kind]
		count := func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != pol {
				return false
			}
			a, b := g.counted(x.X), g.counted(x.Y)
			return a[kind] && (b[kind] || b["list"]) || b[kind] && a["list"]
		}
		loops := map[ssa.Value]bool{}
		for lf := range local {
			if len(lf.Blocks) > 0 {
				for v, pol := range g.fullLoops(lf, kind) {
					loops[v] = pol
				}
			}
		}
		loop := func(cond ssa.Value, pol bool) bool { l, ok := loops[cond]; return ok && l == pol }
		for _, t := range []struct {
			m    atomMatch
			text string
		}{{count, "the numbers of " + what + " are equal"}, {loop, "each of the " + what + " was compared with its counterpart"}} {
			name := shortFn(f) + ": " + t.text
			c.Obl("R09.compare", name)
			if bi < 0 || !p.returnImplies(f, bi, true, t.m, 0) {
				c.Viol("R09.compare", c.Pos(p, f.Pos()), name, "this comparison of function types can answer yes on a path on which it is not established that %s", t.text)
			}
		}
	}
}

// ---------------------------------------------------------------- errors

func isErrorT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// checkCallbackErrors: the errors of user callbacks (function values called
// dynamically) are delivered.
func (m *RTModel) checkCallbackErrors(c *Ctx, fns []*ssa.Function) {
	p := m.p
	for _, fn := range fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok || cl.Common().IsInvoke() || cl.Common().StaticCallee() != nil {
				return
			}
			if _, ok := cl.Common().Value.(*ssa.Builtin); ok {
				return
			}
			sig := cl.Common().Signature()
			n := sig.Results().Len()
			if n == 0 || !isErrorT(sig.Results().At(n-1).Type()) {
				return
			}
			name := shortFn(fn) + " calls " + sig.String()
			if nm := namedOf(cl.Common().Value.Type()); nm != nil {
				name = shortFn(fn) + " calls a " + nm.Obj().Name()
			}
			c.Obl("R09.error", name)
			call, ok := ins.(*ssa.Call)
			if !ok {
				c.Viol("R09.error", c.Pos(p, ins.Pos()), name, "the callback's error is discarded by go or defer")
				return
			}
			var e ssa.Value = call
			if n > 1 {
				e = nil
				for _, r := range *call.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == n-1 {
						e = ex
					}
				}
			}
			if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
				c.Viol("R09.error", c.Pos(p, ins.Pos()), name, "the error returned by the user's callback is dropped")
				return
			}
			if at := m.errorLost(e, ins, fn); at != nil {
				c.Viol("R09.error", c.Pos(p, at.Pos()), name, "the function can return here although the user's callback failed, with its error neither returned, raised nor stored as the call's error result")
			}
			m.sentinel(c, e, fn, name)
		})
	}
}

// errorLost: a return reachable from ins with the error e non-nil, not the
// mocked sentinel, and undelivered.
func (m *RTModel) errorLost(e ssa.Value, ins ssa.Instruction, fn *ssa.Function) ssa.Instruction {
	p := m.p
	type st struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := []st{{ins.Block(), instrIndex(ins) + 1}}
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		done := false
		for _, i := range s.b.Instrs[s.i:] {
			switch x := i.(type) {
			case *ssa.Panic:
				done = true
			case *ssa.Store:
				if x.Val == e {
					if _, ok := p.localAlloc(x.Addr); !ok {
						done = true
					}
				}
			case *ssa.Call:
				// handed on to a helper that delivers it
				for j, a := range x.Call.Args {
					if a == e {
						if f := x.Call.StaticCallee(); f != nil && p.inRepo[f] && j < len(f.Params) && len(f.Blocks) > 0 && m.errorLost(f.Params[j], f.Blocks[0].Instrs[0], f) == nil {
							done = true
						}
					}
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if r == e {
						done = true
					}
				}
				if !done {
					return x
				}
			}
			if done {
				break
			}
		}
		if done {
			continue
		}
		for i, t := range s.b.Succs {
			if seen[t] {
				continue
			}
			if p.edgeHolds(s.b, i, func(cond ssa.Value, pol bool) bool {
				x, ok := cond.(*ssa.BinOp)
				if !ok || x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != pol {
					return false
				}
				o := x.Y
				if x.Y == e {
					o = x.X
				} else if x.X != e {
					return false
				}
				return isNilConst(o) || isSentinel(o)
			}, 0) {
				continue
			}
			seen[t] = true
			stack = append(stack, st{t, 0})
		}
	}
	return nil
}

// localAlloc: addr is a local variable.
func (p *Prog) localAlloc(addr ssa.Value) (*ssa.Alloc, bool) {
	a := p.localCell(addr)
	return a, a != nil
}

// isSentinel: a package level error variable.
func isSentinel(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && isErrorT(g.Type().(*types.Pointer).Elem())
}

// sentinel: in a callback with a verdict (data, mocked), the sentinel's
// edge only leads to returns saying mocked, and nothing else does.
func (m *RTModel) sentinel(c *Ctx, e ssa.Value, fn *ssa.Function, name string) {
	p := m.p
	res := fn.Signature.Results()
	if res.Len() != 2 || !isBoolT(res.At(1).Type()) {
		return
	}
	is := func(want bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			if !(x.X == e && isSentinel(x.Y) || x.Y == e && isSentinel(x.X)) {
				return false
			}
			return ((x.Op == token.EQL) == pol) == want
		}
	}
	c.Obl("R09.error", name+": mocked")
	for _, r := range returnsOf(fn) {
		v := r.Results[1]
		k, isC := constBool(v)
		under := p.blockGuarded(r.Block(), is(true), 0)
		if isC && k == under || !isC && p.implies(v, true, is(true), 0) && !under {
			continue
		}
		c.Viol("R09.error", c.Pos(p, r.Pos()), name+": mocked", "a pre callback reports the call as mocked exactly when the user's callback returned the sentinel; this return does not follow that")
	}
}

// --------------------------------------------------------------- lookups

// checkLookups: FuncInfo results of table lookups are used only after a
// nil check.
func (m *RTModel) checkLookups(c *Ctx, fns []*ssa.Function) {
	p := m.p
	for _, fn := range fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			v, ok := ins.(ssa.Value)
			if !ok || !isPtrToNamed(v.Type(), rtMod+"/core", "FuncInfo") {
				return
			}
			switch x := ins.(type) {
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil || fnPkg(f) == nil || fnPkg(f).Path() != rtFunct {
					return
				}
			case *ssa.Lookup:
			case *ssa.Extract:
				if l, ok := x.Tuple.(*ssa.Lookup); !ok || !l.CommaOk {
					return
				}
			default:
				return
			}
			name := shortFn(fn) + " looks a target up"
			c.Obl("R09.nil", name)
			if at := m.missAccepted(v); at != nil {
				c.Viol("R09.nil", c.Pos(p, at.Pos()), name, "the function can return normally here although the target was not found: setup seems to succeed for something that is not instrumented")
			}
			if at := m.usedUnchecked(v, map[ssa.Value]bool{}, 0); at != nil {
				c.Viol("R09.nil", c.Pos(p, at.Pos()), name, "the looked-up target is dereferenced or handed to a registration here without a check that it was found: an unknown name or an uninstrumented target crashes instead of being refused")
			}
		})
	}
}

// usedUnchecked finds a dereference of v not under v != nil. Returned
// values are followed to the callers.
func (m *RTModel) usedUnchecked(v ssa.Value, seen map[ssa.Value]bool, depth int) ssa.Instruction {
	p := m.p
	if seen[v] || depth > 6 {
		return nil
	}
	seen[v] = true
	nonNil := func(x ssa.Value) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.NEQ) != pol {
				return false
			}
			o := b.X
			if isNilConst(b.X) {
				o = b.Y
			} else if !isNilConst(b.Y) {
				return false
			}
			if o == x || sameSource(p, o, x) {
				return true
			}
			for _, or := range p.Origins(o, originOpts{noCalls: true, noParams: true}) {
				if or.Val == x {
					return true
				}
			}
			return false
		}
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.FieldAddr:
			if x.X == v && !p.blockGuarded(x.Block(), nonNil(v), 0) {
				return x
			}
		case *ssa.Return:
			if p.blockGuarded(x.Block(), nonNil(v), 0) {
				continue
			}
			idx := -1
			for i, r := range x.Results {
				if r == v {
					idx = i
				}
			}
			sites, _ := p.CallSitesOf(x.Parent())
			for _, s := range sites {
				call, ok := s.ins.(*ssa.Call)
				if !ok {
					continue
				}
				if x.Parent().Signature.Results().Len() == 1 {
					if at := m.usedUnchecked(call, seen, depth+1); at != nil {
						return at
					}
					continue
				}
				for _, r := range *call.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == idx {
						if at := m.usedUnchecked(ex, seen, depth+1); at != nil {
							return at
						}
					}
				}
			}
		case *ssa.Phi:
			ok := false
			for i, e := range x.Edges {
				if e == v && p.edgeGuarded(x.Block().Preds[i], x.Block(), nonNil(v), 0) {
					ok = true
				}
			}
			if !ok {
				if at := m.usedUnchecked(x, seen, depth+1); at != nil {
					return at
				}
			}
		case *ssa.Store:
			// a local variable: its loads
			if x.Val != v {
				continue
			}
			if p.blockGuarded(x.Block(), nonNil(v), 0) {
				continue
			}
			if a := p.localCell(x.Addr); a != nil {
				for _, ld := range p.cellLoads(a) {
					ins, ok := ld.(ssa.Instruction)
					if !ok {
						continue
					}
					if ins.Parent() == x.Parent() && !mayFollow(x, ins) {
						continue
					}
					if overwritten(p, a, x, ins) {
						continue
					}
					if at := m.usedUnchecked(ld, seen, depth+1); at != nil {
						return at
					}
				}
			}
		}
	}
	return nil
}

// overwritten: every path from st to ld passes another store to the cell.
func overwritten(p *Prog, a *ssa.Alloc, st *ssa.Store, ld ssa.Instruction) bool {
	if st.Parent() != ld.Parent() {
		return false
	}
	other := map[ssa.Instruction]bool{}
	for _, s := range p.cellStoreInstrs(a) {
		if s != st {
			other[s] = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	work := []pos{{st.Block(), instrIndex(st) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for _, i := range w.b.Instrs[w.i:] {
			if i == ld {
				return false
			}
			if other[i] {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pos{s, 0})
			}
		}
	}
	return true
}

func isPtrToNamed(t types.Type, pkg, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(pt.Elem(), pkg, name)
}

// missAccepted: a normal return reachable from the lookup v without a check
// that it found something, another lookup, or v being what is returned.
func (m *RTModel) missAccepted(v ssa.Value) ssa.Instruction {
	p := m.p
	ins := v.(ssa.Instruction)
	found := func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.NEQ) != pol {
			return false
		}
		o := b.X
		if isNilConst(b.X) {
			o = b.Y
		} else if !isNilConst(b.Y) {
			return false
		}
		for _, or := range p.Origins(o, originOpts{noCalls: true, noParams: true}) {
			if or.Val == v {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	work := []pos{{ins.Block(), instrIndex(ins) + 1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for _, i := range w.b.Instrs[w.i:] {
			if u, ok := i.(ssa.Value); ok && u != v && isPtrToNamed(u.Type(), rtMod+"/core", "FuncInfo") {
				switch x := i.(type) {
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && fnPkg(f) != nil && fnPkg(f).Path() == rtFunct {
						stop = true
					}
				case *ssa.Lookup:
					stop = true
				}
			}
			if r, ok := i.(*ssa.Return); ok {
				mine := false
				for _, x := range r.Results {
					if isPtrToNamed(x.Type(), rtMod+"/core", "FuncInfo") {
						for _, or := range p.Origins(x, originOpts{noCalls: true, noParams: true}) {
							if or.Val == v {
								mine = true
							}
						}
					}
				}
				if !mine {
					return r
				}
			}
			if stop {
				break
			}
		}
		if stop {
			continue
		}
		for i, s := range w.b.Succs {
			if seen[s] || p.edgeHolds(w.b, i, found, 0) {
				continue
			}
			seen[s] = true
			work = append(work, pos{s, 0})
		}
	}
	return nil
}

// wantLists: a list of types something is compared with, collected from a
// function's type, has all its parameters and all its results.
func (g *typeGate) wantLists(c *Ctx, fns []*ssa.Function) {
	p := g.p
	for _, fn := range fns {
		got := map[string]bool{}
		bad := map[string]ssa.Instruction{}
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok || !cl.Call.IsInvoke() || cl.Call.Method.Name() != "In" && cl.Call.Method.Name() != "Out" || !isReflectType(cl.Call.Value.Type()) || !g.collected(cl) {
				return
			}
			kind := cl.Call.Method.Name()
			ok, n := loopWhole(p, cl.Call.Args[0], nil)
			if ok {
				q, isQ := n.(*ssa.Call)
				ok = isQ && q.Call.IsInvoke() && q.Call.Method.Name() == "Num"+kind && sameSource(p, q.Call.Value, cl.Call.Value) && !skipsIteration(cl)
			}
			if ok {
				got[kind] = true
			} else {
				bad[kind] = ins
			}
		})
		if len(got)+len(bad) == 0 {
			continue
		}
		name := shortFn(fn) + " collects the types of a function"
		c.Obl("R09.compare", name)
		for _, k := range []string{"In", "Out"} {
			if !got[k] {
				pos := fn.Pos()
				if bad[k] != nil {
					pos = bad[k].Pos()
				}
				c.Viol("R09.compare", c.Pos(p, pos), name, "the list of types a recorder is compared with is not made of every parameter and then every result (%s)", k)
			}
		}
	}
}

// collected: the type ends up in a []reflect.Type of its function.
func (g *typeGate) collected(cl *ssa.Call) bool {
	if cl.Referrers() == nil {
		return false
	}
	for _, u := range *cl.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Val == cl {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				if t, ok := ia.X.Type().Underlying().(*types.Pointer); ok {
					if a, ok := t.Elem().Underlying().(*types.Array); ok && isReflectType(a.Elem()) {
						return true
					}
				}
				if typeLike(ia.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}
