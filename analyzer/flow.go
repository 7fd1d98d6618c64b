package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- origins

type phiEdge struct {
	phi  *ssa.Phi
	pred *ssa.BasicBlock
	via  ssa.Instruction // not a phi: a return or call crossed
}

// Origin is one place a value may come from, with the phi edges crossed on
// the way back.
type Origin struct {
	Val   ssa.Value
	Edges []phiEdge
	Via   []ssa.Instruction // returns and calls executed on the way
}

type originOpts struct {
	noCalls  bool // do not enter callees
	noParams bool // do not leave to callers
	keep     func(ssa.Value) bool
}

// Origins traces v backwards through copies, phis, local variables,
// closure captures, calls to repository functions and parameters.
func (p *Prog) Origins(v ssa.Value, o originOpts) []Origin {
	var out []Origin
	type key struct {
		v ssa.Value
		f *frame
	}
	seen := map[key]bool{}
	frames := map[frame]*frame{}
	// push: the frame of a call of fn made in frame f; nil when too deep
	push := func(f *frame, call ssa.CallInstruction, fn *ssa.Function) *frame {
		n := 0
		for g := f; g != nil; g = g.parent {
			if g.fn == fn {
				return nil
			}
			n++
		}
		if n > 8 {
			return nil
		}
		k := frame{f, call, fn}
		if frames[k] == nil {
			frames[k] = &k
		}
		return frames[k]
	}
	var walk func(v ssa.Value, f *frame, edges []phiEdge, depth int)
	emit := func(v ssa.Value, edges []phiEdge) {
		or := Origin{Val: v}
		for _, e := range edges {
			if e.via != nil {
				or.Via = append(or.Via, e.via)
			} else {
				or.Edges = append(or.Edges, e)
			}
		}
		out = append(out, or)
	}
	walk = func(v ssa.Value, fr *frame, edges []phiEdge, depth int) {
		if v == nil {
			return
		}
		if seen[key{v, fr}] {
			return
		}
		seen[key{v, fr}] = true
		if depth > 60 || (o.keep != nil && o.keep(v)) {
			emit(v, edges)
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				walk(e, fr, append(edges[:len(edges):len(edges)], phiEdge{phi: x, pred: x.Block().Preds[i]}), depth+1)
			}
		case *ssa.ChangeType:
			walk(x.X, fr, edges, depth+1)
		case *ssa.Convert:
			walk(x.X, fr, edges, depth+1)
		case *ssa.MakeInterface:
			walk(x.X, fr, edges, depth+1)
		case *ssa.ChangeInterface:
			walk(x.X, fr, edges, depth+1)
		case *ssa.TypeAssert:
			walk(x.X, fr, edges, depth+1)
		case *ssa.Slice:
			emit(v, edges)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				if f := t.Call.StaticCallee(); !o.noCalls && f != nil && p.inRepo[f] && len(f.Blocks) > 0 {
					nf := push(fr, t, f)
					if nf == nil {
						return
					}
					for _, r := range returnsOf(f) {
						if x.Index < len(r.Results) {
							walk(r.Results[x.Index], nf, append(edges[:len(edges):len(edges)], phiEdge{via: r}, phiEdge{via: t}), depth+1)
						}
					}
					return
				}
				emit(v, edges)
			case *ssa.TypeAssert:
				if x.Index == 0 {
					walk(t.X, fr, edges, depth+1)
				} else {
					emit(v, edges)
				}
			default:
				emit(v, edges)
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); !o.noCalls && f != nil && p.inRepo[f] && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
				nf := push(fr, x, f)
				if nf == nil {
					return
				}
				for _, r := range returnsOf(f) {
					walk(r.Results[0], nf, append(edges[:len(edges):len(edges)], phiEdge{via: r}, phiEdge{via: x}), depth+1)
				}
				return
			}
			emit(v, edges)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				emit(v, edges)
				return
			}
			if a := p.localCell(x.X); a != nil {
				sts := p.cellStores(a)
				if len(sts) == 0 {
					emit(v, edges)
				}
				for _, s := range sts {
					walk(s, fr, edges, depth+1)
				}
				return
			}
			emit(v, edges)
		case *ssa.Parameter:
			f := x.Parent()
			idx := -1
			for i, pr := range f.Params {
				if pr == x {
					idx = i
				}
			}
			for g := fr; g != nil; g = g.parent {
				if g.fn == f {
					// entered through this very call
					if args := g.call.Common().Args; idx < len(args) {
						walk(args[idx], g.parent, edges, depth+1)
						return
					}
				}
			}
			if o.noParams {
				emit(v, edges)
				return
			}
			args, complete := p.paramArgs(f, idx)
			if !complete {
				emit(v, edges)
			}
			for _, a := range args {
				walk(a, nil, edges, depth+1)
			}
		case *ssa.FreeVar:
			f := x.Parent()
			idx := -1
			for i, fv := range f.FreeVars {
				if fv == x {
					idx = i
				}
			}
			mcs := p.closures[f]
			if len(mcs) == 0 || idx < 0 {
				emit(v, edges)
				return
			}
			for _, mc := range mcs {
				walk(mc.Bindings[idx], fr, edges, depth+1)
			}
		default:
			emit(v, edges)
		}
	}
	walk(v, nil, nil, 0)
	return out
}

// localCell resolves an address to the Alloc it denotes, through closure
// captures; nil when it is not a plain local variable.
func (p *Prog) localCell(addr ssa.Value) *ssa.Alloc {
	for i := 0; i < 20; i++ {
		switch a := addr.(type) {
		case *ssa.Alloc:
			return a
		case *ssa.FreeVar:
			f := a.Parent()
			mcs := p.closures[f]
			if len(mcs) != 1 {
				return nil
			}
			found := false
			for j, fv := range f.FreeVars {
				if fv == a {
					addr = mcs[0].Bindings[j]
					found = true
				}
			}
			if !found {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// cellStores lists the values stored to a local variable, in its function
// and in the closures capturing it.
func (p *Prog) cellStores(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(addr ssa.Value)
	walk = func(addr ssa.Value) {
		if seen[addr] {
			return
		}
		seen[addr] = true
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					out = append(out, x.Val)
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for j, b := range x.Bindings {
					if b == addr {
						walk(f.FreeVars[j])
					}
				}
			}
		}
	}
	walk(a)
	return out
}

func (p *Prog) cellStoreInstrs(a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	seen := map[ssa.Value]bool{}
	var walk func(addr ssa.Value)
	walk = func(addr ssa.Value) {
		if seen[addr] {
			return
		}
		seen[addr] = true
		if addr.Referrers() == nil {
			return
		}
		for _, r := range *addr.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for j, b := range x.Bindings {
					if b == addr {
						walk(f.FreeVars[j])
					}
				}
			}
		}
	}
	walk(a)
	return out
}

// CallSite is a place where a function is invoked.
type callSite struct {
	ins  ssa.CallInstruction
	args []ssa.Value
}

// CallSitesOf finds the places invoking fn: static calls, calls through
// the closure value, and calls of function values that can only be fn's
// closure. complete is false when fn may also be called from elsewhere.
func (p *Prog) CallSitesOf(fn *ssa.Function) (sites []callSite, complete bool) {
	complete = true
	for _, c := range p.callers[fn] {
		sites = append(sites, callSite{c, c.Common().Args})
	}
	if fn.Parent() == nil {
		if fn.Object() != nil && fn.Object().Exported() && !(isInternalPath(fn) && len(sites) > 0) {
			complete = false
		}
		if fn.Name() == "init" || fn.Name() == "main" {
			complete = false
		}
		for _, u := range p.valueUses[fn] {
			_ = u
			complete = false
		}
		if fn.Synthetic != "" {
			complete = false
		}
		return
	}
	// closure: follow the MakeClosure / function value
	var vals []ssa.Value
	for _, mc := range p.closures[fn] {
		vals = append(vals, mc)
	}
	if len(p.closures[fn]) == 0 {
		// closure without captures is used as the *ssa.Function itself
		for _, u := range p.valueUses[fn] {
			s, ok := p.trackUse(fn, u, 0)
			sites = append(sites, s...)
			complete = complete && ok
		}
		return
	}
	for _, v := range vals {
		s, ok := p.trackUses(v, 0)
		sites = append(sites, s...)
		complete = complete && ok
	}
	return
}

func (p *Prog) trackUses(v ssa.Value, depth int) (sites []callSite, complete bool) {
	complete = true
	if depth > 12 || v.Referrers() == nil {
		return nil, false
	}
	for _, u := range *v.Referrers() {
		s, ok := p.trackUse(v, u, depth)
		sites = append(sites, s...)
		complete = complete && ok
	}
	return
}

func (p *Prog) trackUse(v ssa.Value, u ssa.Instruction, depth int) (sites []callSite, complete bool) {
	complete = true
	if depth > 12 {
		return nil, false
	}
	switch x := u.(type) {
	case ssa.CallInstruction:
		cm := x.Common()
		if cm.Value == v && !cm.IsInvoke() {
			if cm.StaticCallee() == nil {
				sites = append(sites, callSite{x, cm.Args})
			} else if _, isFn := v.(*ssa.Function); !isFn {
				// direct call of MakeClosure is in callers already
			}
		}
		for i, a := range cm.Args {
			if a != v {
				continue
			}
			callee := cm.StaticCallee()
			if callee == nil || !p.inRepo[callee] || len(callee.Blocks) == 0 {
				complete = false
				if callee != nil && len(callee.Blocks) > 0 {
					// library higher-order function: treated as invoked there
					sites = append(sites, callSite{x, nil})
				}
				continue
			}
			if i < len(callee.Params) {
				s, ok := p.trackUses(callee.Params[i], depth+1)
				sites = append(sites, s...)
				complete = complete && ok
			}
		}
	case *ssa.Phi:
		s, ok := p.trackUses(x, depth+1)
		sites, complete = append(sites, s...), complete && ok
	case *ssa.ChangeType:
		s, ok := p.trackUses(x, depth+1)
		sites, complete = append(sites, s...), complete && ok
	case *ssa.Store:
		if x.Val != v {
			return
		}
		if a := p.localCell(x.Addr); a != nil {
			for _, ld := range p.cellLoads(a) {
				s, ok := p.trackUses(ld, depth+1)
				sites, complete = append(sites, s...), complete && ok
			}
			return
		}
		complete = false
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for j, b := range x.Bindings {
			if b == v {
				s, ok := p.trackUses(f.FreeVars[j], depth+1)
				sites, complete = append(sites, s...), complete && ok
			}
		}
	case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
	default:
		complete = false
	}
	return
}

func (p *Prog) cellLoads(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(addr ssa.Value)
	walk = func(addr ssa.Value) {
		if seen[addr] || addr.Referrers() == nil {
			return
		}
		seen[addr] = true
		for _, r := range *addr.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && x.X == addr {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for j, b := range x.Bindings {
					if b == addr {
						walk(f.FreeVars[j])
					}
				}
			}
		}
	}
	walk(a)
	return out
}

func (p *Prog) paramArgs(f *ssa.Function, idx int) (args []ssa.Value, complete bool) {
	sites, complete := p.CallSitesOf(f)
	for _, s := range sites {
		if s.args == nil || idx >= len(s.args) || idx < 0 {
			complete = false
			continue
		}
		args = append(args, s.args[idx])
	}
	return
}

func returnsOf(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// ---------------------------------------------------------------- callees

// Callees resolves a call to repository (or library) functions: static,
// closures and function values with known origins, interface calls by CHA
// over repository types.
func (p *Prog) Callees(c ssa.CallInstruction) []*ssa.Function {
	cm := c.Common()
	if f := cm.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if cm.IsInvoke() {
		var out []*ssa.Function
		for _, fn := range p.Funcs {
			if fn.Signature.Recv() == nil || fn.Name() != cm.Method.Name() || fn.Synthetic != "" {
				continue
			}
			rt := fn.Signature.Recv().Type()
			if types.Implements(rt, cm.Value.Type().Underlying().(*types.Interface)) {
				out = append(out, fn)
			}
		}
		return out
	}
	return p.FuncValues(cm.Value)
}

// FuncValues resolves the functions a function-typed value may denote.
func (p *Prog) FuncValues(v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	for _, o := range p.Origins(v, originOpts{}) {
		switch x := o.Val.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		}
	}
	return out
}

// Reach computes the functions reachable from roots through Callees, and
// through closures created on the way. stop prunes.
func (p *Prog) Reach(roots []*ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || (stop != nil && stop(f)) {
			return
		}
		seen[f] = true
		live := liveBlocks(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(c) {
						if p.inRepo[g] {
							walk(g)
						}
					}
					for _, a := range c.Common().Args {
						if g, ok := a.(*ssa.Function); ok && p.inRepo[g] {
							walk(g)
						}
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
		for _, an := range f.AnonFuncs {
			walk(an)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

// ---------------------------------------------------------------- guards

// Atom says what holding a condition at a polarity means.
type atomMatch func(cond ssa.Value, pol bool) bool

// implies tells whether cond==pol entails something m accepts.
func (p *Prog) implies(cond ssa.Value, pol bool, m atomMatch, depth int) bool {
	if depth > 80 {
		return false
	}
	defer enterGuard(depth)()
	return gm.eval(gkey{cond, nil, pol, 0}, func() bool { return p.implies1(cond, pol, m, depth+1) })
}

func (p *Prog) implies1(cond ssa.Value, pol bool, m atomMatch, depth int) bool {
	if m(cond, pol) {
		return true
	}
	if k, ok := constBool(cond); ok {
		return k != pol // never so
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.implies(x.X, !pol, m, depth+1)
		}
		if x.Op == token.MUL {
			if a := p.localCell(x.X); a != nil {
				vals := p.cellStores(a)
				if len(vals) == 0 {
					return false
				}
				for _, v := range vals {
					if c, ok := constBool(v); ok {
						if c == pol {
							return false
						}
						continue
					}
					if !p.implies(v, pol, m, depth+1) {
						return false
					}
				}
				return true
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			// b == true / b != false
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := constBool(pr[1]); ok {
					want := c == (x.Op == token.EQL)
					return p.implies(pr[0], pol == want, m, depth+1)
				}
			}
		}
	case *ssa.Phi:
		any := false
		for i, e := range x.Edges {
			if c, ok := constBool(e); ok && c != pol {
				continue
			}
			any = true
			pred := x.Block().Preds[i]
			ok := false
			if _, isC := constBool(e); !isC && p.implies(e, pol, m, depth+1) {
				ok = true
			}
			if !ok && p.edgeGuarded(pred, x.Block(), m, depth+1) {
				ok = true
			}
			if !ok {
				return false
			}
		}
		return any
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && p.inRepo[f] && len(f.Blocks) > 0 {
				return p.returnImplies(f, x.Index, pol, m, depth+1)
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && p.inRepo[f] && len(f.Blocks) > 0 {
			return p.returnImplies(f, 0, pol, m, depth+1)
		}
		for _, f := range p.FuncValues(x.Call.Value) {
			if len(f.Blocks) > 0 && p.inRepo[f] {
				return p.returnImplies(f, 0, pol, m, depth+1)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		for i, pr := range f.Params {
			if pr != x {
				continue
			}
			args, complete := p.paramArgs(f, i)
			if !complete || len(args) == 0 {
				return false
			}
			for _, a := range args {
				if c, ok := constBool(a); ok {
					if c == pol {
						return false
					}
					continue
				}
				if !p.implies(a, pol, m, depth+1) {
					return false
				}
			}
			return true
		}
	case *ssa.FreeVar:
		os := p.Origins(x, originOpts{noCalls: true, noParams: true})
		for _, o := range os {
			if o.Val == x || !p.implies(o.Val, pol, m, depth+1) {
				return false
			}
		}
		return len(os) > 0
	}
	return false
}

// returnImplies: every return of f giving pol at result idx is under m.
func (p *Prog) returnImplies(f *ssa.Function, idx int, pol bool, m atomMatch, depth int) bool {
	n := 0
	for _, r := range returnsOf(f) {
		if idx >= len(r.Results) {
			return false
		}
		v := r.Results[idx]
		if c, ok := constBool(v); ok && c != pol {
			continue
		}
		n++
		if _, isC := constBool(v); !isC && p.implies(v, pol, m, depth+1) {
			continue
		}
		if p.blockGuarded(r.Block(), m, depth+1) {
			continue
		}
		return false
	}
	return n > 0
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

// reachableAvoiding: is target reachable from the function entry without
// crossing an edge on which m holds, nor a block for which stopBlock says
// so (its instructions before target excluded)?
func (p *Prog) reachableAvoiding(fn *ssa.Function, target *ssa.BasicBlock, m atomMatch, depth int) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	stack = append(stack, fn.Blocks[0])
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == target {
			return true
		}
		for i, s := range b.Succs {
			if p.edgeHolds(b, i, m, depth) {
				continue
			}
			stack = append(stack, s)
		}
	}
	return false
}

func (p *Prog) edgeHolds(b *ssa.BasicBlock, succ int, m atomMatch, depth int) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if b.Succs[0] == b.Succs[1] {
		return false
	}
	return p.implies(iff.Cond, succ == 0, m, depth)
}

func (p *Prog) blockGuarded(b *ssa.BasicBlock, m atomMatch, depth int) bool {
	fn := b.Parent()
	if b == fn.Blocks[0] {
		return false
	}
	defer enterGuard(depth)()
	return gm.eval(gkey{nil, b, false, 1}, func() bool { return !p.reachableAvoiding(fn, b, m, depth+1) })
}

// guardMemo remembers the answers of one guard query. A query met again
// while it is being answered holds (every answer is about an earlier point
// of the execution, so this is an induction on its length).
type gkey struct {
	v    ssa.Value
	b    *ssa.BasicBlock
	pol  bool
	kind int
}

type guardMemo struct {
	done map[gkey]bool
	open map[gkey]int
	low  int // outermost open query an answer being computed relied on
}

var gm *guardMemo

func enterGuard(depth int) func() {
	if depth > 0 && gm != nil {
		return func() {}
	}
	old := gm
	gm = &guardMemo{done: map[gkey]bool{}, open: map[gkey]int{}, low: 1 << 30}
	return func() { gm = old }
}

func (g *guardMemo) eval(k gkey, f func() bool) bool {
	if r, ok := g.done[k]; ok {
		return r
	}
	if d, ok := g.open[k]; ok {
		if d < g.low {
			g.low = d
		}
		return true
	}
	lvl := len(g.open)
	g.open[k] = lvl
	saved := g.low
	g.low = 1 << 30
	r := f()
	delete(g.open, k)
	mine := g.low
	if !r || mine >= lvl {
		g.done[k] = r
		mine = 1 << 30
	}
	g.low = saved
	if mine < g.low {
		g.low = mine
	}
	return r
}

// edgeGuarded: every path taking the edge pred->b crosses an m edge (that
// edge itself included).
func (p *Prog) edgeGuarded(pred, b *ssa.BasicBlock, m atomMatch, depth int) bool {
	all := true
	n := 0
	for i, s := range pred.Succs {
		if s == b {
			n++
			if !p.edgeHolds(pred, i, m, depth) {
				all = false
			}
		}
	}
	if n > 0 && all {
		return true
	}
	return p.blockGuarded(pred, m, depth)
}

// Guarded: ins only executes when m holds; looks at the callers when the
// function itself does not say. A closure also inherits the guards of the
// place creating it.
func (p *Prog) Guarded(ins ssa.Instruction, m atomMatch) bool {
	return p.guarded(ins, m, map[*ssa.Function]bool{}, 0)
}

func (p *Prog) guarded(ins ssa.Instruction, m atomMatch, busy map[*ssa.Function]bool, depth int) bool {
	if p.blockGuarded(ins.Block(), m, 0) {
		return true
	}
	fn := ins.Parent()
	if depth > 8 || busy[fn] {
		return false
	}
	busy[fn] = true
	defer delete(busy, fn)
	// closure: creation site guarded
	if mcs := p.closures[fn]; len(mcs) > 0 {
		all := true
		for _, mc := range mcs {
			if !p.guarded(mc, m, busy, depth+1) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	sites, complete := p.CallSitesOf(fn)
	if !complete || len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		if !p.guarded(s.ins, m, busy, depth+1) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- misc

func calleeName(c ssa.CallInstruction) string {
	cm := c.Common()
	if cm.IsInvoke() {
		return "(" + cm.Value.Type().String() + ")." + cm.Method.Name()
	}
	if f := cm.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic:" + cm.Value.Type().String()
}

// fnName is pkgpath.Func or pkgpath.(*T).M, for a generic its origin.
func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		return f.Object().(*types.Func).FullName()
	}
	return f.String()
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, rootMod+"/", "")
	return s
}

func isCallTo(ins ssa.Instruction, names ...string) (ssa.CallInstruction, bool) {
	c, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	n := calleeName(c)
	for _, w := range names {
		if n == w {
			return c, true
		}
	}
	return nil, false
}

// eachInstr visits the instructions of f.
func eachInstr(f *ssa.Function, visit func(ssa.Instruction)) {
	live := liveBlocks(f)
	for _, b := range f.Blocks {
		if !live[b] {
			continue
		}
		for _, ins := range b.Instrs {
			visit(ins)
		}
	}
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// mayFollow: can b execute after a in the same function (a before b in one
// block, or b's block reachable from a's)?
func mayFollow(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a == b {
		return blockReaches(a.Block().Succs, b.Block())
	}
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				break
			}
			if i == b {
				// b before a: only through a cycle
				return blockReaches(a.Block().Succs, b.Block())
			}
		}
		return true
	}
	return blockReaches(a.Block().Succs, b.Block())
}

func blockReaches(from []*ssa.BasicBlock, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), from...)
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == to {
			return true
		}
		st = append(st, b.Succs...)
	}
	return false
}

func instrIndex(ins ssa.Instruction) int {
	for i, x := range ins.Block().Instrs {
		if x == ins {
			return i
		}
	}
	return -1
}

// alwaysBefore: every path from entry to target passes an instruction for
// which is() holds, before target.
func alwaysBefore(target ssa.Instruction, is func(ssa.Instruction) bool) bool {
	fn := target.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		blocked := false
		for _, ins := range b.Instrs {
			if ins == target {
				return false
			}
			if is(ins) {
				blocked = true
				break
			}
		}
		if !blocked {
			st = append(st, liveSuccs(b)...)
		}
	}
	return true
}

// liveSuccs: the successors a constant condition does not exclude.
func liveSuccs(b *ssa.BasicBlock) []*ssa.BasicBlock {
	if iff, ok := lastIf(b); ok {
		if k, ok := constBool(iff.Cond); ok {
			if k {
				return b.Succs[:1]
			}
			return b.Succs[1:]
		}
	}
	return b.Succs
}

// alwaysAfter: every path from ins to a normal function exit passes an
// instruction for which is() holds. Returns the offending return otherwise.
func alwaysAfter(ins ssa.Instruction, is func(ssa.Instruction) bool, exits func(ssa.Instruction) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for _, x := range b.Instrs[from:] {
			if is(x) {
				return nil
			}
			if exits(x) {
				return x
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if bad := walk(s, 0); bad != nil {
				return bad
			}
		}
		return nil
	}
	return walk(ins.Block(), instrIndex(ins)+1)
}

func isReturn(i ssa.Instruction) bool { _, ok := i.(*ssa.Return); return ok }

var liveCache = map[*ssa.Function]map[*ssa.BasicBlock]bool{}

// liveBlocks are the blocks reachable from the entry (and the recover
// block) without crossing an edge a constant condition excludes.
func liveBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if l, ok := liveCache[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]bool{}
	if len(f.Blocks) > 0 {
		st := []*ssa.BasicBlock{f.Blocks[0]}
		if f.Recover != nil {
			st = append(st, f.Recover)
		}
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			if l[b] {
				continue
			}
			l[b] = true
			if n := len(b.Instrs); n > 0 {
				if iff, ok := b.Instrs[n-1].(*ssa.If); ok {
					if c, ok := constBool(iff.Cond); ok {
						if c {
							st = append(st, b.Succs[0])
						} else {
							st = append(st, b.Succs[1])
						}
						continue
					}
				}
			}
			st = append(st, b.Succs...)
		}
	}
	liveCache[f] = l
	return l
}

// isInternalPath: only the module itself can call the package's functions,
// and the module's packages are all loaded.
func isInternalPath(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && strings.Contains(pk.Path(), "/internal/")
}
