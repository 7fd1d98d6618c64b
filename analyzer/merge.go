package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// listLoad: v is a list read straight from a registry field.
func (m *RTModel) listLoad(v ssa.Value) (f *types.Var, reg ssa.Value) {
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Index == 0 {
			return m.listLoad(x.Tuple)
		}
	case *ssa.Lookup:
		f, reg = m.regField(x.X)
	case *ssa.UnOp:
		if m.isHolderList(x.Type()) {
			f, reg = m.regField(x)
		}
	}
	return f, reg
}

// partial: v is a list cut out of another one.
func partialList(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.Slice:
			if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
				return false
			}
			if x.Low != nil {
				if k, ok := constInt(x.Low); !ok || k != 0 {
					return true
				}
			}
			if x.High != nil {
				l := lenArg(x.High)
				if l == nil || l != x.X {
					// list[:0] is an empty list to append to
					if k, ok := constInt(x.High); !ok || k != 0 {
						return true
					}
				}
			}
			return walk(x.X)
		}
		return false
	}
	return walk(v)
}

// mergesBoth: what a lookup of recorders or interceptors gives holds the
// registrations of both scopes: on each path, a list not part of the result
// is known to be empty.
func (m *RTModel) mergesBoth(c *Ctx) {
	p := m.p
	create := m.inCreate()
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtTrap }) {
		if create[fn] || len(fn.Blocks) == 0 {
			continue
		}
		sig := fn.Signature.Results()
		ri := -1
		for i := 0; i < sig.Len(); i++ {
			if m.isHolderList(sig.At(i).Type()) {
				ri = i
			}
		}
		if ri < 0 {
			continue
		}
		type scoped struct {
			local, global []ssa.Value
		}
		by := map[*types.Var]*scoped{}
		eachInstr(fn, func(ins ssa.Instruction) {
			v, ok := ins.(ssa.Value)
			if !ok || !m.isHolderList(v.Type()) {
				return
			}
			f, reg := m.listLoad(v)
			if f == nil || m.isMock(f) {
				return
			}
			if by[f] == nil {
				by[f] = &scoped{}
			}
			glob := false
			for _, o := range p.Origins(reg, originOpts{noParams: true}) {
				if o.Val == ssa.Value(m.Global) {
					glob = true
				}
			}
			if glob {
				by[f].global = append(by[f].global, v)
			} else {
				by[f].local = append(by[f].local, v)
			}
		})
		var groups []struct {
			name string
			a, b []ssa.Value
			nilA bool
		}
		for _, f := range m.RegFields {
			if s := by[f]; s != nil && len(s.local) > 0 && len(s.global) > 0 {
				groups = append(groups, struct {
					name string
					a, b []ssa.Value
					nilA bool
				}{f.Name(), s.local, s.global, true})
			}
		}
		// a helper that joins two lists it is given
		if len(groups) == 0 {
			var ps []ssa.Value
			for _, pr := range fn.Params {
				if m.isHolderList(pr.Type()) && types.Identical(pr.Type(), sig.At(ri).Type()) {
					ps = append(ps, pr)
				}
			}
			if len(ps) == 2 && m.joinsScopes(fn) {
				groups = append(groups, struct {
					name string
					a, b []ssa.Value
					nilA bool
				}{"lists", ps[:1], ps[1:], false})
			}
		}
		for _, g := range groups {
			c.Obl("both-scopes", shortFn(fn)+" joins "+g.name)
			paths, ok := enumPaths(fn, 2000)
			if !ok {
				continue
			}
			for _, t := range paths {
				if t.ret == nil || ri >= len(t.ret.Results) {
					continue
				}
				lens := pathLens(p, t)
				if lens == nil {
					continue
				}
				got, unknown, cut := m.contributes(t, t.ret.Results[ri])
				if unknown {
					continue
				}
				for i, side := range [][]ssa.Value{g.a, g.b} {
					in, empty := false, true
					read := false
					for _, v := range side {
						if got[v] {
							in = true
						}
						if vi, ok := v.(ssa.Instruction); !ok || onPath(t, vi.Block()) {
							read = true
							if !lens.empty(v) {
								empty = false
							}
						}
					}
					if in {
						continue
					}
					if !read {
						empty = i == 0 && g.nilA && t.knows(p, func(cond ssa.Value, pol bool) bool {
							b, ok := cond.(*ssa.BinOp)
							if !ok || (b.Op == token.EQL) != pol || b.Op != token.EQL && b.Op != token.NEQ {
								return false
							}
							for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
								if isNilConst(pr[1]) && (isPtrTo(pr[0].Type(), m.Data) || isNamed(pr[0].Type(), rtStack, "Stack")) {
									return true
								}
							}
							return false
						})
					}
					if !empty {
						scope := "the goroutine's own"
						if i == 1 {
							scope = "the process-wide"
						}
						if !g.nilA {
							scope = "one of the two"
						}
						c.Viol("both-scopes", c.Pos(p, t.ret.Pos()), shortFn(fn)+" "+g.name, "the result may leave out %s registrations though there are some", scope)
					}
				}
				if cut {
					c.Viol("both-scopes", c.Pos(p, t.ret.Pos()), shortFn(fn)+" "+g.name, "the result may hold only a part of a list of registrations")
				}
			}
		}
	}
}

// joinsScopes: fn is called with a list of each scope.
func (m *RTModel) joinsScopes(fn *ssa.Function) bool {
	sites, _ := m.p.CallSitesOf(fn)
	for _, cs := range sites {
		cl := cs.ins
		l, g, mock := false, false, false
		for _, a := range cl.Common().Args {
			if !m.isHolderList(a.Type()) {
				continue
			}
			for f, regs := range listFields(m, a) {
				if m.isMock(f) {
					mock = true
				}
				for _, r := range regs {
					for _, o := range m.p.Origins(r, originOpts{noParams: true}) {
						if o.Val == ssa.Value(m.Global) {
							g = true
						} else {
							l = true
						}
					}
				}
			}
		}
		if l && g && !mock {
			return true
		}
	}
	return false
}

func onPath(t *ptrace, b *ssa.BasicBlock) bool {
	for _, x := range t.blocks {
		if x == b {
			return true
		}
	}
	return false
}

type listLens map[ssa.Value]bool

func (l listLens) empty(v ssa.Value) bool { return l[v] }

// pathLens gives the lists the path knows to be empty; nil when the path's
// conditions contradict each other.
func pathLens(p *Prog, t *ptrace) listLens {
	out := listLens{}
	non := map[ssa.Value]bool{}
	for _, cd := range t.conds {
		// a nil list is empty
		if b, ok := cd.v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.Op == token.EQL) == cd.pol {
			if isNilConst(b.Y) {
				out[t.resolve(b.X)] = true
			}
		}
		if x, ok := cd.v.(*ssa.Extract); ok && x.Index == 1 && !cd.pol {
			// no entry under the key
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && lk.Referrers() != nil {
				for _, r := range *lk.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
						out[e] = true
					}
				}
			}
		}
		l, op, k, ok := lenCompare(cd.v, cd.pol)
		if !ok {
			// len(a)+len(b) == 0
			if x, op, k, ok := normCompare(cd.v, cd.pol); ok && impliesEmpty(op, k) {
				if s, ok := x.(*ssa.BinOp); ok && s.Op == token.ADD {
					for _, y := range []ssa.Value{s.X, s.Y} {
						if l := lenArg(y); l != nil {
							out[t.resolve(l)] = true
						}
					}
				}
			}
			continue
		}
		l = t.resolve(l)
		if impliesEmpty(op, k) {
			out[l] = true
		}
		if impliesNonEmpty(op, k) || op == token.GTR && k >= 0 || op == token.GEQ && k > 0 || op == token.EQL && k > 0 {
			non[l] = true
		}
	}
	for v := range non {
		if out[v] {
			return nil
		}
		if k, ok := v.(*ssa.Const); ok && k.IsNil() {
			return nil
		}
	}
	return out
}

// contributes gives the lists v is made of along the path.
func (m *RTModel) contributes(t *ptrace, v ssa.Value) (got map[ssa.Value]bool, unknown, cut bool) {
	got = map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if throughLoop(v) {
			// built in a loop, which a path does not go around
			unknown = true
			return
		}
		v = t.resolve(v)
		if seen[v] {
			return
		}
		seen[v] = true
		if f, _ := m.listLoad(v); f != nil {
			got[v] = true
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Parameter:
			got[x] = true
		case *ssa.MakeSlice:
			for _, s := range copiedInto(m.p, x) {
				if m.isHolderList(s.Type()) {
					walk(s)
					continue
				}
				unknown = true
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a literal; its elements are holders
				_ = al
				unknown = true
				return
			}
			if partialList(x) {
				cut = true
			}
			walk(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					if sl, ok := a.(*ssa.Slice); ok {
						if _, isArr := sl.X.(*ssa.Alloc); isArr {
							unknown = true
							continue
						}
					}
					walk(a)
				}
				return
			}
			n := 0
			for _, a := range x.Call.Args {
				if m.isHolderList(a.Type()) {
					n++
					walk(a)
				}
			}
			if n == 0 {
				unknown = true
			}
		default:
			unknown = true
		}
	}
	walk(v)
	return got, unknown, cut
}

// throughLoop: v may come from an earlier round of a loop.
func throughLoop(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		ph, ok := v.(*ssa.Phi)
		if !ok || seen[v] {
			return false
		}
		seen[v] = true
		if loopOf(ph.Block()) == ph.Block() {
			return true
		}
		for _, e := range ph.Edges {
			if walk(e) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// dataKept: a goroutine's data, which holds its registrations and its
// tracing state, is only put in place when there is none.
func (m *RTModel) dataKept(c *Ctx, rule string) {
	p := m.p
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtTrap }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			callee := cl.Common().StaticCallee()
			if callee == nil || fnPkg(callee) == nil || fnPkg(callee).Path() != rtStack {
				return
			}
			puts := false
			for _, a := range cl.Common().Args {
				if mi, ok := a.(*ssa.MakeInterface); ok && isPtrTo(mi.X.Type(), m.Data) {
					puts = true
				}
			}
			if !puts {
				return
			}
			c.Obl(rule, shortFn(fn)+" at "+c.Pos(p, ins.Pos()))
			absent := func(cond ssa.Value, pol bool) bool {
				if e, ok := cond.(*ssa.Extract); ok && e.Index == 1 && !pol {
					if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && isPtrTo(ta.AssertedType, m.Data) {
						return true
					}
				}
				b, ok := cond.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != pol {
					return false
				}
				for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if !isNilConst(pr[1]) {
						continue
					}
					if isPtrTo(pr[0].Type(), m.Data) {
						return true
					}
					for _, o := range p.Origins(pr[0], originOpts{}) {
						if q, ok := o.Val.(*ssa.Call); ok {
							if g := q.Call.StaticCallee(); g != nil && fnPkg(g) != nil && fnPkg(g).Path() == rtStack {
								return true
							}
						}
					}
				}
				return false
			}
			if m.guardedUp(ins, absent, 0) {
				return
			}
			c.Viol(rule, c.Pos(p, ins.Pos()), shortFn(fn), "a goroutine's registrations and tracing state may be replaced by new ones while it has some")
		})
	}
}

// guardedUp: ins, or each call leading to it, is guarded by m.
func (m *RTModel) guardedUp(ins ssa.Instruction, am atomMatch, d int) bool {
	if m.p.Guarded(ins, am) {
		return true
	}
	cs, all := m.p.CallSitesOf(ins.Parent())
	if len(cs) == 0 || !all || d > 4 {
		return false
	}
	for _, cl := range cs {
		if !m.guardedUp(cl.ins, am, d+1) {
			return false
		}
	}
	return true
}

// avoidable: some path through ins's function leaves it out for a reason
// excuse does not accept.
func (m *RTModel) avoidable(ins ssa.Instruction, excuse atomMatch) bool {
	fn := ins.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	live := liveBlocks(fn)
	st := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || b == ins.Block() || !live[b] {
			continue
		}
		seen[b] = true
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
		for i, s := range b.Succs {
			if m.p.edgeHolds(b, i, excuse, 0) {
				continue
			}
			st = append(st, s)
		}
	}
	return false
}

// avoidableUp is avoidable also for the calls leading to ins from within fns.
func (m *RTModel) avoidableUp(ins ssa.Instruction, fns map[*ssa.Function]bool, excuse atomMatch, d int) ssa.Instruction {
	if m.avoidable(ins, excuse) {
		return ins
	}
	if d > 4 {
		return nil
	}
	sites, _ := m.p.CallSitesOf(ins.Parent())
	for _, cs := range sites {
		cl := cs.ins
		if fns[cl.Parent()] && cl.Parent() != ins.Parent() {
			if x := m.avoidableUp(cl, fns, excuse, d+1); x != nil {
				return x
			}
		}
	}
	return nil
}
