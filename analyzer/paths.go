package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Paths through small functions: each way from the entry to a return that
// visits no block twice.

type pcond struct {
	v   ssa.Value
	pol bool
}

type ptrace struct {
	fn     *ssa.Function
	blocks []*ssa.BasicBlock
	conds  []pcond
	phi    map[*ssa.Phi]ssa.Value
	ret    *ssa.Return
	end    *ssa.BasicBlock
}

// enumPaths gives the paths of fn, and whether there were at most max.
func enumPaths(fn *ssa.Function, max int) ([]*ptrace, bool) {
	if len(fn.Blocks) == 0 {
		return nil, true
	}
	return enumRegion(fn.Blocks[0], nil, nil, max)
}

// enumRegion gives the paths from start, entered from from, to a return or to
// the first block stop accepts.
func enumRegion(start, from *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool, max int) ([]*ptrace, bool) {
	fn := start.Parent()
	var out []*ptrace
	over := false
	var walk func(t *ptrace, b, from *ssa.BasicBlock)
	walk = func(t *ptrace, b, from *ssa.BasicBlock) {
		if over {
			return
		}
		for _, x := range t.blocks {
			if x == b {
				return
			}
		}
		n := &ptrace{fn: fn, phi: map[*ssa.Phi]ssa.Value{}}
		n.blocks = append(append(n.blocks, t.blocks...), b)
		n.conds = append(n.conds, t.conds...)
		for k, v := range t.phi {
			n.phi[k] = v
		}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == from {
					n.phi[ph] = t.resolve(ph.Edges[i])
				}
			}
		}
		if stop != nil && stop(b) {
			n.end = b
			if len(out) >= max {
				over = true
				return
			}
			out = append(out, n)
			return
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			n.ret = x
			n.end = b
			if len(out) >= max {
				over = true
				return
			}
			out = append(out, n)
			return
		case *ssa.If:
			v := n.resolve(x.Cond)
			for i, s := range b.Succs {
				w, p := n.atom(v, i == 0)
				if k, ok := constBool(w); ok {
					if k != p {
						continue
					}
					walk(n, s, b)
					continue
				}
				if n.clashes(w, p) {
					continue
				}
				m := &ptrace{fn: fn, blocks: n.blocks, phi: n.phi}
				m.conds = append(append(m.conds, n.conds...), pcond{w, p})
				walk(m, s, b)
			}
			return
		}
		for _, s := range b.Succs {
			walk(n, s, b)
		}
	}
	walk(&ptrace{fn: fn, phi: map[*ssa.Phi]ssa.Value{}}, start, from)
	return out, !over
}

// atom strips negations.
func (t *ptrace) atom(v ssa.Value, p bool) (ssa.Value, bool) {
	w := v
	for {
		u, ok := w.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return w, p
		}
		w, p = t.resolve(u.X), !p
	}
}

// clashes: w being p contradicts what the path knows.
func (t *ptrace) clashes(w ssa.Value, p bool) bool {
	eq := func(v ssa.Value, p bool) (ssa.Value, ssa.Value, bool, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil, nil, false, false
		}
		return t.resolve(b.X), t.resolve(b.Y), (b.Op == token.EQL) == p, true
	}
	x, y, is, ok := eq(w, p)
	if ok {
		k1, c1 := x.(*ssa.Const)
		k2, c2 := y.(*ssa.Const)
		if c1 && c2 && types.Identical(k1.Type(), k2.Type()) && sameConst(k1, k2) != is {
			return true
		}
	}
	for _, c := range t.conds {
		if c.v == w && c.pol != p {
			return true
		}
		if sameLoad(c.v, w) && c.pol != p {
			return true
		}
		if !ok {
			continue
		}
		x2, y2, is2, ok2 := eq(c.v, c.pol)
		if !ok2 || !sameLoad(x, x2) {
			continue
		}
		k1, c1 := y.(*ssa.Const)
		k2, c2 := y2.(*ssa.Const)
		if c1 && c2 {
			same := sameConst(k1, k2)
			if same && is != is2 || !same && is && is2 {
				return true
			}
		}
	}
	return false
}

// with is the path with one condition more; nil when that contradicts it.
func (t *ptrace) with(v ssa.Value, p bool) *ptrace {
	w, p := t.atom(t.resolve(v), p)
	if k, ok := constBool(w); ok {
		if k != p {
			return nil
		}
		return t
	}
	if t.clashes(w, p) {
		return nil
	}
	n := *t
	n.conds = append(append([]pcond{}, t.conds...), pcond{w, p})
	return &n
}

// resolve follows the phis the path decides, and conversions between types
// with one underlying type.
func (t *ptrace) resolve(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			w, ok := t.phi[x]
			if !ok {
				return v
			}
			v = w
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
}

// each visits the instructions of the path in order.
func (t *ptrace) each(f func(ssa.Instruction)) {
	for _, b := range t.blocks {
		for _, ins := range b.Instrs {
			f(ins)
		}
	}
}

// knows: the path's conditions entail what m accepts.
func (t *ptrace) knows(p *Prog, m atomMatch) bool {
	for _, c := range t.conds {
		if p.implies(c.v, c.pol, m, 0) {
			return true
		}
	}
	return false
}

// derives: v is computed from something is accepts, along the path.
func (t *ptrace) derives(v ssa.Value, is func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		v = t.resolve(v)
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if is(v) {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && visit(*op) {
				return true
			}
		}
		if sl, ok := v.(*ssa.Slice); ok {
			for _, e := range variadicArgs(sl) {
				if visit(e) {
					return true
				}
			}
		}
		return false
	}
	return visit(v)
}

func sameConst(a, b *ssa.Const) bool {
	if a.Value == nil || b.Value == nil {
		return a.Value == nil && b.Value == nil
	}
	return a.Value.Kind() == b.Value.Kind() && constant.Compare(a.Value, token.EQL, b.Value)
}
