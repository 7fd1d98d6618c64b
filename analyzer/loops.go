package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// loopOf gives the header of the innermost natural loop holding b.
func loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		isHeader := false
		for _, p := range h.Preds {
			if h.Dominates(p) && (p == b || blockReachesWithin(b, p, h)) {
				isHeader = true
			}
		}
		if isHeader && (best == nil || best.Dominates(h)) {
			best = h
		}
	}
	return best
}

// blockReachesWithin: to is reachable from from without passing h.
func blockReachesWithin(from, to, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == to {
			return true
		}
		for _, s := range b.Succs {
			if s != h {
				st = append(st, s)
			}
		}
	}
	return false
}

// inLoop: block x belongs to the loop with header h.
func inLoop(x, h *ssa.BasicBlock) bool {
	if !h.Dominates(x) {
		return false
	}
	for _, p := range h.Preds {
		if h.Dominates(p) && (p == x || blockReachesWithin(x, p, h)) {
			return true
		}
	}
	return false
}

// skipsIteration: within its innermost loop, an iteration can complete
// without executing ins.
func skipsIteration(ins ssa.Instruction) bool {
	h := loopOf(ins.Block())
	if h == nil {
		return false
	}
	return skipsIterationUnless(ins, func(*ssa.BasicBlock, int) bool { return false })
}

// skipsIterationUnless: as skipsIteration, not crossing edges for which
// excused holds.
func skipsIterationUnless(ins ssa.Instruction, excused func(b *ssa.BasicBlock, succ int) bool) bool {
	h := loopOf(ins.Block())
	if h == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	if h == ins.Block() {
		return false
	}
	for i, s := range h.Succs {
		if inLoop(s, h) && !excused(h, i) {
			st = append(st, s)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || b == ins.Block() {
			continue
		}
		if b == h {
			return true
		}
		seen[b] = true
		for i, s := range b.Succs {
			if excused(b, i) {
				continue
			}
			if s == h {
				return true
			}
			if inLoop(s, h) {
				st = append(st, s)
			}
		}
	}
	return false
}

// loopCoversAll: idx is the index of a loop running over every element of
// one list: from 0 (or len-1 downwards) in steps of one to len (or 0).
func loopCoversAll(p *Prog, idx ssa.Value) bool {
	ok, _ := loopRange(p, idx)
	return ok
}

// linForm is a sum of unknowns and a constant.
type linForm struct {
	c  int64
	co map[ssa.Value]int64
}

func (l linForm) add(o linForm, k int64) linForm {
	r := linForm{l.c + k*o.c, map[ssa.Value]int64{}}
	for v, n := range l.co {
		r.co[v] += n
	}
	for v, n := range o.co {
		r.co[v] += k * n
	}
	for v, n := range r.co {
		if n == 0 {
			delete(r.co, v)
		}
	}
	return r
}

func (l linForm) isConst(n int64) bool { return len(l.co) == 0 && l.c == n }

// linCtx gives equal lengths one name.
type linCtx struct {
	p     *Prog
	atoms []ssa.Value
}

func (x *linCtx) atom(v ssa.Value) ssa.Value {
	for _, a := range x.atoms {
		if a == v || structEq(x.p, a, v, 0) {
			return a
		}
		if la, lv := lenArg(a), lenArg(v); la != nil && lv != nil && sameSource(x.p, la, lv) {
			return a
		}
		// the same argumentless query (reflect's NumIn and the like)
		if ca, ok := a.(*ssa.Call); ok {
			if cv, ok := v.(*ssa.Call); ok && sameQuery(x.p, ca, cv) {
				return a
			}
		}
	}
	x.atoms = append(x.atoms, v)
	return v
}

func sameQuery(p *Prog, a, b *ssa.Call) bool {
	if a.Call.IsInvoke() != b.Call.IsInvoke() {
		return false
	}
	if a.Call.IsInvoke() {
		return a.Call.Method == b.Call.Method && len(a.Call.Args) == 0 && len(b.Call.Args) == 0 && sameSource(p, a.Call.Value, b.Call.Value)
	}
	f := a.Call.StaticCallee()
	return f != nil && f == b.Call.StaticCallee() && f.Signature.Recv() != nil && len(a.Call.Args) == 1 && len(b.Call.Args) == 1 && sameSource(p, a.Call.Args[0], b.Call.Args[0])
}

func (x *linCtx) form(v ssa.Value, d int) linForm {
	if n, ok := constInt(v); ok {
		return linForm{c: n}
	}
	if d < 12 {
		switch y := v.(type) {
		case *ssa.BinOp:
			switch y.Op {
			case token.ADD:
				return x.form(y.X, d+1).add(x.form(y.Y, d+1), 1)
			case token.SUB:
				return x.form(y.X, d+1).add(x.form(y.Y, d+1), -1)
			}
		case *ssa.Convert:
			return x.form(y.X, d+1)
		case *ssa.Phi:
		default:
			if os := x.p.Origins(v, originOpts{noCalls: true, noParams: true}); len(os) == 1 && os[0].Val != v {
				return x.form(os[0].Val, d+1)
			}
		}
	}
	return linForm{co: map[ssa.Value]int64{x.atom(v): 1}}
}

// loopRange recognises the loop an index value belongs to: over every
// element of one list, each once, upwards or downwards; it gives the list
// (or the query for a number of things) bounding it.
func loopRange(p *Prog, idx ssa.Value) (bool, ssa.Value) {
	dir, l := loopRangeDir(p, idx)
	return dir != 0, l
}

// loopRangeDir: as loopRange; 1 upwards, -1 downwards, 0 not recognised.
func loopRangeDir(p *Prog, idx ssa.Value) (int, ssa.Value) {
	dir, l, _ := loopRangeTest(p, idx)
	return dir, l
}

// loopWhole: as loopRange, and nothing but a panic leaves the loop before the
// end, except by edges excused accepts.
func loopWhole(p *Prog, idx ssa.Value, excused func(b *ssa.BasicBlock, succ int) bool) (bool, ssa.Value) {
	dir, l, test := loopRangeTest(p, idx)
	if dir == 0 {
		return false, nil
	}
	h := loopOf(test)
	for _, b := range test.Parent().Blocks {
		if b == test || !inLoop(b, h) {
			continue
		}
		for i, s := range b.Succs {
			if inLoop(s, h) || endsInPanic(s) || excused != nil && excused(b, i) {
				continue
			}
			return false, l
		}
	}
	return true, l
}

// loopRangeTest: as loopRangeDir, with the block testing for the end.
func loopRangeTest(p *Prog, idx ssa.Value) (int, ssa.Value, *ssa.BasicBlock) {
	x := &linCtx{p: p}
	form := x.form(idx, 0)
	var ph *ssa.Phi
	for v := range form.co {
		if y, ok := v.(*ssa.Phi); ok {
			if ph != nil {
				return 0, nil, nil
			}
			ph = y
		}
	}
	if ph == nil {
		return 0, nil, nil
	}
	sign := form.co[ph]
	if sign != 1 && sign != -1 {
		return 0, nil, nil
	}
	rest := form.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -sign)
	// the start and the step
	var init *linForm
	var step int64
	for _, e := range ph.Edges {
		f := x.form(e, 0)
		if f.co[ph] == 1 {
			d := f.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1)
			if len(d.co) != 0 || d.c != 1 && d.c != -1 || step != 0 && step != d.c {
				return 0, nil, nil
			}
			step = d.c
			continue
		}
		if init != nil {
			if eq := init.add(f, -1); !eq.isConst(0) {
				return 0, nil, nil
			}
		}
		g := f
		init = &g
	}
	if init == nil || step == 0 {
		return 0, nil, nil
	}
	// the test
	h := ph.Block()
	for _, b := range h.Parent().Blocks {
		if !inLoop(b, h) || len(b.Instrs) == 0 || !b.Dominates(blockOf(idx, h)) && b != h {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || inLoop(b.Succs[0], h) == inLoop(b.Succs[1], h) {
			continue
		}
		pol := inLoop(b.Succs[0], h)
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		diff := x.form(cond.X, 0).add(x.form(cond.Y, 0), -1) // X - Y op 0
		op := cond.Op
		if !pol {
			op = negCmp(op)
		}
		k := diff.co[ph]
		if k == -1 {
			diff = (linForm{}).add(diff, -1)
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		} else if k != 1 {
			continue
		}
		// ph + r op 0: continues while ph op -r
		bound := (linForm{}).add(diff.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1), -1)
		var last linForm
		one := linForm{c: 1}
		switch {
		case step == 1 && (op == token.LSS || op == token.NEQ):
			last = bound.add(one, -1)
		case step == 1 && op == token.LEQ:
			last = bound
		case step == -1 && (op == token.GTR || op == token.NEQ):
			last = bound.add(one, 1)
		case step == -1 && op == token.GEQ:
			last = bound
		default:
			continue
		}
		a := rest.add(*init, sign)
		z := rest.add(last, sign)
		for i := 0; i < 2; i++ {
			if a.isConst(0) && z.c == -1 && len(z.co) == 1 {
				for v, n := range z.co {
					if n != 1 {
						break
					}
					if l := lenArg(v); l != nil {
						return 1 - 2*i, l, b
					}
					if _, ok := v.(*ssa.Call); ok {
						return 1 - 2*i, v, b
					}
				}
			}
			a, z = z, a
		}
	}
	return 0, nil, nil
}

func blockOf(v ssa.Value, def *ssa.BasicBlock) *ssa.BasicBlock {
	if i, ok := v.(ssa.Instruction); ok && i.Block() != nil {
		return i.Block()
	}
	return def
}

func negCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func loopIsWhole(p *Prog, idx ssa.Value) bool {
	ok, _ := loopWhole(p, idx, nil)
	return ok
}

// mapLoopLeftEarly: the loop over a map ins is in can be left, other than by
// a panic, before the map is exhausted.
func mapLoopLeftEarly(ins ssa.Instruction) bool {
	for h := loopOf(ins.Block()); h != nil; h = outerLoop(h) {
		var test *ssa.BasicBlock
		for _, b := range h.Parent().Blocks {
			if !inLoop(b, h) || loopOf(b) != h {
				continue
			}
			iff, ok := lastIf(b)
			if !ok {
				continue
			}
			if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 {
				if _, isN := ex.Tuple.(*ssa.Next); isN && !inLoop(b.Succs[1], h) {
					test = b
				}
			}
		}
		if test == nil {
			continue
		}
		for _, b := range h.Parent().Blocks {
			if b == test || !inLoop(b, h) {
				continue
			}
			for _, s := range b.Succs {
				if !inLoop(s, h) && !endsInPanic(s) {
					return true
				}
			}
		}
	}
	return false
}

// outerLoop: the header of the loop around the one with header h.
func outerLoop(h *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for _, b := range h.Parent().Blocks {
		if b != h && b.Dominates(h) && inLoop(h, b) && isLoopHeader(b) && (best == nil || best.Dominates(b)) {
			best = b
		}
	}
	return best
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}
