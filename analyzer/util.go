package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func joinSorted(l []string) string {
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// normCompare reads cond==pol as "x op k" with op one of == != < <= > >=.
func normCompare(cond ssa.Value, pol bool) (x ssa.Value, op token.Token, k int64, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB {
		return nil, 0, 0, false
	}
	op = b.Op
	x = b.X
	kk, isC := constInt(b.Y)
	if !isC {
		kk, isC = constInt(b.X)
		if !isC {
			return nil, 0, 0, false
		}
		x = b.Y
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !pol {
		op = negOp(op)
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return x, op, kk, true
	}
	return nil, 0, 0, false
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return token.ILLEGAL
}

// lenCompare reads cond==pol as "len(list) op k".
func lenCompare(cond ssa.Value, pol bool) (list ssa.Value, op token.Token, k int64, ok bool) {
	x, op, k, ok := normCompare(cond, pol)
	if !ok {
		return nil, 0, 0, false
	}
	l := lenArg(x)
	if l == nil {
		return nil, 0, 0, false
	}
	return l, op, k, true
}

func lenArg(x ssa.Value) ssa.Value {
	cl, ok := x.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := cl.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil
	}
	return cl.Call.Args[0]
}

func impliesEmpty(op token.Token, k int64) bool {
	switch op {
	case token.EQL:
		return k == 0
	case token.LEQ:
		return k <= 0
	case token.LSS:
		return k <= 1
	}
	return false
}

func impliesNonEmpty(op token.Token, k int64) bool {
	switch op {
	case token.NEQ:
		return k == 0
	case token.EQL:
		return k > 0
	case token.GTR:
		return k >= 0
	case token.GEQ:
		return k >= 1
	}
	return false
}

// badValueReaches: some path to use, taking no edge excuse accepts, carries a
// bad value of v there.
func (p *Prog) badValueReaches(v ssa.Value, use ssa.Instruction, excuse atomMatch, bad func(ssa.Value) bool) bool {
	web := map[*ssa.Phi]bool{}
	var grow func(v ssa.Value)
	grow = func(v ssa.Value) {
		if ph, ok := unwrapIface(v).(*ssa.Phi); ok && !web[ph] {
			web[ph] = true
			for _, e := range ph.Edges {
				grow(e)
			}
		}
	}
	grow(v)
	fn := use.Parent()
	type state map[*ssa.Phi]ssa.Value
	resolve := func(s state, v ssa.Value) ssa.Value {
		v = unwrapIface(v)
		if ph, ok := v.(*ssa.Phi); ok {
			return s[ph]
		}
		return v
	}
	seen := map[string]bool{}
	var walk func(b *ssa.BasicBlock, s state) bool
	walk = func(b *ssa.BasicBlock, s state) bool {
		key := fmt.Sprint(b.Index)
		for _, bb := range fn.Blocks {
			for _, ins := range bb.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok && web[ph] {
					key += fmt.Sprintf(" %p", s[ph])
				}
			}
		}
		if seen[key] {
			return false
		}
		seen[key] = true
		if b == use.Block() {
			r := resolve(s, v)
			return r == nil || bad(r)
		}
		for i, n := range b.Succs {
			if p.edgeHolds(b, i, excuse, 0) {
				continue
			}
			ns := state{}
			for k, x := range s {
				ns[k] = x
			}
			for pi, pr := range n.Preds {
				if pr != b {
					continue
				}
				for _, ins := range n.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok && web[ph] {
						ns[ph] = resolve(s, ph.Edges[pi])
					}
				}
				break
			}
			if walk(n, ns) {
				return true
			}
		}
		return false
	}
	return walk(fn.Blocks[0], state{})
}
