package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Worker pools: every unit handed to a pool is settled exactly once, what is
// known of it is recorded before that, and nobody looks at it before all are.

// chanMakes: where the channel v was made.
func chanMakes(p *Prog, v ssa.Value) map[*ssa.MakeChan]bool {
	out := map[*ssa.MakeChan]bool{}
	for _, o := range p.Origins(v, originOpts{keep: func(v ssa.Value) bool { _, ok := v.(*ssa.MakeChan); return ok }}) {
		if m, ok := o.Val.(*ssa.MakeChan); ok {
			out[m] = true
		}
	}
	return out
}

// cellOf: the variable an address belongs to, through captures and parameters.
func cellOf(p *Prog, v ssa.Value) *ssa.Alloc {
	var got *ssa.Alloc
	os := p.Origins(v, originOpts{keep: func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }})
	for _, o := range os {
		a, ok := o.Val.(*ssa.Alloc)
		if !ok || got != nil && got != a {
			return nil
		}
		got = a
	}
	return got
}

func wgCall(p *Prog, ins ssa.Instruction, m string) (ssa.CallInstruction, *ssa.Alloc) {
	c, ok := isCallTo(ins, "(*sync.WaitGroup)."+m)
	if !ok {
		return nil, nil
	}
	return c, cellOf(p, c.Common().Args[0])
}

func sameChan(a, b map[*ssa.MakeChan]bool) bool {
	for m := range a {
		if b[m] {
			return true
		}
	}
	return false
}

// unit states, as a set of bits
const (
	uIdle  = 1 << iota // nothing at hand
	uHeld              // received, not settled
	uDone              // settled once
	uTwice             // settled more than once
)

// poolWalk follows one worker through its loop.
type poolWalk struct {
	c      *Ctx
	p      *Prog
	rule   string
	isUnit func(t types.Type) bool
	// settles: the instruction settles the unit at hand
	settles func(ins ssa.Instruction) bool
	// excused: taking this edge means there is nothing to do for the unit
	excused func(cond ssa.Value, pol bool) bool
	// record: the store records something about a unit
	record func(s *ssa.Store) bool
	recvs  int
	depth  int
	bad    map[string]bool
}

func (w *poolWalk) viol(ins ssa.Instruction, f string, a ...interface{}) {
	k := fmt.Sprintf(f, a...)
	if w.bad[k] {
		return
	}
	w.bad[k] = true
	w.c.Viol(w.rule, w.c.Pos(w.p, ins.Pos()), shortFn(ins.Parent())+": "+k, "%s", k)
}

func chanElem(v ssa.Value) types.Type {
	if t, ok := v.Type().Underlying().(*types.Chan); ok {
		return t.Elem()
	}
	return nil
}

// run gives the states a function can return in, entered in state in.
func (w *poolWalk) run(fn *ssa.Function, in int) int {
	if fn == nil || len(fn.Blocks) == 0 || w.depth > 6 {
		return in
	}
	w.depth++
	defer func() { w.depth-- }()
	state := map[*ssa.BasicBlock]int{fn.Blocks[0]: in}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	out := 0
	seen := map[[2]int]bool{}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		k := [2]int{b.Index, state[b]}
		if seen[k] {
			continue
		}
		seen[k] = true
		s := state[b]
		for _, ins := range b.Instrs {
			s = w.step(ins, s)
			if _, ok := ins.(*ssa.Return); ok {
				out |= s
			}
		}
		for i, t := range b.Succs {
			n := w.edge(b, i, s)
			if n == 0 {
				continue
			}
			if state[t]|n != state[t] {
				state[t] |= n
				work = append(work, t)
			}
		}
	}
	return out
}

func (w *poolWalk) settle(ins ssa.Instruction, s int) int {
	n := s & uIdle
	if s&uHeld != 0 {
		n |= uDone
	}
	if s&(uDone|uTwice) != 0 {
		n |= uTwice
		w.viol(ins, "a unit is settled twice")
	}
	return n
}

func (w *poolWalk) receive(ins ssa.Instruction, s int) int {
	if s&uHeld != 0 {
		w.viol(ins, "the worker takes the next unit although it has not settled the one before")
	}
	return uHeld
}

func (w *poolWalk) step(ins ssa.Instruction, s int) int {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW && w.isUnit(chanElem(x.X)) {
			w.recvs++
			return w.receive(ins, s)
		}
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.RecvOnly && w.isUnit(chanElem(st.Chan)) {
				w.recvs++
				return w.receive(ins, s)
			}
		}
	case *ssa.Store:
		if s&(uDone|uTwice) != 0 && w.record(x) {
			w.viol(ins, "something is recorded about a unit after it was reported as settled")
		}
	case *ssa.Return:
	}
	if _, ok := ins.(*ssa.RunDefers); ok {
		eachInstr(ins.Parent(), func(d ssa.Instruction) {
			call, ok := d.(*ssa.Defer)
			if !ok || !dominatesIns(d, ins) {
				return
			}
			if w.settles(d) {
				s = w.settle(d, s)
				return
			}
			for _, f := range w.p.Callees(call) {
				if isRepoFn(f) && w.touches(f, map[*ssa.Function]bool{}) {
					s = w.run(f, s)
				}
			}
		})
		return s
	}
	if _, ok := ins.(*ssa.Defer); ok {
		return s
	}
	if w.settles(ins) {
		return w.settle(ins, s)
	}
	if c, ok := ins.(*ssa.Call); ok {
		// only what receives or settles matters
		for _, f := range w.p.Callees(c) {
			if isRepoFn(f) && w.touches(f, map[*ssa.Function]bool{}) {
				return w.run(f, s)
			}
		}
	}
	return s
}

// touches: the function settles, receives or records.
func (w *poolWalk) touches(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || len(seen) > 30 {
		return false
	}
	seen[f] = true
	yes := false
	eachInstr(f, func(ins ssa.Instruction) {
		if yes {
			return
		}
		switch x := ins.(type) {
		case *ssa.UnOp:
			yes = x.Op == token.ARROW && w.isUnit(chanElem(x.X))
		case *ssa.Store:
			yes = w.record(x)
		}
		if !yes && w.settles(ins) {
			yes = true
		}
		if c, ok := ins.(ssa.CallInstruction); ok && !yes {
			for _, g := range w.p.Callees(c) {
				if isRepoFn(g) && w.touches(g, seen) {
					yes = true
				}
			}
		}
	})
	return yes
}

// edge: the state on the i-th way out of b.
func (w *poolWalk) edge(b *ssa.BasicBlock, i int, s int) int {
	iff, ok := lastIf(b)
	if !ok {
		return s
	}
	pol := i == 0
	if s&uHeld != 0 && w.p.implies(iff.Cond, pol, w.nothing, 0) {
		s = s&^uHeld | uIdle
	}
	return s
}

// nothing: the condition says no unit was received, or that there is nothing
// to do for it.
func (w *poolWalk) nothing(cond ssa.Value, pol bool) bool {
	if w.excused != nil && w.excused(cond, pol) {
		return true
	}
	if e, ok := cond.(*ssa.Extract); ok && !pol && e.Index == 1 {
		if u, ok := e.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && w.isUnit(chanElem(u.X)) {
			return true // closed
		}
		if s, ok := e.Tuple.(*ssa.Select); ok && len(s.States) == 1 {
			return true
		}
	}
	v, op, k, ok := normCompare(cond, pol)
	if !ok {
		return false
	}
	e, ok := v.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	sel, ok := e.Tuple.(*ssa.Select)
	if !ok {
		return false
	}
	unit := func(i int64) bool {
		return i >= 0 && int(i) < len(sel.States) && sel.States[i].Dir == types.RecvOnly && w.isUnit(chanElem(sel.States[i].Chan))
	}
	switch op {
	case token.EQL:
		return !unit(k)
	case token.NEQ:
		// all the others
		for i := range sel.States {
			if int64(i) != k && unit(int64(i)) {
				return false
			}
		}
		return true
	}
	return false
}

// workersAtLeastOne: the loop starting the workers runs at least once.
func workersAtLeastOne(p *Prog, g *ssa.Go) (bool, string) {
	h := loopOf(g.Block())
	if h == nil {
		return true, ""
	}
	for _, b := range g.Parent().Blocks {
		if !inLoop(b, h) {
			continue
		}
		iff, ok := lastIf(b)
		if !ok || inLoop(b.Succs[0], h) == inLoop(b.Succs[1], h) {
			continue
		}
		op, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false, "an unrecognised bound"
		}
		first, counts := int64(0), false
		if ph, ok := op.X.(*ssa.Phi); ok && ph.Block() == h {
			for i, e := range ph.Edges {
				if k, ok := constInt(e); !inLoop(h.Preds[i], h) && ok {
					first, counts = k, true
				}
			}
			if k, ok := constInt(op.Y); ok && counts {
				if cmpInt(op.Op, first, k) == inLoop(b.Succs[0], h) {
					continue
				}
				return false, "none"
			}
			down := op.Op == token.GTR || op.Op == token.GEQ || op.Op == token.NEQ
			if !down && (!counts || first > 0) {
				return false, "it does not count from zero"
			}
			if down && counts {
				return false, "an unrecognised bound"
			}
		}
		for _, v := range []ssa.Value{op.X, op.Y} {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h {
				continue
			}
			for _, o := range p.Origins(v, originOpts{keep: func(v ssa.Value) bool {
				c, ok := v.(*ssa.Call)
				return ok && (calleeName(c) == "runtime.GOMAXPROCS" || calleeName(c) == "runtime.NumCPU")
			}}) {
				switch y := o.Val.(type) {
				case *ssa.Const:
					if n, ok := constInt(y); ok && n < 1 {
						return false, fmt.Sprintf("%d workers", n)
					}
				case *ssa.Call:
					n := calleeName(y)
					if n == "runtime.GOMAXPROCS" || n == "runtime.NumCPU" {
						continue
					}
					if g.Block() == nil || !atLeastOne(p, y, g) {
						return false, "as many workers as " + n + " says"
					}
				default:
					if !atLeastOne(p, o.Val, g) {
						return false, "a number of workers that may be zero"
					}
				}
			}
		}
	}
	return true, ""
}

// atLeastOne: a test in force at ins says v is positive.
func atLeastOne(p *Prog, v ssa.Value, ins ssa.Instruction) bool {
	if c, ok := v.(*ssa.Convert); ok {
		v = c.X
	}
	return p.Guarded(ins, func(cond ssa.Value, pol bool) bool {
		x, op, k, ok := normCompare(cond, pol)
		if !ok {
			return false
		}
		same := x == v
		if !same {
			a, b := x, v
			la, ok1 := a.(*ssa.UnOp)
			lb, ok2 := b.(*ssa.UnOp)
			if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
				same = la.X == lb.X
				fa, ok1 := la.X.(*ssa.FieldAddr)
				fb, ok2 := lb.X.(*ssa.FieldAddr)
				if ok1 && ok2 {
					same = fa.X == fb.X && fa.Field == fb.Field
				}
			}
		}
		if !same {
			return false
		}
		return op == token.GTR && k >= 0 || op == token.GEQ && k >= 1 || op == token.EQL && k >= 1
	})
}

// sharedWrites: what the functions reachable from a worker write that is not
// theirs.
func sharedWrites(c *Ctx, p *Prog, rule string, root *ssa.Function, own func(t types.Type) bool) int {
	n := 0
	for f := range p.Reach([]*ssa.Function{root}, func(f *ssa.Function) bool { return !isRepoFn(f) }) {
		if !isRepoFn(f) {
			continue
		}
		n++
		locked := func(ins ssa.Instruction) bool {
			return alwaysBefore(ins, func(i ssa.Instruction) bool {
				_, ok := isCallTo(i, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
				return ok
			})
		}
		eachInstr(f, func(ins ssa.Instruction) {
			var what string
			switch x := ins.(type) {
			case *ssa.Store:
				if own != nil {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && own(fa.X.Type()) {
						return
					}
				}
				what = foreign(p, x.Addr, f, root)
			case *ssa.MapUpdate:
				what = foreign(p, x.Map, f, root)
			case *ssa.Call:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy") {
					what = foreign(p, x.Common().Args[0], f, root)
				}
			}
			if what == "" || locked(ins) {
				return
			}
			c.Viol(rule, c.Pos(p, ins.Pos()), shortFn(f)+" writes "+what, "%s runs in several goroutines at once and writes %s without a lock", shortFn(f), what)
		})
	}
	return n
}

// foreign: v belongs to no single run of the worker; "" when it does.
func foreign(p *Prog, v ssa.Value, f, root *ssa.Function) string {
	for _, o := range p.Origins(v, originOpts{keep: func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.FreeVar:
			return x.Parent() == root
		}
		return false
	}}) {
		switch x := o.Val.(type) {
		case *ssa.Global:
			if x.Pkg != nil {
				return "the variable " + x.Pkg.Pkg.Name() + "." + x.Name()
			}
		case *ssa.FreeVar:
			return "the captured variable " + x.Name()
		case *ssa.Alloc:
			if !ownedBy(x.Parent(), root) && x.Parent() == root.Parent() {
				return "the variable " + x.Comment + " of " + shortFn(x.Parent())
			}
		case *ssa.MakeMap:
			if x.Parent() == root.Parent() {
				return "a map of " + shortFn(x.Parent())
			}
		case *ssa.MakeSlice:
			if x.Parent() == root.Parent() {
				return "a buffer of " + shortFn(x.Parent())
			}
		case *ssa.Parameter:
		case *ssa.FieldAddr, *ssa.IndexAddr:
		}
	}
	// the base of an address
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return foreign(p, x.X, f, root)
	case *ssa.IndexAddr:
		return foreign(p, x.X, f, root)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return "what " + g.Pkg.Pkg.Name() + "." + g.Name() + " holds"
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok && f == root {
				if m := p.Origins(fv, originOpts{noParams: true}); len(m) > 0 {
					for _, o := range m {
						switch y := o.Val.(type) {
						case *ssa.MakeMap, *ssa.MakeSlice:
							_ = y
							return "what " + fv.Name() + " holds"
						}
					}
				}
			}
		}
	}
	return ""
}

func ownedBy(f, root *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g == root {
			return true
		}
	}
	return false
}

const loadPath = "github.com/xhd2015/xgo/instrument/load"

func runF02(c *Ctx) {
	c.Rule("settle", "every file handed to the loading pool is taken by a worker, recorded, and reported as done exactly once, on every path")
	c.Rule("count", "each file handed out was counted beforehand, and the results are read only after the count has come down to zero")
	c.Rule("complete", "every Go file a package lists (and its test files when asked for) is loaded, in the order listed")
	c.Rule("content", "what is parsed and what is kept is the overlaid content with line ends normalised")
	c.Rule("filter", "a file is dropped only when it could not be read or parsed and the caller asked for such files to be dropped")
	c.Rule("shared", "what the loading workers run writes nothing that other goroutines share")
	p := c.Root()
	load := p.Func(loadPath, "LoadPackages")
	if load == nil {
		c.Viol("complete", loadPath, "LoadPackages", "load.LoadPackages is gone")
		return
	}
	isFile := func(t types.Type) bool {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		return isNamed(t, loadPath, "File")
	}
	w := &poolWalk{c: c, p: p, rule: "settle", isUnit: func(t types.Type) bool { return t != nil && isFile(t) }, bad: map[string]bool{}}
	w.settles = func(ins ssa.Instruction) bool {
		if s, ok := ins.(*ssa.Send); ok {
			return isFile(s.X.Type())
		}
		switch ins.(type) {
		case *ssa.Call, *ssa.Defer:
			call, _ := wgCall(p, ins, "Done")
			return call != nil
		}
		return false
	}
	w.record = func(s *ssa.Store) bool {
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && isFile(fa.X.Type())
	}
	// the workers
	scope := map[*ssa.Function]bool{}
	for f := range p.Reach([]*ssa.Function{load}, func(f *ssa.Function) bool { return fnPkgPath(f) != loadPath }) {
		if fnPkgPath(f) == loadPath {
			scope[f] = true
		}
	}
	inWorker := map[*ssa.Function]bool{}
	fed := map[*ssa.MakeChan]bool{}
	for f := range scope {
		eachInstr(f, func(ins ssa.Instruction) {
			g, ok := ins.(*ssa.Go)
			if !ok {
				return
			}
			for _, t := range p.Callees(g) {
				c.Obl("settle", "worker "+shortFn(t))
				w.recvs = 0
				out := w.run(t, uIdle)
				if w.recvs == 0 && w.touches(t, map[*ssa.Function]bool{}) {
					c.Viol("settle", c.Pos(p, g.Pos()), shortFn(t), "this goroutine settles files it did not take from a channel")
				}
				if out&uHeld != 0 {
					c.Viol("settle", c.Pos(p, g.Pos()), shortFn(t)+" leaves", "a worker can end while holding a file it has not settled: LoadPackages would wait for ever")
				}
				if ok, why := workersAtLeastOne(p, g); !ok {
					c.Viol("settle", c.Pos(p, g.Pos()), shortFn(t)+" started", "the loop starting the workers may start none (%s)", why)
				}
				for h := range p.Reach([]*ssa.Function{t}, func(h *ssa.Function) bool { return fnPkgPath(h) != loadPath }) {
					if fnPkgPath(h) != loadPath {
						continue
					}
					inWorker[h] = true
					eachInstr(h, func(ins ssa.Instruction) {
						switch x := ins.(type) {
						case *ssa.UnOp:
							if x.Op == token.ARROW {
								for m := range chanMakes(p, x.X) {
									fed[m] = true
								}
							}
						case *ssa.Select:
							for _, st := range x.States {
								if st.Dir == types.RecvOnly {
									for m := range chanMakes(p, st.Chan) {
										fed[m] = true
									}
								}
							}
						}
					})
				}
				c.Count("functions_reached_from_workers", sharedWrites(c, p, "shared", t, func(t types.Type) bool { return isFile(t) }))
				c.Obl("shared", shortFn(t))
			}
		})
	}
	c.Floor("settle", 2)
	c.Floor("shared", 2)
	// a file moves on: no worker puts it back where it, or one before it, took it from
	next := map[*ssa.MakeChan]map[*ssa.MakeChan]bool{}
	for f := range scope {
		eachInstr(f, func(ins ssa.Instruction) {
			g, ok := ins.(*ssa.Go)
			if !ok {
				return
			}
			for _, t := range p.Callees(g) {
				from, to := poolEnds(p, t, isFile)
				for m := range from {
					if next[m] == nil {
						next[m] = map[*ssa.MakeChan]bool{}
					}
					for n := range to {
						next[m][n] = true
					}
				}
			}
		})
	}
	for m := range next {
		c.Obl("settle", "moves on")
		seen := map[*ssa.MakeChan]bool{}
		var visit func(n *ssa.MakeChan) bool
		visit = func(n *ssa.MakeChan) bool {
			for k := range next[n] {
				if k == m {
					return true
				}
				if !seen[k] {
					seen[k] = true
					if visit(k) {
						return true
					}
				}
			}
			return false
		}
		if visit(m) {
			c.Viol("settle", c.Pos(p, m.Pos()), "moves on", "a worker puts files back on the channel they came from: they are never done")
		}
	}
	// waits
	wg := map[*ssa.Alloc]bool{}
	var waits []ssa.Instruction
	for f := range scope {
		eachInstr(f, func(ins ssa.Instruction) {
			if call, a := wgCall(p, ins, "Wait"); call != nil {
				wg[a] = true
				waits = append(waits, ins)
			}
		})
	}
	for f := range scope {
		eachInstr(f, func(ins ssa.Instruction) {
			for _, m := range []string{"Done", "Add"} {
				if call, a := wgCall(p, ins, m); call != nil && (a == nil || !wg[a]) {
					c.Viol("count", c.Pos(p, ins.Pos()), shortFn(f)+" "+m, "this counts on a group nobody waits for")
				}
			}
			s, ok := ins.(*ssa.Send)
			if !ok || !isFile(s.X.Type()) {
				return
			}
			okFed := false
			for m := range chanMakes(p, s.Chan) {
				okFed = okFed || fed[m]
			}
			if !okFed {
				c.Viol("settle", c.Pos(p, ins.Pos()), shortFn(f)+" sends", "the file is sent where no worker receives")
			}
			if inWorker[f] {
				return
			}
			c.Obl("count", shortFn(f)+" hands out")
			if why := countedBefore(p, s); why != "" {
				c.Viol("count", c.Pos(p, ins.Pos()), shortFn(f)+" hands out", "%s", why)
			}
		})
	}
	isWait := func(i ssa.Instruction) bool {
		call, _ := wgCall(p, i, "Wait")
		return call != nil
	}
	for f := range scope {
		if inWorker[f] {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || !isFile(fa.X.Type()) {
				return
			}
			name := fieldVar(fa.X.Type(), fa.Field).Name()
			if name != "Error" && name != "Content" && name != "Syntax" {
				return
			}
			c.Obl("count", shortFn(f)+" reads "+name)
			if f == load && !alwaysBefore(ins, isWait) {
				c.Viol("count", c.Pos(p, ins.Pos()), shortFn(f)+" reads "+name, "a file's %s is read before the workers are known to be done with it", name)
			}
		})
	}
	eachInstr(load, func(ins ssa.Instruction) {
		if b, ok := isBuiltinCall(ins, "close"); ok {
			c.Obl("count", "stop")
			if !alwaysBefore(ins, isWait) {
				c.Viol("count", c.Pos(p, b.Pos()), "close", "the workers are told to stop before all files are done")
			}
		}
		r, ok := ins.(*ssa.Return)
		if !ok || r.Block() == load.Recover || len(r.Results) == 0 || isNilConst(r.Results[0]) {
			return
		}
		c.Obl("count", "return")
		early := !alwaysBefore(ins, isWait)
		if u, ok := r.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL {
			if cell, ok := u.X.(*ssa.Alloc); ok {
				early = false
				for _, st := range p.cellStoreInstrs(cell) {
					early = early || !isNilConst(st.Val) && !alwaysBefore(st, isWait)
				}
			}
		}
		if early {
			c.Viol("count", c.Pos(p, ins.Pos()), "return", "the packages are returned before the workers are known to be done")
		}
		for _, wt := range waits {
			if wt.Parent() != load {
				continue
			}
			eachInstr(load, func(j ssa.Instruction) {
				if call, _ := wgCall(p, j, "Add"); call != nil && mayFollow(wt, j) {
					c.Viol("count", c.Pos(p, j.Pos()), "Add after Wait", "a file is counted after the wait")
				}
			})
		}
	})
	c.Floor("count", 4)
	f02Complete(c, p, load, isFile)
	f02Content(c, p, scope, isFile)
}

// poolEnds: the channels a worker takes units from and hands them on to.
func poolEnds(p *Prog, root *ssa.Function, isUnit func(types.Type) bool) (from, to map[*ssa.MakeChan]bool) {
	from, to = map[*ssa.MakeChan]bool{}, map[*ssa.MakeChan]bool{}
	put := func(m map[*ssa.MakeChan]bool, v ssa.Value) {
		if e := chanElem(v); e == nil || !isUnit(e) {
			return
		}
		for k := range chanMakes(p, v) {
			m[k] = true
		}
	}
	for h := range p.Reach([]*ssa.Function{root}, func(h *ssa.Function) bool { return fnPkgPath(h) != fnPkgPath(root) }) {
		if fnPkgPath(h) != fnPkgPath(root) {
			continue
		}
		eachInstr(h, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					put(from, x.X)
				}
			case *ssa.Send:
				put(to, x.Chan)
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.RecvOnly {
						put(from, st.Chan)
					} else {
						put(to, st.Chan)
					}
				}
			}
		})
	}
	return
}

func isRepoFn(f *ssa.Function) bool { return isRepoPath(fnPkgPath(f)) }

func fnPkgPath(f *ssa.Function) string {
	if t := fnPkg(f); t != nil {
		return t.Path()
	}
	return ""
}

func isBuiltinCall(ins ssa.Instruction, name string) (ssa.CallInstruction, bool) {
	c, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return c, ok && b.Name() == name
}

// countedBefore: the send is preceded by Add(1) of its own iteration, or by
// one Add for the whole list.
func countedBefore(p *Prog, s *ssa.Send) string {
	fn := s.Parent()
	why := "the file is handed out without having been counted: the wait may end before it is done"
	h := loopOf(s.Block())
	n := 0
	eachInstr(fn, func(ins ssa.Instruction) {
		call, _ := wgCall(p, ins, "Add")
		if call == nil {
			return
		}
		n++
		arg := call.Common().Args[1]
		k, isK := constInt(arg)
		if isK && loopOf(ins.Block()) == h {
			if k != 1 {
				why = fmt.Sprintf("each file is counted %d times", k)
				return
			}
			// the same path
			if dominatesIns(ins, s) && !skipsBetween(ins, s) {
				why = ""
			}
			return
		}
		if l := lenArg(arg); l != nil && loopOf(ins.Block()) != h && h != nil {
			if _, list := wholeIndex(p, h); list == l && !skipsIteration(s) && dominatesIns(ins, s) {
				why = ""
			}
		}
	})
	if n > 1 && why == "" {
		return ""
	}
	return why
}

// wholeIndex: the index of the loop with header h, when it runs over a whole
// list.
func wholeIndex(p *Prog, h *ssa.BasicBlock) (ssa.Value, ssa.Value) {
	for _, i := range h.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.BinOp:
			if ok, list := loopWhole(p, x.(ssa.Value), nil); ok {
				return x.(ssa.Value), list
			}
		}
	}
	return nil, nil
}

// skipsBetween: after a, control can come back to a or leave without b.
func skipsBetween(a, b ssa.Instruction) bool {
	bad := alwaysAfter(a, func(i ssa.Instruction) bool { return i == b }, func(i ssa.Instruction) bool { return i == a || isReturn(i) })
	return bad != nil
}

// f02Complete: every listed file reaches the pool and the result.
func f02Complete(c *Ctx, p *Prog, load *ssa.Function, isFile func(types.Type) bool) {
	isGo := func(cond ssa.Value, pol bool) bool {
		call, ok := cond.(*ssa.Call)
		if !ok || pol || calleeName(call) != "strings.HasSuffix" {
			return false
		}
		s, ok := constStr(call.Common().Args[1])
		return ok && s == ".go"
	}
	notGo := func(b *ssa.BasicBlock, i int) bool {
		iff, ok := lastIf(b)
		return ok && p.implies(iff.Cond, i == 0, isGo, 0)
	}
	for _, name := range []string{"GoFiles", "TestGoFiles", "XTestGoFiles"} {
		c.Obl("complete", name)
		test := name != "GoFiles"
		found := false
		why := "no file of this list is loaded"
		eachInstr(load, func(ins ssa.Instruction) {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != name {
				return
			}
			for _, e := range elemReads(u) {
				idx := e.(*ssa.IndexAddr).Index
				ok, _ := loopWhole(p, idx, nil)
				if !ok {
					why = "not every file of this list is looked at"
					continue
				}
				app := appendOf(p, e)
				if app == nil {
					why = "the files of this list are not collected"
					continue
				}
				if skipsIterationUnless(app, notGo) {
					why = "a Go file of this list can be passed over"
					continue
				}
				// the way to the loop: only -test decides
				if g := extraGuard(p, ins, load, test); g != "" {
					why = g
					continue
				}
				found = true
			}
		})
		if !found {
			c.Viol("complete", c.Pos(p, load.Pos()), name, "%s: %s", name, why)
		}
	}
	// the collected names all become files
	var sends []*ssa.Send
	eachInstr(load, func(ins ssa.Instruction) {
		if s, ok := ins.(*ssa.Send); ok && isFile(s.X.Type()) {
			sends = append(sends, s)
		}
	})
	c.Obl("complete", "every name becomes a file")
	if len(sends) != 1 {
		c.Viol("complete", c.Pos(p, load.Pos()), "hand-out", "LoadPackages hands files to the pool in %d places; one is understood", len(sends))
		return
	}
	s := sends[0]
	f, ok := s.X.(*ssa.Alloc)
	if !ok {
		c.Viol("complete", c.Pos(p, s.Pos()), "hand-out", "the file handed out is not one made for this name")
		return
	}
	h := loopOf(s.Block())
	var idx ssa.Value
	if h != nil {
		idx, _ = wholeIndex(p, h)
	}
	if idx == nil {
		c.Viol("complete", c.Pos(p, s.Pos()), "names", "the loop handing out files does not run over all the names collected")
		return
	}
	if skipsIteration(s) {
		c.Viol("complete", c.Pos(p, s.Pos()), "names skipped", "a name can be passed over without its file being loaded")
	}
	kept, abs, nm := false, false, false
	eachInstr(load, func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		if st.Val == ssa.Value(f) {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				kept = loopIsWhole(p, ia.Index) && sliceOfFiles(ia.X, isFile) && !skipsIteration(st) && !isArrayPtr(ia.X.Type())
				if isArrayPtr(ia.X.Type()) {
					kept = true // an append, in order
				}
			}
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fa.X != ssa.Value(f) {
			return
		}
		switch fieldVar(fa.X.Type(), fa.Field).Name() {
		case "AbsPath":
			abs = joinOfDir(p, st.Val)
		case "Name":
			nm = elemValue(st.Val)
		}
	})
	c.Obl("complete", "the file kept is the one loaded")
	if !kept {
		c.Viol("complete", c.Pos(p, f.Pos()), "kept", "the file handed to the pool is not put at its own place among the package's files")
	}
	var list ssa.Value
	eachInstr(load, func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		if st.Val == ssa.Value(f) {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && !isArrayPtr(ia.X.Type()) {
				list = ia.X
			}
		}
	})
	if list != nil {
		put := false
		eachInstr(load, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldOfType2(fa, loadPath, "Package", "Files") && st.Val == list && loopOf(st.Block()) == outerLoop(h) {
				put = true
			}
		})
		c.Obl("complete", "the files are the package's")
		if !put {
			c.Viol("complete", c.Pos(p, f.Pos()), "put", "the list of the files loaded does not become the package's")
		}
	}
	// every package with any file
	c.Obl("complete", "every package")
	if out := outerLoop(h); out == nil {
		c.Viol("complete", c.Pos(p, s.Pos()), "packages", "files are not handed out package by package")
	} else {
		_, names := wholeIndex(p, h)
		if oi, _ := wholeIndex(p, out); oi == nil {
			c.Viol("complete", c.Pos(p, s.Pos()), "packages", "the files of some packages are never loaded: the loop over the packages can end early")
		}
		empty := func(cond ssa.Value, pol bool) bool {
			l, op, k, ok := lenCompare(cond, pol)
			return ok && l == names && impliesEmpty(op, k)
		}
		if blockSkipped(h, out, func(b *ssa.BasicBlock, i int) bool {
			iff, ok := lastIf(b)
			return ok && p.implies(iff.Cond, i == 0, empty, 0)
		}) {
			c.Viol("complete", c.Pos(p, s.Pos()), "packages skipped", "a package that lists Go files can be passed over")
		}
	}
	c.Obl("complete", "path")
	if !abs || !nm {
		c.Viol("complete", c.Pos(p, f.Pos()), "path", "the file's path is not the package's directory joined with the name listed, or its name is not the one listed")
	}
	f02Filter(c, p, load, isFile)
	c.Obl("complete", "what is listed")
	listed := false
	eachInstr(load, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		g := call.Common().StaticCallee()
		if g == nil || g.Name() != "ListPackages" {
			return
		}
		listed = true
		where := c.Pos(p, ins.Pos())
		if _, ok := call.Common().Args[0].(*ssa.Parameter); !ok {
			c.Viol("complete", where, "arguments", "the packages listed are not those asked for")
		}
		u, ok := call.Common().Args[1].(*ssa.UnOp)
		if !ok {
			return
		}
		given := map[string]bool{}
		for _, r := range *u.X.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					n := fieldVar(fa.X.Type(), fa.Field).Name()
					if fieldNamed(st.Val, n) {
						given[n] = true
					}
				}
			}
		}
		for _, n := range []string{"Dir", "Mod", "ModFile", "Goroot", "Deps"} {
			if !given[n] {
				c.Viol("complete", where, "option "+n, "the caller's %s does not reach go list: other packages are loaded than are built", n)
			}
		}
	})
	if !listed {
		c.Viol("complete", c.Pos(p, load.Pos()), "list", "the packages are not listed by goinfo.ListPackages")
	}
	// by result: the loop over pkgs
	c.Obl("complete", "one result per package")
	okPkg := false
	eachInstr(load, func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "GoPackage" {
			return
		}
		src := unloadElem(st.Val)
		if src == nil {
			return
		}
		ok1, l := loopWhole(p, src.Index, nil)
		if !ok1 || !fromList(p, l) || skipsIteration(st) {
			return
		}
		for _, r := range *fa.X.Referrers() {
			if s2, ok := r.(*ssa.Store); ok && s2.Val == fa.X {
				if ia, ok := s2.Addr.(*ssa.IndexAddr); ok && (ia.Index == src.Index || isArrayPtr(ia.X.Type())) {
					okPkg = true
				}
			}
		}
	})
	if !okPkg {
		c.Viol("complete", c.Pos(p, load.Pos()), "packages", "not every package listed by go list becomes a package of the result, at its own place")
	}
}

func sliceOfFiles(v ssa.Value, isFile func(types.Type) bool) bool {
	s, ok := v.Type().Underlying().(*types.Slice)
	return ok && isFile(s.Elem())
}

// fromList: the list go list gave.
func fromList(p *Prog, l ssa.Value) bool {
	if e, ok := l.(*ssa.Extract); ok {
		if call, ok := e.Tuple.(*ssa.Call); ok {
			if f := call.Common().StaticCallee(); f != nil && f.Name() == "ListPackages" {
				return true
			}
		}
	}
	if m, ok := l.(*ssa.MakeSlice); ok {
		return fromList(p, lenArg(m.Len))
	}
	return false
}

// fieldOfType2: the address is that field of that type.
func fieldOfType2(fa *ssa.FieldAddr, pkg, typ, name string) bool {
	t := fa.X.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return isNamed(t, pkg, typ) && fieldVar(fa.X.Type(), fa.Field).Name() == name
}

// blockSkipped: an iteration of the loop with header out can complete without
// reaching b, other than by edges excused accepts.
func blockSkipped(b, out *ssa.BasicBlock, excused func(*ssa.BasicBlock, int) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{out}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x == b {
			continue
		}
		seen[x] = true
		for i, s := range x.Succs {
			if excused(x, i) || !inLoop(s, out) {
				continue
			}
			if s == out {
				return true
			}
			st = append(st, s)
		}
	}
	return false
}

// elemReads: the element addresses taken of the list v.
func elemReads(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == v {
			out = append(out, ia)
		}
	}
	return out
}

// unloadElem: v is an element read from a list.
func unloadElem(v ssa.Value) *ssa.IndexAddr {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, _ := u.X.(*ssa.IndexAddr)
	return ia
}

func elemValue(v ssa.Value) bool { return unloadElem(v) != nil }

// appendOf: the append adding the element read at address e to a list.
func appendOf(p *Prog, e ssa.Value) ssa.Instruction {
	for _, r := range *e.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok {
			continue
		}
		for _, r2 := range *u.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok || st.Val != ssa.Value(u) {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, r3 := range *al.Referrers() {
				sl, ok := r3.(*ssa.Slice)
				if !ok {
					continue
				}
				for _, r4 := range *sl.Referrers() {
					if call, ok := isBuiltinCall(r4, "append"); ok {
						return call
					}
				}
			}
		}
	}
	return nil
}

// extraGuard: the loop is reached for every package (for test files: unless
// tests were not asked for).
func extraGuard(p *Prog, ins ssa.Instruction, fn *ssa.Function, test bool) string {
	noTest := func(cond ssa.Value, pol bool) bool {
		if pol || !test {
			return false
		}
		return fieldNamed(cond, "IncludeTest")
	}
	// leaving early because go list failed is covered by the error rules
	h := loopOf(ins.Block())
	if h == nil {
		return "the list is not read once per package"
	}
	if skipsIterationUnless(ins, func(b *ssa.BasicBlock, i int) bool {
		iff, ok := lastIf(b)
		return ok && p.implies(iff.Cond, i == 0, noTest, 0)
	}) {
		return "a package's list can be passed over"
	}
	if test && !p.Guarded(ins, func(cond ssa.Value, pol bool) bool { return pol && fieldNamed(cond, "IncludeTest") }) {
		return "test files are loaded though they were not asked for"
	}
	return ""
}

// fieldNamed: v reads a field of that name.
func fieldNamed(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldVar(fa.X.Type(), fa.Field).Name() == name
		}
	case *ssa.Field:
		return fieldVar(x.X.Type(), x.Field).Name() == name
	}
	return false
}

// fieldOfType: v reads that field of that type.
func fieldOfType(v ssa.Value, pkg, typ, name string) bool {
	if !fieldNamed(v, name) {
		return false
	}
	var t types.Type
	switch x := v.(type) {
	case *ssa.UnOp:
		t = x.X.(*ssa.FieldAddr).X.Type()
	case *ssa.Field:
		t = x.X.Type()
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return isNamed(t, pkg, typ)
}

// joinOfDir: filepath.Join(Dir, element).
func joinOfDir(p *Prog, v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || calleeName(call) != "path/filepath.Join" {
		return false
	}
	args := variadicArgs(call.Common().Args[0])
	return len(args) == 2 && fieldOfType(args[0], "github.com/xhd2015/xgo/support/goinfo", "Package", "Dir") && elemValue(args[1])
}

// variadicArgs: the values put in the list made for a variadic call.
func variadicArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := constInt(ia.Index)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				for len(out) <= int(k) {
					out = append(out, nil)
				}
				out[k] = st.Val
			}
		}
	}
	return out
}

// f02Filter: which files are taken out of the result.
func f02Filter(c *Ctx, p *Prog, load *ssa.Function, isFile func(types.Type) bool) {
	failed := func(cond ssa.Value, pol bool) bool {
		v, isnil, ok := nilTest(cond, pol)
		return ok && !isnil && fieldNamed(v, "Error")
	}
	asked := func(cond ssa.Value, pol bool) bool { return pol && fieldNamed(cond, "FilterErrorFile") }
	isFiles := func(v ssa.Value) bool { return fieldNamed(v, "Files") }
	n := 0
	eachInstr(load, func(ins ssa.Instruction) {
		u, ok := ins.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || !isFile(u.Type()) {
			return
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !isFiles(ia.X) {
			return
		}
		// each element, kept unless it failed and the caller asked
		n++
		c.Obl("filter", "the kept files")
		where := c.Pos(p, ia.Pos())
		ok1, l := loopWhole(p, ia.Index, nil)
		if !ok1 || l == nil || !isFiles(l) {
			c.Viol("filter", where, "whole", "the pass dropping failed files does not look at every file")
			return
		}
		var keep ssa.Instruction
		var at ssa.Value
		for _, r := range *u.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(u) {
				if d, ok := st.Addr.(*ssa.IndexAddr); ok {
					if a, isA := d.X.(*ssa.Alloc); isA {
						for _, r3 := range *a.Referrers() {
							if sl, ok := r3.(*ssa.Slice); ok {
								for _, r4 := range *sl.Referrers() {
									if call, ok := isBuiltinCall(r4, "append"); ok {
										keep = call
									}
								}
							}
						}
					} else if isFiles(d.X) {
						keep, at = st, d.Index
					}
				}
			}
		}
		if keep == nil {
			c.Viol("filter", where, "keep", "the files kept are not recognised")
			return
		}
		for _, t := range []struct {
			m   atomMatch
			say string
		}{{failed, "a file is dropped although it was read and parsed"}, {asked, "files that failed are dropped although the caller did not ask for that"}} {
			m := t.m
			if skipsIterationUnless(keep, func(b *ssa.BasicBlock, i int) bool {
				iff, ok := lastIf(b)
				return ok && p.implies(iff.Cond, i == 0, m, 0)
			}) {
				// known before the pass
				if !p.Guarded(keep, m) {
					c.Viol("filter", c.Pos(p, keep.Pos()), t.say, "%s", t.say)
				}
			}
		}
		if at == nil {
			return
		}
		// compaction: the place moves on by one for each file kept
		ph, ok := at.(*ssa.Phi)
		good := ok
		if ok {
			for i, e := range ph.Edges {
				if !inLoop(ph.Block().Preds[i], ph.Block()) {
					k, isK := constInt(e)
					good = good && isK && k == 0
				}
			}
			inc := false
			for _, r := range *ph.Referrers() {
				if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD {
					k, isK := constInt(b.Y)
					in := isK && k == 1 && b.Block() == keep.Block()
					inc = inc || in
					good = good && in
				}
			}
			good = good && inc
			// the result is what was kept
			cut := false
			eachInstr(load, func(ins ssa.Instruction) {
				st, ok := ins.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "Files" {
					return
				}
				if sl, ok := st.Val.(*ssa.Slice); ok && isFiles(sl.X) {
					low := sl.Low == nil
					if !low {
						k, isK := constInt(sl.Low)
						low = isK && k == 0
					}
					cut = sl.High == ssa.Value(ph) && low
				}
			})
			good = good && cut
		}
		if !good {
			c.Viol("filter", c.Pos(p, keep.Pos()), "compaction", "the files kept do not end up next to each other, in order, and alone in the result")
		}
	})
	if n == 0 {
		// no dropping pass: nothing may shorten Files
		c.Obl("filter", "no file is dropped")
	}
}

// f02Content: what is read, kept and parsed.
func f02Content(c *Ctx, p *Prog, scope map[*ssa.Function]bool, isFile func(types.Type) bool) {
	parses := 0
	for f := range scope {
		eachInstr(f, func(ins ssa.Instruction) {
			if call, ok := isCallTo(ins, "os.ReadFile", "os.Open", "os.OpenFile", "io/ioutil.ReadFile"); ok {
				c.Viol("content", c.Pos(p, ins.Pos()), shortFn(f)+" "+calleeName(call), "a source file is read past the overlay")
			}
			call, ok := isCallTo(ins, "go/parser.ParseFile")
			if !ok {
				return
			}
			parses++
			c.Obl("content", "parse")
			a := call.Common().Args
			where := c.Pos(p, ins.Pos())
			if mode, ok := constInt(a[3]); !ok || mode&4 == 0 {
				c.Viol("content", where, "mode", "files are parsed without their comments: directives in them are lost when the file is written back")
			}
			fset, name := false, false
			for _, o := range p.Origins(a[1], originOpts{keep: func(v ssa.Value) bool { return fieldNamed(v, "AbsPath") }}) {
				name = fieldNamed(o.Val, "AbsPath")
			}
			if !name {
				c.Viol("content", where, "name", "the file is not parsed under its own path")
			}
			for _, o := range p.Origins(a[0], originOpts{keep: func(v ssa.Value) bool { return fieldNamed(v, "Fset") }}) {
				if fieldNamed(o.Val, "Fset") {
					fset = true
				} else if k, ok := o.Val.(*ssa.Call); !ok || calleeName(k) != "go/token.NewFileSet" {
					fset = false
				}
			}
			_ = fset
			src := false
			for _, o := range p.Origins(a[2], originOpts{keep: func(v ssa.Value) bool { return fieldNamed(v, "Content") || isReplaceAll(v) }}) {
				v := o.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				src = fieldNamed(v, "Content")
				if !src {
					break
				}
			}
			if !src {
				c.Viol("content", where, "source", "what is parsed is not the content kept with the file")
			}
		})
		eachInstr(f, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isFile(fa.X.Type()) || fieldVar(fa.X.Type(), fa.Field).Name() != "Content" {
				return
			}
			c.Obl("content", "kept content")
			for _, o := range p.Origins(st.Val, originOpts{keep: isReplaceAll}) {
				if isNilConst(o.Val) {
					continue
				}
				if !isReplaceAll(o.Val) {
					c.Viol("content", c.Pos(p, st.Pos()), "normalise", "the content kept has not had its line ends normalised (%s): positions of the syntax tree and of the text differ", o.Val)
					continue
				}
				ra := o.Val.(*ssa.Call)
				fromOv := false
				for _, q := range p.Origins(ra.Common().Args[0], originOpts{noCalls: true}) {
					v := q.Val
					if e, ok := v.(*ssa.Extract); ok {
						v = e.Tuple
					}
					if k, ok := v.(*ssa.Call); ok {
						if g := k.Common().StaticCallee(); g != nil && fnPkgPath(g) == "github.com/xhd2015/xgo/instrument/overlay" {
							fromOv = true
							// of the file's own path
							own := false
							for _, r := range p.Origins(k.Common().Args[len(k.Common().Args)-1], originOpts{keep: func(v ssa.Value) bool { return fieldNamed(v, "AbsPath") }}) {
								own = fieldNamed(r.Val, "AbsPath")
							}
							if !own {
								c.Viol("content", c.Pos(p, k.Pos()), "own path", "the content is not that of the file's own path")
							}
						}
					}
				}
				if !fromOv {
					c.Viol("content", c.Pos(p, ra.Pos()), "overlay", "the content kept does not come from the overlay")
				}
			}
		})
	}
	over := func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		op, x, y := b.Op, b.X, b.Y
		if !pol {
			op = negOp(op)
		}
		if op == token.LSS {
			op, x, y = token.GTR, y, x
		}
		return op == token.GTR && sizeOf(p, x) && maxSize(p, y)
	}
	limited := func(cond ssa.Value, pol bool) bool {
		x, op, k, ok := normCompare(cond, pol)
		return ok && maxSize(p, x) && (op == token.GTR && k >= 0 || op == token.GEQ && k >= 1)
	}
	for f := range scope {
		eachInstr(f, func(ins ssa.Instruction) {
			call, ok := isCallTo(ins, "fmt.Errorf", "errors.New")
			if !ok {
				return
			}
			c.Obl("content", "refused for its size")
			v, ok := call.(ssa.Value)
			if !ok || !reachesFile(p, v) {
				return
			}
			if !p.Guarded(ins, over) || !p.Guarded(ins, limited) {
				c.Viol("content", c.Pos(p, ins.Pos()), shortFn(f)+" refuses", "a file is refused although a limit was not set, or its size does not exceed it")
			}
		})
	}
	c.Floor("content", 2)
	if parses == 0 {
		c.Viol("content", loadPath, "parse", "no file is parsed")
	}
}

// sizeOf: v is what the overlay says of a file's size.
func sizeOf(p *Prog, v ssa.Value) bool {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	g := call.Common().StaticCallee()
	return g != nil && g.Name() == "Size"
}

func maxSize(p *Prog, v ssa.Value) bool {
	for _, o := range p.Origins(v, originOpts{keep: func(v ssa.Value) bool { return fieldNamed(v, "MaxFileSize") }}) {
		if fieldNamed(o.Val, "MaxFileSize") {
			return true
		}
	}
	return false
}

// reachesFile: the error is returned to the loading of one file.
func reachesFile(p *Prog, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.Return, *ssa.Store, *ssa.Phi:
			return true
		}
	}
	return false
}

// isReplaceAll: v normalises line ends.
func isReplaceAll(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(call)
	if n != "bytes.ReplaceAll" && n != "bytes.Replace" && n != "strings.ReplaceAll" {
		return false
	}
	if n == "bytes.Replace" {
		if k, ok := constInt(call.Common().Args[3]); !ok || k >= 0 {
			return false
		}
	}
	return constBytes(call.Common().Args[1]) == "\r\n" && constBytes(call.Common().Args[2]) == "\n"
}

// constBytes: []byte("..."), or a constant string.
func constBytes(v ssa.Value) string {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return strings.Repeat("?", 3)
}

func init() {
	props["F02"] = propDef{run: runF02, assumptions: []string{
		"sync.WaitGroup, channels and go/parser behave as documented; token.FileSet may be used by several goroutines at once",
		"what go list prints is what the go command will build (goinfo.ListPackages is not analysed here)",
		"parsing ends and does not panic",
	}}
}
