package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R08"] = propDef{run: checkR08, assumptions: []string{
		"a callback that panics inside the trap itself (not the traced function) may leave its entry open: the trap does not guard against that",
	}}
}

// traceModel: the call tree and how traps enter, leave, attach and detach it.
type traceModel struct {
	p      *Prog
	m      *RTModel
	stackT *types.Named
	entryT *types.Named
	top    *types.Var            // Stack's current entry
	mark   *types.Var            // Data's tracing mark
	filter *types.Var            // Data's trace filter
	enter  map[*ssa.Function]int // -> index of the result holding the previous top
	exit   map[*ssa.Function]int // -> index of the parameter becoming the top
	attach map[*ssa.Function]int // -> index of the stack parameter
	detach map[*ssa.Function]bool
}

func isPtrTo(t types.Type, n *types.Named) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && namedOf(pt.Elem()) == n
}

func (m *RTModel) traceModel() *traceModel {
	p := m.p
	t := &traceModel{p: p, m: m, enter: map[*ssa.Function]int{}, exit: map[*ssa.Function]int{}, attach: map[*ssa.Function]int{}, detach: map[*ssa.Function]bool{}}
	sc := p.pkg(rtStack).Pkg.Scope()
	if o, ok := sc.Lookup("Stack").(*types.TypeName); ok {
		t.stackT = namedOf(o.Type())
	}
	if o, ok := sc.Lookup("Entry").(*types.TypeName); ok {
		t.entryT = namedOf(o.Type())
	}
	if t.stackT == nil || t.entryT == nil {
		panic("stack types not found")
	}
	st := t.stackT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isPtrTo(st.Field(i).Type(), t.entryT) {
			if t.top != nil {
				panic("several current entries in a stack")
			}
			t.top = st.Field(i)
		}
	}
	ds := m.Data.Underlying().(*types.Struct)
	for i := 0; i < ds.NumFields(); i++ {
		f := ds.Field(i)
		if isBoolT(f.Type()) {
			if t.mark != nil {
				panic("several flags in the goroutine's data")
			}
			t.mark = f
		}
		if sg, ok := f.Type().Underlying().(*types.Signature); ok && sg.Results().Len() == 1 && isBoolT(sg.Results().At(0).Type()) {
			t.filter = f
		}
	}
	if t.top == nil || t.mark == nil || t.filter == nil {
		panic("the tree's current entry, the tracing mark or the trace filter was not found")
	}
	fns := p.FuncsIn(func(s string) bool { return s == rtStack })
	// which parameter of fn ends up as the top
	var topParam func(fn *ssa.Function, depth int) (int, bool)
	writesTop := func(fn *ssa.Function) bool {
		hit := false
		for g := range p.Reach([]*ssa.Function{fn}, func(g *ssa.Function) bool { return fnPkg(g) == nil || fnPkg(g).Path() != rtStack }) {
			eachInstr(g, func(ins ssa.Instruction) {
				if s, ok := ins.(*ssa.Store); ok && t.isTopAddr(s.Addr) {
					hit = true
				}
			})
		}
		return hit
	}
	topParam = func(fn *ssa.Function, depth int) (int, bool) {
		if depth > 4 {
			return 0, false
		}
		idx, ok := 0, false
		param := func(v ssa.Value) {
			for i, pa := range fn.Params {
				if v == ssa.Value(pa) {
					idx, ok = i, true
				}
			}
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Store:
				if t.isTopAddr(x.Addr) {
					param(x.Val)
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && fnPkg(g) != nil && fnPkg(g).Path() == rtStack && g != fn {
					if j, k := topParam(g, depth+1); k && j < len(x.Common().Args) {
						param(x.Common().Args[j])
					}
				}
			}
		})
		return idx, ok
	}
	for _, fn := range fns {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || !writesTop(fn) {
			continue
		}
		res := fn.Signature.Results()
		old := -1
		for i := 0; i < res.Len(); i++ {
			if !isPtrTo(res.At(i).Type(), t.entryT) {
				continue
			}
			for _, r := range returnsOf(fn) {
				if i >= len(r.Results) {
					continue
				}
				for _, o := range p.Origins(r.Results[i], originOpts{noParams: true}) {
					if u, ok := o.Val.(*ssa.UnOp); ok && u.Op == token.MUL && t.isTopAddr(u.X) {
						old = i
					}
				}
			}
		}
		if old >= 0 {
			t.enter[fn] = old
		} else if j, ok := topParam(fn, 0); ok {
			t.exit[fn] = j
		}
	}
	gMethod := func(ins ssa.Instruction, name string) ssa.CallInstruction {
		cl, ok := ins.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		f := cl.Common().StaticCallee()
		if f == nil || fnPkg(f) == nil || fnPkg(f).Path() != rtLink || f.Name() != name {
			return nil
		}
		return cl
	}
	for round := 0; round < 4; round++ {
		for _, fn := range fns {
			eachInstr(fn, func(ins ssa.Instruction) {
				if gMethod(ins, "Delete") != nil {
					t.detach[fn] = true
				}
				if cl := gMethod(ins, "Set"); cl != nil {
					for _, o := range p.Origins(cl.Common().Args[2], originOpts{noParams: true, noCalls: true}) {
						for i, pa := range fn.Params {
							if o.Val == ssa.Value(pa) && isPtrTo(pa.Type(), t.stackT) {
								t.attach[fn] = i
							}
						}
					}
				}
				if cl, ok := ins.(ssa.CallInstruction); ok {
					g := cl.Common().StaticCallee()
					if g == nil {
						return
					}
					if t.detach[g] {
						t.detach[fn] = true
					}
					if j, ok := t.attach[g]; ok && j < len(cl.Common().Args) {
						for i, pa := range fn.Params {
							if cl.Common().Args[j] == ssa.Value(pa) {
								t.attach[fn] = i
							}
						}
					}
				}
			})
		}
	}
	if len(t.enter) == 0 || len(t.exit) == 0 || len(t.attach) == 0 || len(t.detach) == 0 {
		panic("entering, leaving, attaching or detaching the call tree was not recognised")
	}
	return t
}

func (t *traceModel) isTopAddr(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && fieldVar(fa.X.Type(), fa.Field) == t.top
}

func (t *traceModel) dataFieldAddr(v ssa.Value) *types.Var {
	if fa, ok := v.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == t.m.Data {
		return fieldVar(fa.X.Type(), fa.Field)
	}
	return nil
}

// carries: the stack given keeps the goroutine's data (which is not new).
func (t *traceModel) carries(stk ssa.Value) bool {
	os := t.p.Origins(stk, originOpts{})
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		found := false
		t.p.DeepSlice(o.Val, func(v ssa.Value) bool {
			if mi, ok := v.(*ssa.MakeInterface); ok && isPtrTo(mi.X.Type(), t.m.Data) {
				for _, d := range t.p.Origins(mi.X, originOpts{}) {
					if a, ok := d.Val.(*ssa.Alloc); !ok || a.Parent() != mi.Parent() {
						found = true
					}
				}
			}
			return true
		})
		if !found {
			return false
		}
	}
	return true
}

func checkR08(c *Ctx) {
	m := c.rtModel()
	p := m.p
	t := m.traceModel()
	c.Rule("closed", "a call entered in the call tree is left exactly once when the dispatch is over, on every path, and never left without having been entered")
	c.Rule("linked", "entering a call adds one new entry below the current one (or as a root when there is none) and makes it current, leaving sets the current entry: on every path")
	c.Rule("admitted", "a call is recorded exactly when the trace's filter admits it")
	c.Rule("restores", "leaving puts back the entry that was current when that same call was entered, on the same tree")
	c.Rule("finished", "leaving marks the entry as finished")
	c.Rule("mark", "whichever way the call that started a trace ends, the goroutine is no longer marked as tracing, no filter stays behind, and no other call takes the mark back")
	c.Rule("keeps", "ending a trace, or not starting one, keeps the goroutine's mocks, recorders and interceptors: a tree taken away is replaced by one carrying the same data")
	c.Rule("times", "the times of an entry are measured from the begin of the tree it is in")
	c.Rule("exit", "when a goroutine exits, its tree gets an end")

	inTrap := func(f *ssa.Function) bool {
		pk := fnPkg(f)
		return pk != nil && pk.Path() == rtTrap && p.inRepo[f]
	}
	rel := map[*ssa.Function]bool{}
	relevant := func(f *ssa.Function) bool {
		if r, ok := rel[f]; ok {
			return r
		}
		hit := false
		for g := range p.Reach([]*ssa.Function{f}, func(g *ssa.Function) bool { return !inTrap(g) }) {
			eachInstr(g, func(ins ssa.Instruction) {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					if s := x.Common().StaticCallee(); s != nil {
						_, a := t.enter[s]
						_, b := t.exit[s]
						_, d := t.attach[s]
						hit = hit || a || b || d || t.detach[s]
					}
				case *ssa.FieldAddr:
					if f := t.dataFieldAddr(x); f != nil && (f == t.mark || f == t.filter) {
						hit = true
					}
				}
			})
		}
		rel[f] = hit
		return hit
	}
	e := &esp{p: p, max: 200000}
	e.keep = func(ty types.Type) bool {
		switch u := ty.Underlying().(type) {
		case *types.Basic:
			return u.Info()&types.IsBoolean != 0
		case *types.Signature:
			return true
		case *types.Pointer:
			n := namedOf(u.Elem())
			return n == t.entryT
		}
		return false
	}
	e.inline = func(f *ssa.Function) bool { return inTrap(f) && relevant(f) }
	isFilterLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && t.dataFieldAddr(u.X) == t.filter
	}
	isFilterVal := func(v ssa.Value) bool {
		os := p.Origins(v, originOpts{keep: isFilterLoad})
		for _, o := range os {
			if !isFilterLoad(o.Val) {
				return false
			}
		}
		return len(os) > 0
	}
	e.cond = func(st *estate, cond ssa.Value, pol bool) {
		// a filter is only set while tracing (checked below): the call that
		// starts a trace finds none
		b, ok := cond.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.NEQ) != pol {
			return
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if isNilConst(pr[1]) && isFilterVal(pr[0]) && st.get("began") != "" && st.get("filter") == "" {
				st.set("!dead", "1")
			}
		}
	}
	nMark, nAdmit := 0, 0
	e.instr = func(st *estate, ins ssa.Instruction) {
		s, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		construct := shortFn(s.Parent())
		at := c.Pos(p, s.Pos())
		switch t.dataFieldAddr(s.Addr) {
		case t.mark:
			nMark++
			switch e.val(st, s.Val).k {
			case 'T':
				st.set("began", "1")
				st.set("mark", "T")
			case 'F':
				if st.get("began") == "" {
					c.Viol("mark", at, construct, "a call that did not start the trace takes the tracing mark back")
				}
				st.set("mark", "F")
			default:
				c.Viol("mark", at, construct, "the tracing mark is set to a value not known on this path")
			}
		case t.filter:
			v := e.val(st, s.Val)
			if isNilConst(s.Val) || v.k == 'N' {
				st.set("filter", "nil")
			} else {
				if st.get("mark") != "T" {
					c.Viol("mark", at, construct, "a trace filter is set where the goroutine was not marked as tracing by this call")
				}
				st.set("filter", "set")
			}
		}
	}
	type site struct{ ins ssa.CallInstruction }
	exits := map[ssa.CallInstruction]int{}
	enters := map[ssa.CallInstruction]bool{}
	e.call = func(e *esp, st *estate, ins ssa.CallInstruction, fv aval, args []aval) []*estate {
		f := ins.Common().StaticCallee()
		if f == nil && ins.Value() != nil && isFilterVal(ins.Common().Value) {
			e.fresh(st, "!admit")
			e.setResult(st, ins, 0, aval{k: 'S', s: "!admit", cond: ins.Value()})
			return []*estate{st}
		}
		if f == nil {
			if fv.k == 'C' && inTrap(fv.fn) && relevant(fv.fn) {
				return nil
			}
			return []*estate{st}
		}
		if _, ok := t.enter[f]; ok {
			enters[ins] = true
			if st.get("open") != "" {
				c.Viol("closed", c.Pos(p, ins.Pos()), shortFn(ins.Parent()), "a second entry is made for one call")
			}
			st.set("open", "1")
			st.set("entered", e.id(ins.Value()))
			return []*estate{st}
		}
		if pi, ok := t.exit[f]; ok {
			exits[ins] = pi
			switch st.get("open") {
			case "":
				c.Viol("closed", c.Pos(p, ins.Pos()), shortFn(ins.Parent()), "an entry is left that was not entered on this path, or is left twice")
			}
			st.set("open", "")
			st.set("left", "1")
			return []*estate{st}
		}
		if _, ok := t.attach[f]; ok {
			st.set("attached", "1")
			if st.get("det") != "" && t.carries(ins.Common().Args[t.attach[f]]) {
				st.set("det", "")
			}
			return []*estate{st}
		}
		if t.detach[f] {
			if st.get("attached") != "" && st.get("ret") == "" {
				// taken away by the dispatch that attached it
				st.set("attached", "")
			} else {
				st.set("det", "1")
			}
			return []*estate{st}
		}
		return nil
	}
	end := func(k string, tf *ssa.Function, st *estate, pos token.Pos) {
		at, construct := c.Pos(p, pos), shortFn(tf)
		if pos == token.NoPos {
			at = c.Pos(p, tf.Pos())
		}
		c.Obl("closed", k+" trap ending at "+at)
		if st.get("open") != "" {
			c.Viol("closed", at, construct, "the call entered in the tree is not left when the dispatch ends here")
		}
		c.Obl("mark", k+" trap ending at "+at)
		if st.get("mark") == "T" {
			c.Viol("mark", at, construct, "the call that started tracing may end here with the goroutine still marked as tracing")
		}
		if st.get("mark") == "F" && st.get("filter") == "set" {
			c.Viol("mark", at, construct, "the trace may end here with its filter left behind, deciding about the next trace")
		}
		if admitted, ok := st.facts["!admit"]; ok {
			nAdmit++
			c.Obl("admitted", k+" trap ending at "+at)
			if admitted && st.get("left") == "" {
				c.Viol("admitted", at, construct, "a call the trace filter admits may not be recorded")
			}
			if !admitted && st.get("left") != "" {
				c.Viol("admitted", at, construct, "a call the trace filter leaves out may be recorded")
			}
		}
		c.Obl("keeps", k+" trap ending at "+at)
		if st.get("det") != "" {
			c.Viol("keeps", at, construct, "the goroutine's tree may be taken away with its mocks, recorders and interceptors")
		}
	}
	for _, k := range []string{"func", "var", "varptr"} {
		tf := m.TrapFns[k]
		e.steps = 0
		outs := e.Exec(tf, newState(), nil, nil)
		if e.overflow {
			c.Viol("closed", "-", shortFn(tf), "the dispatch is too complex to decide")
			return
		}
		c.Count("dispatch paths", len(outs))
		for _, ex := range outs {
			if len(ex.res) > 0 && ex.res[0].k == 'C' {
				ns := ex.st
				ns.set("ret", "1")
				for _, ex2 := range e.Exec(ex.res[0].fn, ns, nil, e.Binds(ex.res[0])) {
					end(k, tf, ex2.st, ex.ret.Pos())
				}
				continue
			}
			if len(ex.res) > 0 && ex.res[0].k != 'N' && ex.st.get("open") != "" {
				c.Viol("closed", c.Pos(p, ex.ret.Pos()), shortFn(tf), "what is returned to be run at the end of the call is unknown")
			}
			end(k, tf, ex.st, ex.ret.Pos())
		}
	}
	if len(enters) == 0 || len(exits) == 0 || nMark < 2 {
		c.Viol("closed", "-", "floor", "no call is entered in the tree, or none is left, or the tracing mark is never set")
	}
	c.Floor("admitted", 1)
	// leaving: the values
	entryOf := func(v ssa.Value) (calls map[ssa.Value]int, ok bool) {
		calls = map[ssa.Value]int{}
		isEnter := func(v ssa.Value) bool {
			if x, ok := v.(*ssa.Extract); ok {
				v = x.Tuple
			}
			cl, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			f := cl.Call.StaticCallee()
			if f == nil {
				return false
			}
			_, ok = t.enter[f]
			return ok
		}
		for _, o := range p.Origins(v, originOpts{keep: isEnter}) {
			if !isEnter(o.Val) {
				return calls, false
			}
			if x, ok := o.Val.(*ssa.Extract); ok {
				calls[x.Tuple] = x.Index
			} else {
				calls[o.Val] = 0
			}
		}
		return calls, len(calls) > 0
	}
	for ins, pi := range exits {
		construct, at := shortFn(ins.Parent()), c.Pos(p, ins.Pos())
		c.Obl("restores", construct+" at "+at)
		args := ins.Common().Args
		olds, ok := entryOf(args[pi])
		if !ok {
			c.Viol("restores", at, construct, "what becomes the current entry is not the one found when the call was entered")
			continue
		}
		for cl, idx := range olds {
			f := cl.(*ssa.Call).Call.StaticCallee()
			if t.enter[f] != idx {
				c.Viol("restores", at, construct, "the entry just left becomes the current one")
			}
			if !sameSource(p, cl.(*ssa.Call).Call.Args[0], args[0]) {
				c.Viol("restores", at, construct, "the entry is left on another tree than the one it was entered on")
			}
		}
		for i, a := range args {
			if i == pi || !isPtrTo(a.Type(), t.entryT) {
				continue
			}
			news, ok := entryOf(a)
			if ok {
				for cl, idx := range news {
					f := cl.(*ssa.Call).Call.StaticCallee()
					if olds[cl] == idx && f.Signature.Results().Len() > 1 || t.enter[f] == idx {
						ok = false
					}
					if _, same := olds[cl]; !same {
						ok = false
					}
				}
			}
			if !ok {
				c.Viol("restores", at, construct, "the entry finished is not the one entered for this call")
			}
		}
		// marks it finished
		fin := t.finishedFields()
		c.Obl("finished", construct+" at "+at)
		done := false
		isMark := func(i ssa.Instruction) bool {
			s, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || namedOf(fa.X.Type()) != t.entryT || !fin[fieldVar(fa.X.Type(), fa.Field)] {
				return false
			}
			b, isC := constBool(s.Val)
			return isC && b
		}
		var marks func(f *ssa.Function, depth int) bool
		marks = func(f *ssa.Function, depth int) bool {
			is := func(i ssa.Instruction) bool {
				if isMark(i) {
					return true
				}
				if cl, ok := i.(*ssa.Call); ok && depth < 4 {
					if g := cl.Call.StaticCallee(); g != nil && p.inRepo[g] && g != f && len(g.Blocks) > 0 {
						return marks(g, depth+1)
					}
				}
				return false
			}
			for _, r := range returnsOf(f) {
				if !alwaysBefore(r, is) {
					return false
				}
			}
			return len(returnsOf(f)) > 0
		}
		for _, a := range args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				fs := p.FuncValues(a)
				all := len(fs) > 0
				for _, f := range fs {
					if !marks(f, 0) {
						all = false
					}
				}
				done = done || all
			}
		}
		if f := ins.Common().StaticCallee(); f != nil && marks(f, 0) {
			done = true
		}
		if !done {
			c.Viol("finished", at, construct, "the entry is left without being marked as finished: it is shown as still running")
		}
	}
	c.Floor("restores", 2)
	t.checkLinked(c)
	// exit
	for _, xf := range m.ExitFns {
		c.Obl("exit", shortFn(xf))
		ends := func(f *ssa.Function) bool {
			hit := false
			for g := range p.Reach([]*ssa.Function{f}, nil) {
				if fnPkg(g) == nil || fnPkg(g).Path() != rtStack {
					continue
				}
				eachInstr(g, func(ins ssa.Instruction) {
					if s, ok := ins.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == t.stackT && isTimeT(fieldVar(fa.X.Type(), fa.Field).Type()) {
							hit = true
						}
					}
				})
			}
			return hit
		}
		endCall := func(i ssa.Instruction) bool {
			cl, ok := i.(*ssa.Call)
			if !ok {
				return false
			}
			g := cl.Call.StaticCallee()
			return g != nil && ends(g)
		}
		nilStack := func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
				return false
			}
			return isPtrTo(b.X.Type(), t.stackT)
		}
		if len(xf.Blocks) == 0 {
			continue
		}
		first := xf.Blocks[0].Instrs[0]
		if r := pathAvoiding(p, first, endCall, nilStack); r != nil {
			c.Viol("exit", c.Pos(p, r.Pos()), shortFn(xf), "a goroutine with a tree may exit without an end being recorded: it is shown as still running")
		}
	}
	c.Floor("exit", 1)
	t.checkTimes(c)
}

// checkTimes: an entry's times are differences to the begin of its tree.
func (t *traceModel) checkTimes(c *Ctx) {
	p := t.p
	type timed struct {
		at        ssa.Instruction
		construct string
		base      *types.Var
	}
	var all []timed
	count := map[*types.Var]int{}
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtStack || s == rtTrap }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			s, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || namedOf(fa.X.Type()) != t.entryT {
				return
			}
			f := fieldVar(fa.X.Type(), fa.Field)
			if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return
			}
			for _, o := range p.Origins(s.Val, originOpts{}) {
				var base ssa.Value
				switch x := o.Val.(type) {
				case *ssa.BinOp:
					if x.Op == token.SUB && isTimeStamp(x.Y) && isTimeStamp(x.X) {
						base = x.Y.(*ssa.Call).Call.Args[0]
					}
				case *ssa.Call:
					if calleeName(x) == "(time.Time).Sub" {
						base = x.Call.Args[1]
					}
				}
				if base == nil {
					continue
				}
				construct := shortFn(fn) + " " + f.Name()
				at := ssa.Instruction(s)
				if bi, ok := o.Val.(ssa.Instruction); ok {
					at = bi
				}
				c.Obl("times", construct+" from "+c.Pos(p, at.Pos()))
				for _, bo := range p.Origins(base, originOpts{}) {
					var bf *types.Var
					if u, ok := bo.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
						if bfa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(bfa.X.Type()) == t.stackT {
							bf = fieldVar(bfa.X.Type(), bfa.Field)
						}
					}
					if bf == nil {
						c.Viol("times", c.Pos(p, at.Pos()), construct, "the time is not measured from the begin of the tree the entry is in")
						continue
					}
					count[bf]++
					all = append(all, timed{at, construct, bf})
				}
			}
		})
	}
	var most *types.Var
	for f, n := range count {
		if most == nil || n > count[most] || n == count[most] && f.Name() < most.Name() {
			most = f
		}
	}
	for _, a := range all {
		if a.base != most {
			c.Viol("times", c.Pos(p, a.at.Pos()), a.construct, "measured from %s, other times of entries from %s", a.base.Name(), most.Name())
		}
	}
	c.Floor("times", 2)
}

func isTimeStamp(v ssa.Value) bool {
	cl, ok := v.(*ssa.Call)
	return ok && strings.HasPrefix(calleeName(cl), "(time.Time).Unix") && len(cl.Call.Args) == 1
}

func isTimeT(t types.Type) bool { return isNamed(t, "time", "Time") }

// finishedFields: the flags of an entry whose absence makes the export show
// it as running.
func (t *traceModel) finishedFields() map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for _, fn := range t.p.FuncsIn(func(s string) bool { return s == rtStack }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			iff, ok := ins.(*ssa.If)
			if !ok {
				return
			}
			v := iff.Cond
			for {
				if u, ok := v.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL && namedOf(fa.X.Type()) == t.entryT {
						out[fieldVar(fa.X.Type(), fa.Field)] = true
					}
					if u.Op == token.NOT {
						v = u.X
						continue
					}
				}
				break
			}
		})
	}
	return out
}

// checkLinked: what entering and leaving do to the tree.
func (t *traceModel) checkLinked(c *Ctx) {
	p := t.p
	isList := func(v ssa.Value) (owner ssa.Value, root, ok bool) {
		fa, k := v.(*ssa.FieldAddr)
		if !k {
			return nil, false, false
		}
		f := fieldVar(fa.X.Type(), fa.Field)
		sl, k := f.Type().Underlying().(*types.Slice)
		if !k || !isPtrTo(sl.Elem(), t.entryT) {
			return nil, false, false
		}
		switch namedOf(fa.X.Type()) {
		case t.stackT:
			return fa.X, true, true
		case t.entryT:
			return fa.X, false, true
		}
		return nil, false, false
	}
	fromTop := func(v ssa.Value) bool {
		os := p.Origins(v, originOpts{keep: func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && t.isTopAddr(u.X)
		}})
		for _, o := range os {
			u, ok := o.Val.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || !t.isTopAddr(u.X) {
				return false
			}
		}
		return len(os) > 0
	}
	for fn := range t.enter {
		construct := shortFn(fn)
		if len(p.Reach([]*ssa.Function{fn}, nil)) == 0 {
			continue
		}
		c.Obl("linked", "entering: "+construct)
		e := &esp{p: p, max: 50000}
		e.inline = func(f *ssa.Function) bool { return fnPkg(f) != nil && fnPkg(f).Path() == rtStack && p.inRepo[f] }
		e.instr = func(st *estate, ins ssa.Instruction) {
			s, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			if t.isTopAddr(s.Addr) {
				if st.get("top") != "" {
					c.Viol("linked", c.Pos(p, s.Pos()), construct, "the current entry is set twice while one call is entered")
				}
				st.set("top", "1")
				if fromTop(s.Val) || isNilConst(s.Val) {
					c.Viol("linked", c.Pos(p, s.Pos()), construct, "the entry entered does not become the current one")
				}
			}
			if owner, root, ok := isList(s.Addr); ok {
				if st.get("lists") != "" {
					c.Viol("linked", c.Pos(p, s.Pos()), construct, "one call is added to the tree twice")
				}
				st.set("lists", "1")
				if !appendsTo(s) {
					c.Viol("linked", c.Pos(p, s.Pos()), construct, "the entries already there are not kept when one is added")
				}
				if !root {
					if !fromTop(owner) {
						c.Viol("linked", c.Pos(p, s.Pos()), construct, "the entry is not added below the current one")
					} else if st.get("top") != "" && !t.loadedBefore(p, owner, s) {
						c.Viol("linked", c.Pos(p, s.Pos()), construct, "the entry is added below itself")
					}
				} else if st.get("hasTop") == "1" {
					c.Viol("linked", c.Pos(p, s.Pos()), construct, "a call made inside another one is added as a root")
				}
			}
		}
		e.cond = func(st *estate, cond ssa.Value, pol bool) {
			b, ok := cond.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
				return
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if isNilConst(pr[1]) && isPtrTo(pr[0].Type(), t.entryT) && fromTop(pr[0]) {
					v := "1"
					if (b.Op == token.EQL) == pol {
						v = "0"
					}
					if old := st.get("hasTop"); old != "" && old != v && st.get("top") == "" {
						st.set("!dead", "1")
					}
					st.set("hasTop", v)
				}
			}
		}
		outs := e.Exec(fn, newState(), nil, nil)
		if e.overflow {
			c.Viol("linked", "-", construct, "too complex to decide")
		}
		for _, ex := range outs {
			at := c.Pos(p, ex.ret.Pos())
			if ex.st.get("top") == "" {
				c.Viol("linked", at, construct, "the call entered may not become the current one")
			}
			if ex.st.get("lists") == "" {
				c.Viol("linked", at, construct, "the call entered may not be added to the tree")
			}
		}
	}
	for fn, pi := range t.exit {
		construct := shortFn(fn)
		c.Obl("linked", "leaving: "+construct)
		e := &esp{p: p, max: 50000}
		e.inline = func(f *ssa.Function) bool { return fnPkg(f) != nil && fnPkg(f).Path() == rtStack && p.inRepo[f] }
		e.instr = func(st *estate, ins ssa.Instruction) {
			s, ok := ins.(*ssa.Store)
			if !ok || !t.isTopAddr(s.Addr) {
				return
			}
			st.set("top", "1")
			if s.Parent() == fn && s.Val != ssa.Value(fn.Params[pi]) {
				st.set("top", "2")
			}
		}
		for _, ex := range e.Exec(fn, newState(), nil, nil) {
			switch ex.st.get("top") {
			case "":
				c.Viol("linked", c.Pos(p, ex.ret.Pos()), construct, "the call left may stay the current one")
			case "2":
				c.Viol("linked", c.Pos(p, ex.ret.Pos()), construct, "what becomes current is not the entry that was current before the call")
			}
		}
	}
}

// appendsTo: the store puts back the same list with elements added.
func appendsTo(s *ssa.Store) bool {
	cl, ok := s.Val.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := cl.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	u, ok := cl.Call.Args[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	sa := s.Addr.(*ssa.FieldAddr)
	return ok && fa.Field == sa.Field && (fa.X == sa.X || valueEq(fa.X, sa.X))
}

func valueEq(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == y.Op {
		return valueEq(x.X, y.X)
	}
	fx, ok1 := a.(*ssa.FieldAddr)
	fy, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.Field == fy.Field && valueEq(fx.X, fy.X)
}

// loadedBefore: the current entry held by v was read before s's function set
// a new one.
func (t *traceModel) loadedBefore(p *Prog, v ssa.Value, s *ssa.Store) bool {
	for _, o := range p.Origins(v, originOpts{keep: func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && t.isTopAddr(u.X)
	}}) {
		u, ok := o.Val.(*ssa.UnOp)
		if !ok {
			return false
		}
		if alwaysBefore(u, func(i ssa.Instruction) bool {
			st, ok := i.(*ssa.Store)
			return ok && t.isTopAddr(st.Addr)
		}) {
			return false
		}
	}
	return true
}
