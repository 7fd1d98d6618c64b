package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R07"] = propDef{run: checkR07, assumptions: []string{
		"the call tree is only reachable through the stack and entry types of the runtime's internal stack package",
	}}
}

// lockModel: which instructions run with a mutex field of a struct held.
type lockModel struct {
	p     *Prog
	owner *types.Named
	held  map[*ssa.Function]map[ssa.Instruction]bool
	entry map[*ssa.Function]int // 1 held on entry, 2 not
}

// lockOp: +1 for locking, -1 for unlocking a mutex stored in owner.
func (l *lockModel) lockOp(ins ssa.Instruction) int {
	cl, ok := ins.(ssa.CallInstruction)
	if !ok {
		return 0
	}
	f := cl.Common().StaticCallee()
	if f == nil || fnPkg(f) == nil {
		return 0
	}
	if fnPkg(f).Path() == "sync" && len(cl.Common().Args) > 0 {
		base := cl.Common().Args[0]
		fa, ok := base.(*ssa.FieldAddr)
		if !ok || namedOf(fa.X.Type()) != l.owner {
			return 0
		}
		switch f.Name() {
		case "Lock":
			return 1
		case "Unlock":
			return -1
		}
		return 0
	}
	// wrappers: a repository method that only locks or only unlocks
	if l.p.inRepo[f] && len(f.Blocks) == 1 {
		n := 0
		other := false
		eachInstr(f, func(i ssa.Instruction) {
			if _, isDef := i.(*ssa.Defer); isDef {
				other = true
				return
			}
			if ci, ok := i.(*ssa.Call); ok {
				g := ci.Call.StaticCallee()
				if g != nil && fnPkg(g) != nil && fnPkg(g).Path() == "sync" {
					n += l.lockOp(i)
				} else {
					other = true
				}
			}
		})
		if !other {
			return n
		}
	}
	return 0
}

func (l *lockModel) within(fn *ssa.Function) map[ssa.Instruction]bool {
	if h, ok := l.held[fn]; ok {
		return h
	}
	in := map[*ssa.BasicBlock]int{} // 0 unknown, 1 held, 2 not held
	h := map[ssa.Instruction]bool{}
	l.held[fn] = h
	in[fn.Blocks[0]] = 2
	if l.entryHeld(fn) {
		in[fn.Blocks[0]] = 1
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			s := in[b]
			if s == 0 {
				continue
			}
			for _, i := range b.Instrs {
				h[i] = s == 1
				if _, isDef := i.(*ssa.Defer); isDef {
					continue
				}
				switch op := l.lockOp(i); {
				case op > 0:
					s = 1
				case op < 0:
					s = 2
				}
			}
			for _, y := range b.Succs {
				n := in[y]
				if n == 0 || n == 1 && s == 2 {
					in[y] = s
					changed = true
				}
			}
		}
	}
	return h
}

// entryHeld: every call of fn happens with the lock held (greatest
// fixpoint, so that recursion under the lock counts).
func (l *lockModel) entryHeld(fn *ssa.Function) bool {
	if l.entry == nil {
		l.solve()
	}
	return l.entry[fn] == 1
}

func (l *lockModel) solve() {
	l.entry = map[*ssa.Function]int{}
	type cs struct {
		sites []callSite
	}
	all := map[*ssa.Function]cs{}
	for _, fn := range l.p.Funcs {
		if pk := fnPkg(fn); pk == nil || !strings.HasPrefix(pk.Path(), l.owner.Obj().Pkg().Path()[:len(l.owner.Obj().Pkg().Path())-len("/stack")]) {
			continue
		}
		sites, complete := l.p.CallSitesOf(fn)
		if complete && len(sites) > 0 {
			l.entry[fn] = 1
			all[fn] = cs{sites}
		}
	}
	for changed := true; changed; {
		changed = false
		l.held = map[*ssa.Function]map[ssa.Instruction]bool{}
		for fn, s := range all {
			if l.entry[fn] != 1 {
				continue
			}
			for _, c := range s.sites {
				_, isGo := c.ins.(*ssa.Go)
				_, isDefer := c.ins.(*ssa.Defer)
				if isGo || isDefer || !l.within(c.ins.Parent())[c.ins] {
					l.entry[fn] = 2
					changed = true
					break
				}
			}
		}
	}
	l.held = map[*ssa.Function]map[ssa.Instruction]bool{}
}

func checkR07(c *Ctx) {
	p := c.RT()
	c.Rule("locked", "the fields of a goroutine's call tree are only read or written with the tree's mutex held, or before the tree is shared")
	c.Rule("no-reentry", "while the mutex is held, nothing runs that could be instrumented, trap and lock it again")
	c.Rule("unlocked", "a locked mutex is released on every way out")
	c.Rule("snapshot", "what leaves the lock for exporting is a deep copy: entries, child lists and data maps are fresh")
	c.Rule("export", "exporting works on snapshots only")
	sp := p.pkg(rtStack)
	stackT := namedOf(sp.Pkg.Scope().Lookup("Stack").Type())
	entryT := namedOf(sp.Pkg.Scope().Lookup("Entry").Type())
	if stackT == nil || entryT == nil {
		panic("stack types not found")
	}
	l := &lockModel{p: p, owner: stackT, held: map[*ssa.Function]map[ssa.Instruction]bool{}}

	fresh := map[ssa.Value]bool{}
	var safe func(v ssa.Value, busy map[ssa.Value]bool) bool
	safe = func(v ssa.Value, busy map[ssa.Value]bool) bool {
		if busy[v] {
			return true
		}
		busy[v] = true
		os := p.Origins(v, originOpts{})
		if len(os) == 0 {
			return false
		}
		for _, o := range os {
			switch x := o.Val.(type) {
			case *ssa.Const:
				continue
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				continue
			case *ssa.UnOp:
				switch a := x.X.(type) {
				case *ssa.IndexAddr:
					// an element of a list: the list must be a copy, with
					// copies in it
					if safe(a.X, busy) && elementsSafe(p, a.X, func(e ssa.Value) bool { return safe(e, busy) }) {
						continue
					}
				case *ssa.FieldAddr:
					if namedOf(a.X.Type()) == entryT && safe(a.X, busy) {
						continue
					}
				}
			case *ssa.Slice:
				if safe(x.X, busy) {
					continue
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					ok := safe(x.Call.Args[0], busy)
					continueIf := ok
					if continueIf {
						continue
					}
				}
			}
			return false
		}
		return true
	}
	_ = fresh
	// freshHere: allocated by this very activation and not yet shared
	freshHere := func(v ssa.Value, at ssa.Instruction) bool {
		for _, o := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
			a, ok := o.Val.(*ssa.Alloc)
			if !ok || a.Parent() != at.Parent() {
				return false
			}
		}
		return true
	}

	n := 0
	for _, fn := range p.FuncsIn(func(s string) bool { return strings.HasPrefix(s, rtMod) }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			fa, ok := ins.(*ssa.FieldAddr)
			if !ok {
				if f, isF := ins.(*ssa.Field); isF && namedOf(f.X.Type()) == entryT {
					return // field of a copy
				}
				if u, isU := ins.(*ssa.UnOp); isU && u.Op == token.MUL && namedOf(u.Type()) == entryT && types.Identical(u.Type(), entryT) {
					n++
					if !l.within(fn)[ins] && !safe(u.X, map[ssa.Value]bool{}) {
						c.Viol("locked", c.Pos(p, ins.Pos()), shortFn(fn), "an entry of the tree is copied without the lock")
					}
				}
				return
			}
			owner := namedOf(fa.X.Type())
			if owner != stackT && owner != entryT {
				return
			}
			f := fieldVar(fa.X.Type(), fa.Field)
			if owner == stackT && (isNamed(f.Type(), "sync", "Mutex") || isNamed(f.Type(), "sync", "RWMutex")) {
				return
			}
			construct := shortFn(fn) + " " + owner.Obj().Name() + "." + f.Name()
			// accesses made through this address
			for _, r := range *fa.Referrers() {
				if _, isD := r.(*ssa.DebugRef); isD {
					continue
				}
				n++
				c.Obl("locked", construct+" at "+c.Pos(p, ins.Pos()))
				if l.within(fn)[r] {
					continue
				}
				if freshHere(fa.X, r) {
					continue
				}
				_, isStore := r.(*ssa.Store)
				if owner == stackT && constAfterCreation(p, stackT, f) && !isStore {
					continue // never written after creation
				}
				if owner == entryT && safe(fa.X, map[ssa.Value]bool{}) {
					continue // a private copy
				}
				if owner == entryT && len(p.callSitesOrNone(fn)) == 0 && fn.Signature.Recv() != nil && !calledFromRepo(p, fn) {
					continue // an accessor nobody in the runtime uses
				}
				c.Viol("locked", c.Pos(p, ins.Pos()), construct, "accessed without the tree's mutex: an export running in another goroutine may see it half-built")
			}
		})
	}
	c.Floor("locked", 15)

	// what runs while held
	var foreign func(f *ssa.Function, busy map[*ssa.Function]bool) string
	foreign = func(f *ssa.Function, busy map[*ssa.Function]bool) string {
		if busy[f] {
			return ""
		}
		busy[f] = true
		if len(f.Blocks) == 0 || !p.inRepo[f] {
			return shortFn(f)
		}
		bad := ""
		eachInstr(f, func(ins ssa.Instruction) {
			if bad != "" {
				return
			}
			if l.lockOp(ins) > 0 {
				bad = "locking again"
				return
			}
			bad = callForeign(p, l, ins, foreign, busy)
		})
		return bad
	}
	locks := 0
	for _, fn := range p.FuncsIn(func(s string) bool { return strings.HasPrefix(s, rtMod) }) {
		h := l.within(fn)
		if l.lockOpCount(fn) > 0 {
			locks++
			c.Obl("unlocked", shortFn(fn))
			eachInstr(fn, func(ins ssa.Instruction) {
				if _, isDef := ins.(*ssa.Defer); isDef || l.lockOp(ins) <= 0 || isWrapper(fn) {
					return
				}
				isDone := func(i ssa.Instruction) bool {
					if l.lockOp(i) < 0 {
						return true
					}
					if d, ok := i.(*ssa.Defer); ok {
						for _, g := range p.FuncValues(d.Call.Value) {
							if len(g.Blocks) > 0 {
								hit := false
								eachInstr(g, func(k ssa.Instruction) {
									if l.lockOp(k) < 0 && k.Block() == g.Blocks[0] {
										hit = true
									}
								})
								if hit {
									return true
								}
							}
						}
					}
					return false
				}
				if bad := alwaysAfter(ins, isDone, isReturn); bad != nil {
					c.Viol("unlocked", c.Pos(p, ins.Pos()), shortFn(fn), "the mutex may stay locked: %s is reached with it held", c.Pos(p, bad.Pos()))
				}
			})
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			if !h[ins] {
				return
			}
			if l.lockOp(ins) > 0 {
				c.Viol("no-reentry", c.Pos(p, ins.Pos()), shortFn(fn), "the mutex is locked while already held")
				return
			}
			if _, ok := ins.(ssa.CallInstruction); !ok {
				return
			}
			c.Obl("no-reentry", shortFn(fn)+" at "+c.Pos(p, ins.Pos()))
			if bad := callForeign(p, l, ins, foreign, map[*ssa.Function]bool{}); bad != "" {
				c.Viol("no-reentry", c.Pos(p, ins.Pos()), shortFn(fn), "%s runs while the tree's mutex is held: it may be instrumented and lock it again", bad)
			}
		})
	}
	if locks == 0 {
		c.Viol("unlocked", "-", "lock", "the tree's mutex is never locked")
	}

	// snapshot: exported functions returning entries from the tree's roots
	snaps := 0
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtStack }) {
		sig := fn.Signature
		retIdx := -1
		for i := 0; i < sig.Results().Len(); i++ {
			if isListOfEntryPtrs(sig.Results().At(i).Type(), entryT) {
				retIdx = i
			}
		}
		if retIdx < 0 || sig.Recv() == nil || namedOf(sig.Recv().Type()) != stackT {
			continue
		}
		snaps++
		c.Obl("snapshot", shortFn(fn))
		for _, r := range returnsOf(fn) {
			checkDeepCopy(c, p, fn, r.Results[retIdx], entryT, map[ssa.Value]bool{})
		}
	}
	if snaps == 0 {
		c.Viol("snapshot", "-", "snapshot", "no method handing out a copy of the tree was found")
	}
	// export: lists of exported entries come from snapshots
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtStack }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() == nil || !p.inRepo[cl.Call.StaticCallee()] {
				return
			}
			f := cl.Call.StaticCallee()
			if fnPkg(f) == nil || fnPkg(f).Path() != rtStack || l.within(fn)[ins] {
				return
			}
			for _, a := range cl.Call.Args {
				if isListOfEntryPtrs(a.Type(), entryT) {
					c.Obl("export", shortFn(fn)+" -> "+shortFn(f))
					if !safe(a, map[ssa.Value]bool{}) {
						c.Viol("export", c.Pos(p, cl.Pos()), shortFn(fn), "entries of the live tree are walked without the lock")
					}
				}
			}
		})
	}
	c.Floor("export", 1)
}

func isWrapper(fn *ssa.Function) bool {
	n := 0
	eachInstr(fn, func(i ssa.Instruction) {
		if _, ok := i.(ssa.CallInstruction); ok {
			n++
		}
	})
	return n == 1 && len(fn.Blocks) == 1
}

func (l *lockModel) lockOpCount(fn *ssa.Function) int {
	n := 0
	eachInstr(fn, func(ins ssa.Instruction) {
		if l.lockOp(ins) > 0 {
			n++
		}
	})
	return n
}

func callForeign(p *Prog, l *lockModel, ins ssa.Instruction, foreign func(*ssa.Function, map[*ssa.Function]bool) string, busy map[*ssa.Function]bool) string {
	cl, ok := ins.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if l.lockOp(ins) != 0 {
		return ""
	}
	com := cl.Common()
	if _, b := com.Value.(*ssa.Builtin); b {
		return ""
	}
	if com.IsInvoke() {
		return "a method of an interface value (" + com.Method.Name() + ")"
	}
	fs := []*ssa.Function{}
	if f := com.StaticCallee(); f != nil {
		fs = append(fs, f)
	} else {
		fs = p.FuncValues(com.Value)
		if len(fs) == 0 {
			return "an unknown function"
		}
	}
	for _, f := range fs {
		if pk := fnPkg(f); pk != nil {
			switch pk.Path() {
			case rtLink, "unsafe", "sync", "sync/atomic", "runtime":
				continue
			}
		}
		if bad := foreign(f, busy); bad != "" {
			return bad
		}
	}
	return ""
}

func isListOfEntryPtrs(t types.Type, entryT *types.Named) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return namedOf(sl.Elem()) == entryT
}

// constAfterCreation: the field is only stored into fresh values.
func constAfterCreation(p *Prog, owner *types.Named, f *types.Var) bool {
	ok := true
	for _, fn := range p.Funcs {
		eachInstr(fn, func(ins ssa.Instruction) {
			st, is := ins.(*ssa.Store)
			if !is {
				return
			}
			fa, is := st.Addr.(*ssa.FieldAddr)
			if !is || namedOf(fa.X.Type()) != owner || fieldVar(fa.X.Type(), fa.Field) != f {
				return
			}
			if a, is := fa.X.(*ssa.Alloc); !is || a.Parent() != fn {
				ok = false
			}
		})
	}
	return ok
}

func (p *Prog) callSitesOrNone(fn *ssa.Function) []callSite {
	s, _ := p.CallSitesOf(fn)
	return s
}

func calledFromRepo(p *Prog, fn *ssa.Function) bool {
	return len(p.callSitesOrNone(fn)) > 0
}

// elementsSafe: whatever is stored as an element of the (fresh) list is
// itself safe.
func elementsSafe(p *Prog, list ssa.Value, ok func(ssa.Value) bool) bool {
	res := true
	for _, o := range p.Origins(list, originOpts{}) {
		v, isV := o.Val.(ssa.Value)
		if !isV || v.Referrers() == nil {
			continue
		}
		switch v.(type) {
		case *ssa.MakeSlice, *ssa.Slice:
		default:
			continue
		}
		for _, r := range *v.Referrers() {
			ia, is := r.(*ssa.IndexAddr)
			if !is || ia.Referrers() == nil {
				continue
			}
			for _, u := range *ia.Referrers() {
				if st, is := u.(*ssa.Store); is && st.Addr == ssa.Value(ia) && !ok(st.Val) {
					res = false
				}
			}
		}
	}
	return res
}

// checkDeepCopy: v (a list or an entry) and everything reachable from it is
// fresh.
func checkDeepCopy(c *Ctx, p *Prog, at *ssa.Function, v ssa.Value, entryT *types.Named, seen map[ssa.Value]bool) {
	for _, o := range p.Origins(v, originOpts{}) {
		if seen[o.Val] {
			continue
		}
		seen[o.Val] = true
		if isNilConst(o.Val) {
			continue
		}
		switch x := o.Val.(type) {
		case *ssa.MakeSlice:
			c.Obl("snapshot", "list made at "+c.Pos(p, x.Pos()))
			checkElems(c, p, at, x, entryT, seen)
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				checkDeepCopy(c, p, at, x.Call.Args[0], entryT, seen)
				if els := spread(x.Call.Args[1]); len(els) > 0 {
					for _, e := range els {
						checkDeepCopy(c, p, at, e, entryT, seen)
					}
				} else {
					checkDeepCopy(c, p, at, x.Call.Args[1], entryT, seen)
				}
				continue
			}
		case *ssa.Slice:
			checkDeepCopy(c, p, at, x.X, entryT, seen)
			continue
		case *ssa.Alloc:
			et := x.Type().Underlying().(*types.Pointer).Elem()
			if types.Identical(et, entryT) {
				c.Obl("snapshot", "entry made at "+c.Pos(p, x.Pos()))
				checkEntryFresh(c, p, at, x, entryT, seen)
				continue
			}
			if _, isArr := et.Underlying().(*types.Array); isArr {
				continue
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				_ = ia
				c.Viol("snapshot", c.Pos(p, x.Pos()), shortFn(x.Parent()), "an entry of the live tree is handed out instead of a copy")
				continue
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				c.Viol("snapshot", c.Pos(p, x.Pos()), shortFn(x.Parent()), "the live tree's %s is handed out instead of a copy", fieldVar(fa.X.Type(), fa.Field).Name())
				continue
			}
		}
		c.Viol("snapshot", c.Pos(p, o.Val.Pos()), shortFn(at), "part of the snapshot is not known to be a copy")
	}
}

func checkElems(c *Ctx, p *Prog, at *ssa.Function, list ssa.Value, entryT *types.Named, seen map[ssa.Value]bool) {
	if list.Referrers() == nil {
		return
	}
	for _, r := range *list.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, u := range *x.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					checkDeepCopy(c, p, at, st.Val, entryT, seen)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == list {
				c.Viol("snapshot", c.Pos(p, x.Pos()), shortFn(x.Parent()), "the entries of the live tree are shared by the copied list")
			}
		case *ssa.Phi:
			checkElems(c, p, at, x, entryT, seen)
		}
	}
}

// checkEntryFresh: an entry made by copying another must replace every
// reference to mutable parts of the tree.
func checkEntryFresh(c *Ctx, p *Prog, at *ssa.Function, a *ssa.Alloc, entryT *types.Named, seen map[ssa.Value]bool) {
	copied := false
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			copied = true
		}
	}
	st := entryT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		isList := isListOfEntryPtrs(ft, entryT)
		_, isMap := ft.Underlying().(*types.Map)
		if !isList && !isMap {
			continue
		}
		var stores []*ssa.Store
		for _, r := range *a.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || fa.Field != i {
				continue
			}
			for _, u := range *fa.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
					stores = append(stores, s)
				}
			}
		}
		for _, s := range stores {
			if isList {
				checkDeepCopy(c, p, at, s.Val, entryT, seen)
			} else {
				for _, o := range p.Origins(s.Val, originOpts{}) {
					if _, ok := o.Val.(*ssa.MakeMap); !ok && !isNilConst(o.Val) {
						c.Viol("snapshot", c.Pos(p, s.Pos()), shortFn(a.Parent()), "the copied entry shares its %s with the live tree", st.Field(i).Name())
					}
				}
			}
		}
		if !copied {
			continue
		}
		// every path to a return replaces it, unless the original is nil
		isNil := func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.Op == token.EQL) == pol {
				for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if isNilConst(pr[1]) {
						if u, ok := pr[0].(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == entryT && fa.Field == i {
								return true
							}
						}
					}
				}
			}
			if l, op, k, ok := lenCompare(cond, pol); ok && impliesEmpty(op, k) && isList {
				if u, ok := l.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == entryT && fa.Field == i {
						return true
					}
				}
			}
			return false
		}
		isStore := map[ssa.Instruction]bool{}
		for _, s := range stores {
			isStore[s] = true
		}
		if bad := pathAvoiding(p, a, func(i ssa.Instruction) bool { return isStore[i] }, isNil); bad != nil {
			c.Viol("snapshot", c.Pos(p, a.Pos()), shortFn(a.Parent()), "the copied entry shares its %s with the live tree", st.Field(i).Name())
		}
	}
}

// pathAvoiding: a return reachable from start without passing is, nor an
// edge for which the excuse holds.
func pathAvoiding(p *Prog, start ssa.Instruction, is func(ssa.Instruction) bool, excuse atomMatch) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for _, i := range b.Instrs[from:] {
			if is(i) {
				return nil
			}
			if isReturn(i) {
				return i
			}
		}
		for i, s := range b.Succs {
			if seen[s] || excuse != nil && p.edgeHolds(b, i, excuse, 0) {
				continue
			}
			seen[s] = true
			if bad := walk(s, 0); bad != nil {
				return bad
			}
		}
		return nil
	}
	return walk(start.Block(), instrIndex(start)+1)
}
