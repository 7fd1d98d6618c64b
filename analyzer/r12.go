package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R12"] = propDef{run: checkR12, assumptions: []string{
		"the linked runtime calls the creation callback with the creating and the created goroutine (R15)",
		"keys are declared through package tls; TLS methods are called on goroutines of the instrumented program",
	}}
}

type tlsModel struct {
	c       *Ctx
	p       *Prog
	g       *types.Named // per-goroutine storage
	store   *types.Var   // the map in it
	keyType *types.Named
	inherit *types.Var
	keys    *ssa.Global
	fns     []*ssa.Function
	hooks   []*ssa.Function
}

func checkR12(c *Ctx) {
	p := c.RT()
	m := &tlsModel{c: c, p: p}
	c.Rule("R12.store", "a goroutine's storage is read and written under the key given, of that very goroutine, and is only made anew when there is none")
	c.Rule("R12.own", "reading and setting a key reaches the current goroutine's storage only, with the key itself and the value itself")
	c.Rule("R12.key", "each declaration makes a key of its own, enters it in the list of keys on every path, and marks it inheritable exactly when asked to")
	c.Rule("R12.inherit", "on creation of a goroutine every inheritable key its creator has a value for gets that value in the new one, and no other key does")
	c.Rule("R12.lock", "the list of keys is only used with its lock held, and the lock is released on every path")
	lp := p.pkg(rtLink)
	tp := p.pkg(rtTLS)
	if lp == nil || tp == nil {
		c.Viol("R12.store", "-", "runtime", "packages not found")
		return
	}
	for _, n := range lp.Pkg.Scope().Names() {
		tn, ok := lp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if mp, ok := st.Field(i).Type().Underlying().(*types.Map); ok && isEmptyIfaceType(mp.Key()) && isEmptyIfaceType(mp.Elem()) {
				m.g, m.store = namedOf(tn.Type()), st.Field(i)
			}
		}
	}
	if m.g == nil {
		c.Viol("R12.store", "-", "runtime", "the per-goroutine storage was not found")
		return
	}
	m.storage()
	c.Floor("R12.store", 5)
	var iface *types.Interface
	if o := tp.Pkg.Scope().Lookup("TLSKey"); o != nil {
		iface, _ = o.Type().Underlying().(*types.Interface)
	}
	if iface == nil {
		c.Viol("R12.own", "-", "tls", "TLSKey not found")
		return
	}
	m.fns = p.FuncsIn(func(s string) bool { return s == rtTLS })
	for _, n := range tp.Pkg.Scope().Names() {
		tn, ok := tp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), iface) || types.Implements(tn.Type(), iface) {
			m.keyType = namedOf(tn.Type())
		}
	}
	for _, mem := range tp.Members {
		g, ok := mem.(*ssa.Global)
		if !ok {
			continue
		}
		if s, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok && m.keyType != nil && isPtrToType(s.Elem(), m.keyType) {
			m.keys = g
		}
	}
	if m.keyType == nil || m.keys == nil {
		c.Viol("R12.key", "-", "tls", "the type of keys or the list of keys was not found")
		return
	}
	if p.sizeof(m.keyType) == 0 {
		c.Viol("R12.key", "-", "tls", "keys have no size: two of them may be equal")
	}
	if st, ok := m.keyType.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				m.inherit = st.Field(i)
			}
		}
	}
	for _, fn := range m.fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			if cl, ok := isCallTo(ins, rtLink+".XgoOnCreateG"); ok {
				m.hooks = append(m.hooks, p.FuncValues(cl.Common().Args[0])...)
			}
		})
	}
	m.own()
	c.Floor("R12.own", 3)
	m.declare()
	c.Floor("R12.key", 2)
	m.onCreate()
	c.Floor("R12.inherit", 1)
	m.locks()
	c.Floor("R12.lock", 2)
}

func isEmptyIfaceType(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func isPtrToType(t types.Type, n *types.Named) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && namedOf(pt.Elem()) == n
}

func (p *Prog) sizeof(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }

// gOf: v is the storage map (loaded from the field) of the goroutine returned.
func (m *tlsModel) gOf(v ssa.Value) ssa.Value {
	var out ssa.Value
	for _, o := range m.p.Origins(v, originOpts{noParams: true, noCalls: true}) {
		if mm, ok := o.Val.(*ssa.MakeMap); ok {
			// a fresh map, which has been put in the field
			for _, r := range *mm.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Val == mm {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == m.store {
						out = fa.X
					}
				}
			}
			continue
		}
		u, ok := o.Val.(*ssa.UnOp)
		if !ok {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field) != m.store {
			return nil
		}
		out = fa.X
	}
	return out
}

func (m *tlsModel) storage() {
	c, p := m.c, m.p
	isParam := func(v ssa.Value, i int, fn *ssa.Function) bool {
		os := p.Origins(v, originOpts{noParams: true, noCalls: true})
		return len(os) == 1 && i < len(fn.Params) && unwrapIface(os[0].Val) == fn.Params[i]
	}
	nilMap := func(cond ssa.Value, pol bool) bool {
		x, ok := cond.(*ssa.BinOp)
		return ok && isNilConst(x.Y) && m.gOf(x.X) != nil && (x.Op.String() == "==") == pol
	}
	ms := p.SSA.MethodSets.MethodSet(types.NewPointer(m.g))
	for i := 0; i < ms.Len(); i++ {
		fn := p.SSA.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) < 2 || !isEmptyIfaceType(fn.Params[1].Type()) {
			continue
		}
		name := shortFn(fn)
		c.Obl("R12.store", name)
		bad := func(ins ssa.Instruction, f string) { c.Viol("R12.store", c.Pos(p, ins.Pos()), name, "%s", f) }
		var lookups, writes, deletes []ssa.Instruction
		for g := range p.Reach([]*ssa.Function{fn}, func(x *ssa.Function) bool {
			return fnPkg(x) == nil || fnPkg(x).Path() != rtLink || x != fn && m.isGMethod(x)
		}) {
			g := g
			if g != fn && m.isGMethod(g) {
				continue
			}
			eachInstr(g, func(ins ssa.Instruction) {
				var mv, key ssa.Value
				if cl, w, r := m.gMethod(ins); cl != nil {
					// by way of another of these methods, on the same storage
					if g != fn || !isParam(cl.Call.Args[0], 0, fn) {
						bad(ins, "the storage of another goroutine is used")
					}
					if !isParam(cl.Call.Args[1], 1, fn) {
						bad(ins, "another key than the one given is used")
					}
					switch {
					case r:
						lookups = append(lookups, ins)
					case w:
						if len(fn.Params) != 3 || !isParam(cl.Call.Args[2], 2, fn) {
							bad(ins, "another value than the one given is stored")
						}
						writes = append(writes, ins)
					default:
						deletes = append(deletes, ins)
					}
					return
				}
				switch x := ins.(type) {
				case *ssa.Lookup:
					mv, key = x.X, x.Index
				case *ssa.MapUpdate:
					mv, key = x.Map, x.Key
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						mv, key = x.Call.Args[0], x.Call.Args[1]
					}
				}
				if mv == nil {
					return
				}
				gv := m.gOf(mv)
				if gv == nil {
					return
				}
				if g != fn {
					bad(ins, "the storage is reached through another function, which is not followed")
					return
				}
				if !isParam(gv, 0, fn) {
					bad(ins, "the storage of another goroutine is used")
				}
				if !isParam(key, 1, fn) {
					bad(ins, "another key than the one given is used")
				}
				switch x := ins.(type) {
				case *ssa.Lookup:
					lookups = append(lookups, x)
				case *ssa.MapUpdate:
					if len(fn.Params) != 3 || !isParam(x.Value, 2, fn) {
						bad(ins, "another value than the one given is stored")
					}
					writes = append(writes, x)
				default:
					deletes = append(deletes, ins)
				}
			})
		}
		in := func(l []ssa.Instruction) func(ssa.Instruction) bool {
			return func(i ssa.Instruction) bool {
				for _, x := range l {
					if x == i {
						return true
					}
				}
				return false
			}
		}
		switch {
		case fn.Signature.Results().Len() > 0:
			if len(writes)+len(deletes) > 0 {
				bad(fn.Blocks[0].Instrs[0], "reading a key changes the storage")
			}
			for _, r := range returnsOf(fn) {
				for i, res := range r.Results {
					for _, o := range p.Origins(res, originOpts{noParams: true, noCalls: true}) {
						found := func(want bool) atomMatch {
							return func(cond ssa.Value, pol bool) bool {
								ex, ok := cond.(*ssa.Extract)
								return ok && ex.Index == 1 && pol == want && in(lookups)(ex.Tuple.(ssa.Instruction)) || !want && nilMap(cond, pol)
							}
						}
						if k, ok := o.Val.(*ssa.Const); ok && (k.IsNil() || k.Value.String() == "false") && p.originGuarded(o, r, found(false)) {
							continue
						}
						if b, ok := constBool(o.Val); ok && b && i == 1 && p.originGuarded(o, r, found(true)) {
							continue
						}
						v := o.Val
						if ex, ok := v.(*ssa.Extract); ok && ex.Index == i {
							v = ex.Tuple
						} else if i > 0 {
							v = nil
						}
						if lk, ok := v.(ssa.Instruction); !ok || !in(lookups)(lk) {
							bad(r, "what is returned is not what the storage has under the key")
						}
					}
				}
			}
		case len(fn.Params) == 3:
			if len(writes) == 0 || len(deletes) > 0 {
				bad(fn.Blocks[0].Instrs[0], "setting a key does not store it")
				continue
			}
			for _, r := range returnsOf(fn) {
				if !alwaysBefore(r, in(writes)) {
					bad(r, "setting a key can return without storing the value")
				}
			}
		default:
			if len(writes) > 0 || len(deletes) == 0 {
				bad(fn.Blocks[0].Instrs[0], "removing a key does not remove it")
				continue
			}
			if p.reachesReturnAvoiding(fn, in(deletes), func(cond ssa.Value, pol bool) bool {
				if nilMap(cond, pol) {
					return true
				}
				ex, ok := cond.(*ssa.Extract)
				return ok && ex.Index == 1 && !pol && in(lookups)(ex.Tuple.(ssa.Instruction))
			}) {
				bad(fn.Blocks[0].Instrs[0], "removing a key can leave it in place")
			}
		}
	}
	// the map itself
	for _, st := range p.fieldStores[m.store] {
		name := shortFn(st.Parent()) + " makes the storage"
		c.Obl("R12.store", name)
		if _, ok := st.Val.(*ssa.MakeMap); !ok {
			c.Viol("R12.store", c.Pos(p, st.Pos()), name, "the storage is replaced by something that is not a fresh map")
			continue
		}
		if !p.blockGuarded(st.Block(), nilMap, 0) {
			c.Viol("R12.store", c.Pos(p, st.Pos()), name, "the storage is made anew although there is one: what it had is lost")
		}
	}
}

// reachesReturnAvoiding: fn can return without passing an instruction is
// accepts, taking no excused edge.
func (p *Prog) reachesReturnAvoiding(fn *ssa.Function, is func(ssa.Instruction) bool, excuse atomMatch) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, ins := range b.Instrs {
			if is(ins) {
				return false
			}
			if isReturn(ins) {
				return true
			}
		}
		for i, s := range b.Succs {
			if excuse != nil && p.edgeHolds(b, i, excuse, 0) {
				continue
			}
			if iff, ok := lastIf(b); ok {
				if k, ok := constBool(iff.Cond); ok && k != (i == 0) {
					continue
				}
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(fn.Blocks[0])
}

func (m *tlsModel) isGMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && isPtrToType(f.Signature.Recv().Type(), m.g) && len(f.Params) >= 2 && isEmptyIfaceType(f.Params[1].Type())
}

// gMethod: a call of one of the storage methods of a goroutine.
func (m *tlsModel) gMethod(ins ssa.Instruction) (cl *ssa.Call, write, read bool) {
	cl, ok := ins.(*ssa.Call)
	if !ok {
		return nil, false, false
	}
	f := cl.Call.StaticCallee()
	if f == nil || !m.isGMethod(f) {
		return nil, false, false
	}
	write = len(f.Params) == 3
	read = f.Signature.Results().Len() > 0
	return cl, write, read
}

// whose goroutine v is: cur, parent, child in that order of flags.
func (m *tlsModel) whose(v ssa.Value) gSrc {
	var s gSrc
	roots := map[*ssa.Parameter]int{}
	for _, f := range m.hooks {
		for i, pr := range f.Params {
			roots[pr] = i
		}
	}
	m.p.Slice(v, func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter:
			if i, ok := roots[x]; ok {
				if i == 0 {
					s.parent = true
				} else {
					s.child = true
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && fnName(f) == rtLink+".XgoGetCurG" {
				s.cur = true
			}
		}
		return true
	})
	return s
}

func (m *tlsModel) own() {
	c, p := m.c, m.p
	ms := p.SSA.MethodSets.MethodSet(types.NewPointer(m.keyType))
	for i := 0; i < ms.Len(); i++ {
		fn := p.SSA.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 || !ms.At(i).Obj().Exported() {
			continue
		}
		name := shortFn(fn)
		c.Obl("R12.own", name)
		bad := func(ins ssa.Instruction, f string) { c.Viol("R12.own", c.Pos(p, ins.Pos()), name, "%s", f) }
		var reads, writes []ssa.Instruction
		for g := range p.Reach([]*ssa.Function{fn}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtTLS }) {
			eachInstr(g, func(ins ssa.Instruction) {
				cl, w, r := m.gMethod(ins)
				if cl == nil {
					return
				}
				if s := m.whose(cl.Call.Args[0]); !s.cur || s.parent || s.child {
					bad(ins, "not (only) the current goroutine's storage is used")
				}
				for _, o := range p.Origins(cl.Call.Args[1], originOpts{noCalls: true}) {
					if v := unwrapIface(o.Val); v != fn.Params[0] && !m.recvOf(v) {
						bad(ins, "the storage is not reached under the key itself")
					}
				}
				if w {
					writes = append(writes, ins)
					for _, o := range p.Origins(cl.Call.Args[2], originOpts{noCalls: true, noParams: g == fn}) {
						if len(fn.Params) < 2 || unwrapIface(o.Val) != fn.Params[1] {
							bad(ins, "another value than the one given is stored")
						}
					}
				}
				if r {
					reads = append(reads, ins)
				}
			})
		}
		in := func(l []ssa.Instruction) func(ssa.Instruction) bool {
			return func(i ssa.Instruction) bool {
				for _, x := range l {
					if x == i {
						return true
					}
				}
				if cl, ok := i.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && cl.Call.StaticCallee() != fn {
					for _, x := range l {
						f := cl.Call.StaticCallee()
						if x.Parent() == f && alwaysBeforeReturns(f, x) {
							return true
						}
					}
				}
				return false
			}
		}
		if fn.Signature.Results().Len() == 0 {
			if len(reads) > 0 && len(writes) == 0 || len(writes) == 0 {
				bad(fn.Blocks[0].Instrs[0], "nothing is stored")
				continue
			}
			for _, r := range returnsOf(fn) {
				if !alwaysBefore(r, in(writes)) {
					bad(r, "can return without storing the value")
				}
			}
			continue
		}
		if len(writes) > 0 {
			bad(writes[0], "reading a key changes the storage")
		}
		for _, r := range returnsOf(fn) {
			for i, res := range r.Results {
				for _, o := range p.Origins(res, originOpts{noParams: true, keep: func(v ssa.Value) bool {
					if ex, ok := v.(*ssa.Extract); ok {
						v = ex.Tuple
					}
					ins, ok := v.(ssa.Instruction)
					return ok && in(reads)(ins)
				}}) {
					v := o.Val
					if ex, ok := v.(*ssa.Extract); ok && ex.Index == i {
						v = ex.Tuple
					} else if i > 0 {
						v = nil
					}
					ins, ok := v.(ssa.Instruction)
					if !ok || !in(reads)(ins) {
						bad(r, "what is returned is not what the storage has under the key")
					}
				}
			}
		}
	}
}

// recvOf: v is the receiver of another method of the key type.
func (m *tlsModel) recvOf(v ssa.Value) bool {
	pr, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	f := pr.Parent()
	return f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == pr && isPtrToType(pr.Type(), m.keyType)
}

func (m *tlsModel) declare() {
	c, p := m.c, m.p
	isAppend := func(ins ssa.Instruction, key ssa.Value) bool {
		st, ok := ins.(*ssa.Store)
		if !ok || st.Addr != m.keys {
			return false
		}
		l := appendedTo(st.Val, m.keys)
		if l == nil {
			return false
		}
		return key == nil || sameSource(p, l, key)
	}
	// makers: allocations of keys
	for _, fn := range m.fns {
		fn := fn
		eachInstr(fn, func(ins ssa.Instruction) {
			al, ok := ins.(*ssa.Alloc)
			if !ok || namedOf(al.Type().(*types.Pointer).Elem()) != m.keyType || !al.Heap {
				return
			}
			name := shortFn(fn) + " makes a key"
			c.Obl("R12.key", name)
			entered := func(i ssa.Instruction) bool { return isAppend(i, al) }
			for _, r := range returnsOf(fn) {
				if !alwaysBefore(r, entered) {
					c.Viol("R12.key", c.Pos(p, r.Pos()), name, "the key can be handed out without being entered in the list of keys: it is never inherited")
				}
			}
			if m.inherit == nil {
				return
			}
			// its inherit mark comes from what was asked for
			set := false
			for _, st := range p.fieldStores[m.inherit] {
				fa := st.Addr.(*ssa.FieldAddr)
				if fa.X != al {
					continue
				}
				set = true
				for _, o := range p.Origins(st.Val, originOpts{noCalls: true, noParams: true}) {
					switch x := o.Val.(type) {
					case *ssa.Parameter:
						continue
					case *ssa.UnOp:
						if f, ok := x.X.(*ssa.FieldAddr); ok && m.asks(fieldVar(f.X.Type(), f.Field)) {
							continue
						}
					}
					c.Viol("R12.key", c.Pos(p, st.Pos()), name, "whether the key is inherited does not depend on what was asked for")
				}
			}
			if !set {
				c.Viol("R12.key", c.Pos(p, al.Pos()), name, "the key is never marked as inherited")
			}
		})
	}
	for _, st := range p.globStores[m.keys] {
		name := shortFn(st.Parent()) + " changes the list of keys"
		c.Obl("R12.key", name)
		if !isAppend(st, nil) {
			c.Viol("R12.key", c.Pos(p, st.Pos()), name, "the list of keys is changed in another way than by adding to its end")
		}
	}
	// what is handed out is a fresh key
	for _, fn := range m.fns {
		if fn.Signature.Results().Len() != 1 || namedOf(fn.Signature.Results().At(0).Type()) == nil || namedOf(fn.Signature.Results().At(0).Type()).Obj().Name() != "TLSKey" {
			continue
		}
		name := shortFn(fn)
		c.Obl("R12.key", name)
		for _, r := range returnsOf(fn) {
			for _, o := range p.Origins(r.Results[0], originOpts{noParams: true}) {
				if al, ok := unwrapIface(o.Val).(*ssa.Alloc); !ok || !al.Heap {
					c.Viol("R12.key", c.Pos(p, r.Pos()), name, "a declaration can hand out a key that is not its own")
				}
			}
		}
	}
	// asking
	sets := func(ins ssa.Instruction) bool {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !m.asks(fieldVar(fa.X.Type(), fa.Field)) {
			return false
		}
		b, ok := constBool(st.Val)
		return ok && b
	}
	var asks func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	asks = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[fn] || len(fn.Blocks) == 0 || fnPkg(fn) == nil || fnPkg(fn).Path() != rtTLS {
			return false
		}
		seen[fn] = true
		return !p.reachesReturnAvoiding(fn, func(i ssa.Instruction) bool {
			if sets(i) {
				return true
			}
			cl, ok := i.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() == nil {
				return false
			}
			// a helper told so by a parameter
			f := cl.Call.StaticCallee()
			for j, a := range cl.Call.Args {
				if b, isC := constBool(a); isC && b && j < len(f.Params) && m.passes(f.Params[j]) {
					return true
				}
			}
			return asks(f, seen)
		}, nil)
	}
	for _, want := range []struct {
		fn  *ssa.Function
		ask bool
	}{{p.Func(rtTLS, "DeclareInherit"), true}, {m.method("TLSBuilder", "Inherit"), true}, {p.Func(rtTLS, "Declare"), false}, {p.Func(rtTLS, "New"), false}, {m.method("TLSBuilder", "Name"), false}, {m.method("TLSBuilder", "Declare"), false}} {
		if want.fn == nil {
			continue
		}
		name := shortFn(want.fn) + " and inheritance"
		c.Obl("R12.key", name)
		if want.ask && !asks(want.fn, map[*ssa.Function]bool{}) {
			c.Viol("R12.key", c.Pos(p, want.fn.Pos()), name, "inheritance can go unasked for")
		}
		if !want.ask {
			for g := range p.Reach([]*ssa.Function{want.fn}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtTLS }) {
				eachInstr(g, func(i ssa.Instruction) {
					st, ok := i.(*ssa.Store)
					if !ok {
						return
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !m.asks(fieldVar(fa.X.Type(), fa.Field)) {
						return
					}
					// copying the builder's own field onto the key is not asking
					if b, isC := constBool(st.Val); isC && b || !isC && g == want.fn && fieldVar(fa.X.Type(), fa.Field) != m.inherit {
						c.Viol("R12.key", c.Pos(p, i.Pos()), name, "inheritance is asked for by a declaration that does not ask for it")
					}
				})
			}
		}
	}
}

func (m *tlsModel) method(typ, name string) *ssa.Function {
	o, _ := m.p.pkg(rtTLS).Pkg.Scope().Lookup(typ).(*types.TypeName)
	if o == nil {
		return nil
	}
	ms := m.p.SSA.MethodSets.MethodSet(types.NewPointer(o.Type()))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// asks: f is the field which says that a key is to be inherited: that of the
// key, or a boolean one of the builder copied to it.
func (m *tlsModel) asks(f *types.Var) bool {
	if f == m.inherit {
		return true
	}
	for _, st := range m.p.fieldStores[m.inherit] {
		for _, o := range m.p.Origins(st.Val, originOpts{noCalls: true}) {
			if u, ok := o.Val.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == f {
					return true
				}
			}
		}
	}
	return false
}

// passes: the parameter decides the inherit mark.
func (m *tlsModel) passes(pr *ssa.Parameter) bool {
	out := false
	eachInstr(pr.Parent(), func(i ssa.Instruction) {
		if st, ok := i.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && m.asks(fieldVar(fa.X.Type(), fa.Field)) && sameSource(m.p, st.Val, pr) {
				out = true
			}
		}
	})
	return out
}

// appendedTo: v is append(*g, x): returns x.
func appendedTo(v ssa.Value, g *ssa.Global) ssa.Value {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := cl.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(cl.Call.Args) != 2 || globalOf(cl.Call.Args[0]) != g {
		return nil
	}
	sl, ok := cl.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	n := 0
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					out = st.Val
					n++
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

func (m *tlsModel) onCreate() {
	c, p := m.c, m.p
	if len(m.hooks) == 0 {
		c.Viol("R12.inherit", "-", "tls", "nothing is registered for the creation of goroutines")
		return
	}
	// registered once, whatever happens
	ini := p.pkg(rtTLS).Func("init")
	registered := false
	for fn := range p.Reach([]*ssa.Function{ini}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtTLS }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			if _, ok := isCallTo(ins, rtLink+".XgoOnCreateG"); ok && alwaysBeforeReturns(fn, ins) {
				registered = true
			}
		})
	}
	if !registered {
		c.Viol("R12.inherit", c.Pos(p, ini.Pos()), "tls.init", "the callback for the creation of goroutines is not always registered")
	}
	for _, hook := range m.hooks {
		name := shortFn(hook) + " copies inherited keys"
		c.Obl("R12.inherit", name)
		n := 0
		for fn := range p.Reach([]*ssa.Function{hook}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtTLS }) {
			fn := fn
			eachInstr(fn, func(ins ssa.Instruction) {
				cl, w, r := m.gMethod(ins)
				if cl == nil {
					return
				}
				bad := func(f string) { c.Viol("R12.inherit", c.Pos(p, ins.Pos()), name, "%s", f) }
				s := m.whose(cl.Call.Args[0])
				if r && !w {
					if !s.parent || s.child || s.cur {
						bad("reads another goroutine than the creator")
					}
					return
				}
				if !w {
					bad("a key is removed")
					return
				}
				n++
				if !s.child || s.parent || s.cur {
					bad("writes another goroutine than the created one")
				}
				key := cl.Call.Args[1]
				// the value: what the creator has under the same key
				var rd *ssa.Call
				for _, o := range p.Origins(cl.Call.Args[2], originOpts{noCalls: true}) {
					v := o.Val
					if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
						v = ex.Tuple
					}
					q, ok := v.(*ssa.Call)
					if !ok {
						bad("the value is not what the creator has")
						continue
					}
					if g, _, r := m.gMethod(q); g == nil || !r || !sameSource(p, unwrapIface(q.Call.Args[1]), unwrapIface(key)) {
						bad("the value is not what the creator has under this key")
						continue
					}
					rd = q
				}
				// the key: every one of the list
				var idx ssa.Value
				for _, o := range p.Origins(key, originOpts{noCalls: true}) {
					if u, ok := unwrapIface(o.Val).(*ssa.UnOp); ok {
						if ia, ok := u.X.(*ssa.IndexAddr); ok && m.isKeys(ia.X) {
							idx = ia.Index
						}
					}
				}
				if idx == nil {
					bad("the keys copied are not those of the list of keys")
					return
				}
				if ok, l := loopWhole(p, idx, nil); !ok || !m.isKeys(l) {
					bad("not all keys are visited")
				}
				missing := func(cond ssa.Value, pol bool) bool {
					if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 1 && ex.Tuple == rd {
						return !pol
					}
					return false
				}
				if rd != nil && rd.Call.Signature().Results().Len() == 1 {
					bad("whether the creator has the key at all is not known")
				}
				notAsked := func(cond ssa.Value, pol bool) bool {
					u, ok := cond.(*ssa.UnOp)
					if !ok {
						return false
					}
					fa, ok := u.X.(*ssa.FieldAddr)
					return ok && fieldVar(fa.X.Type(), fa.Field) == m.inherit && !pol && sameSource(p, fa.X, unwrapIface(key))
				}
				site := ins
				if site.Parent() != idx.(ssa.Instruction).Parent() {
					bad("the copying is not done in the loop over the keys")
					return
				}
				if skipsIterationUnless(site, func(b *ssa.BasicBlock, i int) bool {
					return p.edgeHolds(b, i, func(cond ssa.Value, pol bool) bool { return missing(cond, pol) || notAsked(cond, pol) }, 0)
				}) {
					bad("an inheritable key the creator has a value for can be left out")
				}
				h := loopOf(site.Block())
				if h != nil {
					for _, ret := range returnsOf(fn) {
						if !h.Dominates(ret.Block()) {
							c.Viol("R12.inherit", c.Pos(p, ret.Pos()), name, "the callback can return without copying")
						}
					}
				}
				if m.inherit != nil && !p.blockGuarded(site.Block(), func(cond ssa.Value, pol bool) bool { return notAsked(cond, !pol) }, 0) {
					bad("a key that was not declared inheritable is copied")
				}
				if rd != nil && !p.blockGuarded(site.Block(), func(cond ssa.Value, pol bool) bool { return missing(cond, !pol) }, 0) {
					bad("a key the creator has no value for gets one")
				}
			})
		}
		if n == 0 {
			c.Viol("R12.inherit", c.Pos(p, hook.Pos()), name, "nothing is copied")
		}
	}
}

func (m *tlsModel) isKeys(v ssa.Value) bool {
	os := m.p.Origins(v, originOpts{})
	for _, o := range os {
		if globalOf(o.Val) == m.keys {
			continue
		}
		// a copy
		if mk, ok := o.Val.(*ssa.MakeSlice); ok {
			l := lenArg(mk.Len)
			copied := false
			for _, r := range *mk.Referrers() {
				if cl, ok := r.(*ssa.Call); ok {
					if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && cl.Call.Args[0] == mk && m.isKeys(cl.Call.Args[1]) {
						copied = true
					}
				}
			}
			if copied && l != nil && m.isKeys(l) {
				continue
			}
		}
		if cl, ok := o.Val.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(cl.Call.Args) == 2 && (isNilConst(cl.Call.Args[0]) || emptySlice(cl.Call.Args[0])) && m.isKeys(cl.Call.Args[1]) {
				continue
			}
		}
		return false
	}
	return len(os) > 0
}

func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		k, ok := constInt(x.Len)
		return ok && k == 0
	case *ssa.Slice:
		if x.High != nil {
			k, ok := constInt(x.High)
			return ok && k == 0
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if a, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return a.Len() == 0
			}
		}
	}
	return false
}

// locks: the list of keys and its mutex.
func (m *tlsModel) locks() {
	c, p := m.c, m.p
	for _, fn := range m.fns {
		if fn.Name() == "init" {
			continue
		}
		fn := fn
		uses := false
		eachInstr(fn, func(ins ssa.Instruction) {
			for _, op := range ins.Operands(nil) {
				if *op == m.keys {
					uses = true
					name := shortFn(fn) + " uses the list of keys"
					c.Obl("R12.lock", name)
					if mu := lockHeldAt(ins); mu == nil {
						c.Viol("R12.lock", c.Pos(p, ins.Pos()), name, "the lock is not held")
					}
				}
			}
		})
		if uses {
			for _, r := range returnsOf(fn) {
				if lockMayRemain(r) {
					c.Viol("R12.lock", c.Pos(p, r.Pos()), shortFn(fn)+" uses the list of keys", "returns with the lock held: the next declaration or goroutine creation hangs")
				}
			}
		}
	}
}

func mutexOp(ins ssa.Instruction, name string) ssa.Value {
	cl, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	f := cl.Common().StaticCallee()
	if f == nil || fnPkg(f) == nil || fnPkg(f).Path() != "sync" || f.Name() != name {
		return nil
	}
	return cl.Common().Args[0]
}

// lockHeldAt: the mutex (a package variable) that is held whenever ins is
// reached.
func lockHeldAt(ins ssa.Instruction) ssa.Value {
	cands := map[ssa.Value]bool{}
	eachInstr(ins.Parent(), func(i ssa.Instruction) {
		if _, isDefer := i.(*ssa.Defer); isDefer {
			return
		}
		if v := mutexOp(i, "Lock"); v != nil {
			cands[v] = true
		}
	})
	for v := range cands {
		held := func(stop ssa.Instruction) bool {
			// backwards: every path from entry meets a Lock after the last Unlock
			seen := map[*ssa.BasicBlock]bool{}
			var back func(b *ssa.BasicBlock, i int) bool
			back = func(b *ssa.BasicBlock, i int) bool {
				for ; i >= 0; i-- {
					if _, isDefer := b.Instrs[i].(*ssa.Defer); isDefer {
						continue
					}
					if mutexOp(b.Instrs[i], "Lock") == v {
						return true
					}
					if mutexOp(b.Instrs[i], "Unlock") == v {
						return false
					}
				}
				if len(b.Preds) == 0 {
					return false
				}
				for _, pr := range b.Preds {
					if seen[pr] {
						continue
					}
					seen[pr] = true
					if !back(pr, len(pr.Instrs)-1) {
						return false
					}
				}
				return true
			}
			return back(stop.Block(), instrIndex(stop)-1)
		}
		if held(ins) {
			return v
		}
	}
	return nil
}

// lockMayRemain: some path to the return locks without unlocking (deferred
// unlocks count).
func lockMayRemain(r *ssa.Return) bool {
	fn := r.Parent()
	deferred := false
	eachInstr(fn, func(i ssa.Instruction) {
		if _, isDefer := i.(*ssa.Defer); isDefer && mutexOp(i, "Unlock") != nil {
			deferred = true
		}
	})
	if deferred {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for ; i >= 0; i-- {
			if mutexOp(b.Instrs[i], "Unlock") != nil {
				return false
			}
			if mutexOp(b.Instrs[i], "Lock") != nil {
				return true
			}
		}
		for _, pr := range b.Preds {
			if !seen[pr] {
				seen[pr] = true
				if back(pr, len(pr.Instrs)-1) {
					return true
				}
			}
		}
		return false
	}
	return back(r.Block(), instrIndex(r)-1)
}
