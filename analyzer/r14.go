package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R14"] = propDef{run: checkR14, assumptions: []string{
		"the code xgo inserts passes a trap the parameters and results of the call in declaration order (property I05 covers it)",
		"a callback's object parameters are, in order, the arguments and the results",
	}}
}

type objModel struct {
	m     *RTModel
	p     *Prog
	field *types.Named // struct with a name and a pointer
	obj   *types.Named // list of them
	fns   []*ssa.Function
}

func checkR14(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("R14.dispatch", "a registered callback is called with the trap's own function info, receiver, arguments and results, each in its position")
	c.Rule("R14.names", "an entry of the object handed to an interceptor pairs the i-th name with the i-th value of the same list (receiver name with the receiver, a variable's name with its value); arguments go to the argument object, results to the result object; every argument and every result gets an entry; the receiver's entry comes first and is there exactly when the receiver is not bound")
	c.Rule("R14.call", "a replacer or recorder called by reflection gets argument i at position i after the receiver, recorders then the results; all of them; variadic functions are called with the slice")
	c.Rule("R14.results", "result i of a replacer is assigned to result i of the call, for every result")
	c.Rule("R14.ctx", "the context handed to an interceptor is the call's own first argument whenever the function takes a context first and it is not nil")
	c.Rule("R14.object", "an object's count, element and by-name queries and a field's name, pointer, value and set operations all speak about the same entry")
	c.Rule("R14.pairs", "lists of names and values recorded together are cut, copied and extended in the same way")

	o := &objModel{m: m, p: p, fns: p.FuncsIn(func(s string) bool { return s == rtTrap })}
	o.find()
	if o.field == nil || o.obj == nil {
		c.Viol("R14.object", "-", "types", "no list type implementing core.Object over a struct implementing core.Field found in the trap package")
		return
	}
	o.dispatch(c)
	c.Floor("R14.dispatch", 6)
	o.names(c)
	c.Floor("R14.names", 8)
	o.calls(c)
	c.Floor("R14.call", 2)
	c.Floor("R14.results", 2)
	o.contexts(c)
	c.Floor("R14.ctx", 2)
	o.objects(c)
	c.Floor("R14.object", 6)
	o.pairs(c)
	c.Floor("R14.pairs", 2)
}

func (o *objModel) find() {
	sc := o.p.pkg(rtTrap).Pkg.Scope()
	core := o.p.pkg(rtMod + "/core").Pkg.Scope()
	iface := func(n string) *types.Interface {
		t := core.Lookup(n)
		if t == nil {
			return nil
		}
		i, _ := t.Type().Underlying().(*types.Interface)
		return i
	}
	fi, oi := iface("Field"), iface("Object")
	if fi == nil || oi == nil {
		return
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if st, ok := nt.Underlying().(*types.Struct); ok && types.Implements(nt, fi) && st.NumFields() == 2 {
			o.field = nt
		}
		if sl, ok := nt.Underlying().(*types.Slice); ok && types.Implements(nt, oi) {
			_ = sl
			o.obj = nt
		}
	}
}

func ifaceList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isEmptyIface(s.Elem())
}

// listParams: a handler's (args, results) parameters; recv: the receiver or
// value parameter.
func handlerParams(fn *ssa.Function) (recv, args, results *ssa.Parameter) {
	for _, pr := range fn.Params {
		if isEmptyIface(pr.Type()) && recv == nil && args == nil {
			recv = pr
		}
		if ifaceList(pr.Type()) {
			if args == nil {
				args = pr
			} else if results == nil {
				results = pr
			}
		}
	}
	return
}

// role: what a value of a handler stands for: "recv", "args", "results",
// "args[]"/"results[]" with the index, following parameters of helpers and
// closures to the handler.
func (o *objModel) role(v ssa.Value) (string, ssa.Value) {
	v = unwrapIface(v)
	for _, or := range o.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		switch x := or.Val.(type) {
		case *ssa.Parameter:
			recv, args, results := handlerParams(x.Parent())
			switch x {
			case recv:
				return "recv", nil
			case args:
				return "args", nil
			case results:
				return "results", nil
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				if r, i := o.role(ia.X); i == nil && (r == "args" || r == "results") {
					return r + "[]", ia.Index
				}
			}
		}
	}
	return "", nil
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// ------------------------------------------------------------- dispatch

func (o *objModel) dispatch(c *Ctx) {
	p, m := o.p, o.m
	for _, hc := range m.handlerCalls() {
		fn := hc.ins.Parent()
		args := hc.ins.Common().Args
		name := shortFn(fn) + " calls " + hc.field.Name()
		c.Obl("R14.dispatch", name)
		bad := ""
		nList, nIface := 0, 0
		hasLists := false
		for _, a := range args {
			if ifaceList(a.Type()) {
				hasLists = true
			}
		}
		for _, a := range args {
			switch {
			case isPtrToNamed(a.Type(), rtMod+"/core", "FuncInfo"):
				if !m.sliceHas(a, func(v ssa.Value) bool { return o.trapInfo(v) }) {
					bad = "the function info is not the one the trap was called with"
				}
			case ifaceList(a.Type()):
				if k := o.trapParam(a); k != nList && !o.varList(a, nList) {
					bad = fmt.Sprintf("list %d is not the trap's list %d", nList, nList)
				}
				nList++
			case isEmptyIface(a.Type()):
				nIface++
				if nIface == 1 {
					if hasLists {
						if o.trapIface(a) != 0 && !o.allNil(a, fn) {
							bad = "the receiver is not the trap's receiver"
						}
					} else if !o.trapValue(a) {
						bad = "the value is not the trap's value"
					}
				}
			}
		}
		if bad != "" {
			c.Viol("R14.dispatch", c.Pos(p, hc.ins.Pos()), name, "the callback is called with something else than the call's own data: %s", bad)
		}
	}
}

func (o *objModel) trapFn(f *ssa.Function) bool {
	for _, t := range o.m.TrapFns {
		if t == f {
			return true
		}
	}
	return false
}

func (o *objModel) trapInfo(v ssa.Value) bool {
	pr, ok := v.(*ssa.Parameter)
	return ok && o.trapFn(pr.Parent()) && pr.Type().String() == "unsafe.Pointer"
}

// trapParam: all origins of a are the k-th list parameter of a trap.
func (o *objModel) trapParam(a ssa.Value) int {
	k := -1
	for _, or := range o.p.Origins(a, originOpts{}) {
		pr, ok := or.Val.(*ssa.Parameter)
		if !ok || !o.trapFn(pr.Parent()) {
			return -1
		}
		n := 0
		for _, q := range pr.Parent().Params {
			if q == pr {
				break
			}
			if ifaceList(q.Type()) {
				n++
			}
		}
		if k >= 0 && k != n {
			return -1
		}
		k = n
	}
	return k
}

// varTraps: the traps of variables have no lists.
func (o *objModel) varTraps(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	for _, t := range o.m.TrapFns {
		if t.Signature.Params().Len() == 3 && o.p.Reach([]*ssa.Function{t}, func(f *ssa.Function) bool { return fnPkg(f) == nil || fnPkg(f).Path() != rtTrap })[fn] {
			return true
		}
	}
	return false
}

func (o *objModel) allNil(a ssa.Value, use *ssa.Function) bool {
	os := o.p.Origins(a, originOpts{})
	for _, or := range os {
		if !isNilConst(or.Val) {
			return false
		}
	}
	return len(os) > 0 && o.varTraps(use)
}

// varList: for a variable, no arguments and its value as the only result.
func (o *objModel) varList(a ssa.Value, k int) bool {
	if k == 0 {
		os := o.p.Origins(a, originOpts{})
		for _, or := range os {
			if !isNilConst(or.Val) {
				return false
			}
		}
		return len(os) > 0
	}
	for _, or := range o.p.Origins(a, originOpts{}) {
		sl, ok := or.Val.(*ssa.Slice)
		if !ok {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || arrayLen(al.Type()) != 1 {
			return false
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && !o.trapValue(st.Val) {
						return false
					}
				}
			}
		}
	}
	return true
}

// trapValue: a is (made from) the value a variable's trap was given.
func (o *objModel) trapValue(a ssa.Value) bool {
	os := o.p.Origins(a, originOpts{})
	for _, or := range os {
		if o.valueParam(or.Val) {
			continue
		}
		ok := false
		o.p.Slice(or.Val, func(v ssa.Value) bool {
			if o.valueParam(v) {
				ok = true
			}
			return !ok
		})
		if !ok && !isNilConst(or.Val) {
			return false
		}
	}
	return len(os) > 0
}

func (o *objModel) valueParam(v ssa.Value) bool {
	pr, ok := v.(*ssa.Parameter)
	if !ok || !o.trapFn(pr.Parent()) || !isEmptyIface(pr.Type()) {
		return false
	}
	n := 0
	for _, q := range pr.Parent().Params {
		if q == pr {
			return n == 1
		}
		if isEmptyIface(q.Type()) {
			n++
		}
	}
	return false
}

func (o *objModel) trapIface(a ssa.Value) int {
	k := -1
	for _, or := range o.p.Origins(a, originOpts{}) {
		pr, ok := or.Val.(*ssa.Parameter)
		if !ok || !o.trapFn(pr.Parent()) {
			return -1
		}
		n := 0
		for _, q := range pr.Parent().Params {
			if q == pr {
				break
			}
			if isEmptyIface(q.Type()) {
				n++
			}
		}
		if k >= 0 && k != n {
			return -1
		}
		k = n
	}
	return k
}

// ---------------------------------------------------------------- names

type entry struct {
	fn        *ssa.Function
	base      ssa.Value // the struct's address, or the aggregate
	name, ptr ssa.Value
	at        ssa.Instruction
	root      *ssa.Alloc // backing array, or nil
}

// entries finds the field structs built in fn.
func (o *objModel) entries(fn *ssa.Function) []entry {
	byBase := map[ssa.Value]*entry{}
	var order []ssa.Value
	eachInstr(fn, func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || namedOf(fa.X.Type()) != o.field {
			return
		}
		e := byBase[fa.X]
		if e == nil {
			e = &entry{fn: fn, base: fa.X, at: ins}
			byBase[fa.X] = e
			order = append(order, fa.X)
			switch b := fa.X.(type) {
			case *ssa.IndexAddr:
				e.root, _ = b.X.(*ssa.Alloc)
			case *ssa.Alloc:
				e.root = b
			}
		}
		if isEmptyIface(fieldVar(fa.X.Type(), fa.Field).Type()) {
			e.ptr = st.Val
			e.at = ins
		} else {
			e.name = st.Val
		}
	})
	var out []entry
	for _, b := range order {
		out = append(out, *byBase[b])
	}
	return out
}

// infoField: v is (an element of) a field of a FuncInfo.
func (o *objModel) infoField(v ssa.Value) (string, ssa.Value) {
	for _, or := range o.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		u, ok := or.Val.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			if isNamed(a.X.Type(), rtMod+"/core", "FuncInfo") {
				return fieldVar(a.X.Type(), a.Field).Name(), nil
			}
		case *ssa.IndexAddr:
			if f, i := o.infoField(a.X); f != "" && i == nil {
				return f + "[]", a.Index
			}
		}
	}
	return "", nil
}

// sameIndex: both indexes have the same value.
func sameIndex(p *Prog, a, b ssa.Value) bool {
	lin := &linCtx{p: p}
	return lin.form(a, 0).add(lin.form(b, 0), -1).isConst(0)
}

func (o *objModel) names(c *Ctx) {
	p := o.p
	for _, fn := range o.fns {
		if fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) == o.obj {
			continue
		}
		es := o.entries(fn)
		if len(es) == 0 {
			continue
		}
		_, args, results := handlerParams(fn)
		have := map[string]bool{}
		var recvAt, firstArg ssa.Instruction
		for _, e := range es {
			nf, ni := "", ssa.Value(nil)
			if e.name != nil {
				nf, ni = o.infoField(e.name)
			}
			role, ri := "", ssa.Value(nil)
			if e.ptr != nil {
				role, ri = o.role(e.ptr)
			}
			name := shortFn(fn) + " builds an entry named by " + nf
			c.Obl("R14.names", name)
			want := map[string]string{"RecvName": "recv", "Name": "recv", "ArgNames[]": "args[]", "ResNames[]": "results[]"}[nf]
			if want == "" || want != role {
				c.Viol("R14.names", c.Pos(p, e.at.Pos()), name, "the entry pairs the name %q with the value %q: an interceptor sees another value under this name", nf, role)
				continue
			}
			if ni != nil {
				if ri == nil || !sameIndex(p, ni, ri) {
					c.Viol("R14.names", c.Pos(p, e.at.Pos()), name, "name and value are taken at different positions")
				}
				ok, l := loopWhole(p, ri, nil)
				if ok {
					r, _ := o.role(l)
					ok = r+"[]" == role
				}
				if !ok || skipsIteration(e.at) {
					c.Viol("R14.names", c.Pos(p, e.at.Pos()), name, "not every element of the call's %s gets an entry", role)
				}
			}
			have[nf] = true
			dest := o.destination(e)
			wantDest := 1
			if nf == "RecvName" || nf == "ArgNames[]" {
				wantDest = 0
			}
			if dest != wantDest {
				c.Viol("R14.names", c.Pos(p, e.at.Pos()), name, "the entry does not end up in the %s object handed to the callback", []string{"argument", "result"}[wantDest])
			}
			switch nf {
			case "RecvName":
				recvAt = e.at
			case "ArgNames[]":
				firstArg = e.at
			}
		}
		if args != nil && results != nil {
			for _, n := range []string{"RecvName", "ArgNames[]", "ResNames[]"} {
				if !have[n] {
					c.Viol("R14.names", c.Pos(p, fn.Pos()), shortFn(fn)+" builds objects", "the objects handed to the interceptor miss the entries named by %s", n)
				}
			}
			if recvAt != nil && firstArg != nil && mayFollow(firstArg, recvAt) {
				c.Viol("R14.names", c.Pos(p, recvAt.Pos()), shortFn(fn)+" builds objects", "the receiver's entry does not come before the arguments'")
			}
			if recvAt != nil {
				o.receiver(c, fn, recvAt)
			}
		}
	}
}

// receiver: the receiver's entry is made exactly when the call has a
// receiver and none is bound.
func (o *objModel) receiver(c *Ctx, fn *ssa.Function, at ssa.Instruction) {
	p := o.p
	name := shortFn(fn) + " adds the receiver"
	c.Obl("R14.names", name)
	recv, _, _ := handlerParams(fn)
	nilness := func(which string, isNil bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return false
			}
			v := b.X
			if isNilConst(v) {
				v = b.Y
			} else if !isNilConst(b.Y) {
				return false
			}
			if !isEmptyIface(v.Type()) {
				return false
			}
			is := "bound"
			for _, or := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
				if or.Val == recv {
					is = "recv"
				}
			}
			return is == which && ((b.Op == token.EQL) == pol) == isNil
		}
	}
	if !p.blockGuarded(at.Block(), nilness("bound", true), 0) || !p.blockGuarded(at.Block(), nilness("recv", false), 0) {
		c.Viol("R14.names", c.Pos(p, at.Pos()), name, "the receiver's entry is added although the receiver is bound to the callback or the call has none")
		return
	}
	// never left out otherwise: reach a return or the callback avoiding it
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || b == at.Block() {
			continue
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok && cl.Call.StaticCallee() == nil && !cl.Call.IsInvoke() {
				if _, isB := cl.Call.Value.(*ssa.Builtin); !isB {
					c.Viol("R14.names", c.Pos(p, i.Pos()), name, "the callback can run without the receiver's entry although the call has a receiver and none is bound")
					return
				}
			}
		}
		for i, s := range b.Succs {
			if p.edgeHolds(b, i, nilness("bound", false), 0) || p.edgeHolds(b, i, nilness("recv", true), 0) {
				continue
			}
			work = append(work, s)
		}
	}
}

// destination: 0/1: the first/second object parameter of the callback the
// entry ends up in; -1 neither or both.
func (o *objModel) destination(e entry) int {
	p := o.p
	res := -1
	eachInstr(e.fn, func(ins ssa.Instruction) {
		cl, ok := ins.(ssa.CallInstruction)
		if !ok || cl.Common().IsInvoke() {
			return
		}
		if _, b := cl.Common().Value.(*ssa.Builtin); b {
			return
		}
		n := 0
		for _, a := range cl.Common().Args {
			if !isNamed(a.Type(), rtMod+"/core", "Object") {
				continue
			}
			hit := false
			p.slice(a, true, true, func(v ssa.Value) bool {
				if e.root != nil && v == e.root || v == e.base {
					hit = true
				}
				return !hit
			})
			if hit {
				if res >= 0 && res != n {
					res = -2
				} else {
					res = n
				}
			}
			n++
		}
	})
	return res
}

// ---------------------------------------------------------------- calls

func reflectMethod(ins ssa.Instruction, names ...string) (*ssa.Call, bool) {
	cl, ok := ins.(*ssa.Call)
	if !ok {
		return nil, false
	}
	f := cl.Call.StaticCallee()
	if f == nil || fnPkg(f) == nil || fnPkg(f).Path() != "reflect" || f.Signature.Recv() == nil {
		return nil, false
	}
	for _, n := range names {
		if f.Name() == n {
			return cl, true
		}
	}
	return nil, false
}

// valueRole: role of the thing a reflect.Value stands for, with its index.
func (o *objModel) valueRole(v ssa.Value) (string, ssa.Value) {
	role, idx := "", ssa.Value(nil)
	o.p.slice(v, false, true, func(u ssa.Value) bool {
		if cl, ok := u.(*ssa.Call); ok {
			if f := cl.Call.StaticCallee(); f != nil && fnName(f) == "reflect.ValueOf" {
				r, i := o.role(cl.Call.Args[0])
				if r != "" {
					role, idx = r, i
				}
				return false
			}
		}
		return true
	})
	return role, idx
}

func (o *objModel) calls(c *Ctx) {
	p := o.p
	g := &typeGate{p: p, cmps: map[*ssa.Function]bool{}, busy: map[*ssa.Function]bool{}}
	for _, fn := range o.fns {
		fn := fn
		done := map[ssa.Value]bool{}
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := reflectMethod(ins, "Call", "CallSlice")
			if !ok || g.selfTyped(cl.Call.Args[1]) && o.isProbe(fn) {
				return
			}
			name := shortFn(fn) + " calls a user's function"
			_, args, _ := handlerParams(fn)
			if args != nil {
				// variadic or not
				want := cl.Call.StaticCallee().Name() == "CallSlice"
				if !p.blockGuarded(ins.Block(), func(cond ssa.Value, pol bool) bool {
					q, ok := cond.(*ssa.Call)
					return ok && q.Call.IsInvoke() && q.Call.Method.Name() == "IsVariadic" && pol == want
				}, 0) {
					c.Viol("R14.call", c.Pos(p, ins.Pos()), name, "reflect's Call is for functions that are not variadic and CallSlice for those that are")
				}
				if !done[cl.Call.Args[1]] {
					done[cl.Call.Args[1]] = true
					c.Obl("R14.call", name)
					o.positions(c, fn, cl, name)
				}
			}
			o.assigned(c, fn, cl, name)
		})
	}
}

func (o *objModel) isProbe(fn *ssa.Function) bool {
	_, args, _ := handlerParams(fn)
	return args == nil
}

// positions checks the argument list of a reflect call.
func (o *objModel) positions(c *Ctx, fn *ssa.Function, cl *ssa.Call, name string) {
	p := o.p
	lin := &linCtx{p: p}
	var recvSt, argSt, resSt *ssa.Store
	var argIdx, resIdx ssa.Value
	isList := func(v ssa.Value) bool { return sameSource(p, v, cl.Call.Args[1]) }
	bad := func(pos token.Pos, f string, a ...interface{}) {
		c.Viol("R14.call", c.Pos(p, pos), name, f, a...)
	}
	eachInstr(fn, func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok || !isList(ia.X) {
			return
		}
		role, i := o.valueRole(st.Val)
		switch role {
		case "recv":
			recvSt = st
		case "args[]":
			argSt, argIdx = st, i
		case "results[]":
			resSt, resIdx = st, i
		default:
			bad(st.Pos(), "a position of the argument list is filled with something that is neither receiver, argument nor result of the call")
		}
	})
	if argSt == nil && recvSt == nil {
		if o.appended(c, cl, name) {
			return
		}
	}
	if argSt == nil || recvSt == nil {
		bad(cl.Pos(), "the argument list of the user's function is not filled from the call's receiver and arguments")
		return
	}
	// the receiver goes to position 0
	if k, ok := constInt(recvSt.Addr.(*ssa.IndexAddr).Index); !ok || k != 0 {
		if !o.constIs(recvSt.Addr.(*ssa.IndexAddr).Index, 0) {
			bad(recvSt.Pos(), "the receiver is not the first argument")
		}
	}
	// the arguments follow: position - index is 1 with, 0 without receiver
	base, span, ok := o.fill(lin, argSt.Addr.(*ssa.IndexAddr).Index, argIdx)
	if !ok {
		bad(argSt.Pos(), "argument i is not put at the position i after the receiver, for every i")
		return
	}
	if !o.afterReceiver(base, recvSt) {
		bad(argSt.Pos(), "the arguments do not start right after the receiver (at position 1 exactly when the receiver was put at 0)")
	}
	if skipsIteration(argSt) {
		bad(argSt.Pos(), "some arguments are left out")
	}
	if !o.wholeList(lin, span, base, cl, argIdx) {
		bad(argSt.Pos(), "not all arguments are handed over")
	}
	if resSt != nil {
		rbase, rspan, ok := o.fill(lin, resSt.Addr.(*ssa.IndexAddr).Index, resIdx)
		if !ok {
			bad(resSt.Pos(), "result i is not put at the position i after the arguments, for every i")
			return
		}
		if skipsIteration(resSt) || !o.wholeList(lin, rspan, rbase, cl, resIdx) {
			bad(resSt.Pos(), "not all results are handed over")
		}
		// starts where the arguments ended
		end := base.add(span, 1)
		alt := linForm{co: map[ssa.Value]int64{}}
		if ph := loopPhi(argSt.Addr.(*ssa.IndexAddr).Index); ph != nil {
			alt = linForm{co: map[ssa.Value]int64{ph: 1}}
		}
		if !rbase.add(end, -1).isConst(0) && !rbase.add(alt, -1).isConst(0) {
			bad(resSt.Pos(), "the results do not start right after the arguments")
		}
	}
}

// appended: the argument list is built by appending. False when it is not.
func (o *objModel) appended(c *Ctx, cl *ssa.Call, name string) bool {
	p := o.p
	lin := &linCtx{p: p}
	web := map[ssa.Value]bool{}
	var apps []*ssa.Call
	var caps []ssa.Value
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if web[v] {
			return true
		}
		web[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return x.IsNil()
		case *ssa.MakeSlice:
			k, ok := constInt(x.Len)
			caps = append(caps, x.Cap)
			return ok && k == 0
		case *ssa.Slice:
			k, ok := constInt(x.High)
			return x.High != nil && ok && k == 0
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				apps = append(apps, x)
				return walk(x.Call.Args[0])
			}
		}
		return false
	}
	if !walk(cl.Call.Args[1]) || len(apps) == 0 {
		return false
	}
	bad := func(pos token.Pos, f string, a ...interface{}) {
		c.Viol("R14.call", c.Pos(p, pos), name, f, a...)
	}
	at := map[string][]*ssa.Call{}
	for _, a := range apps {
		sl, ok := a.Call.Args[1].(*ssa.Slice)
		if !ok {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || arrayLen(al.Type()) != 1 {
			return false
		}
		for _, v := range p.arrayElems(al) {
			role, idx := o.valueRole(v)
			switch role {
			case "recv":
			case "args[]", "results[]":
				if !o.everyElement(lin, idx, role, web, caps) || skipsIteration(a) {
					bad(a.Pos(), "not every element of the call's %s is handed over, in order", strings.TrimSuffix(role, "[]"))
				}
			default:
				bad(a.Pos(), "the argument list gets something that is neither receiver, argument nor result of the call")
			}
			at[role] = append(at[role], a)
		}
	}
	if len(at["args[]"]) != 1 || len(at["recv"]) != 1 || len(at["results[]"]) > 1 {
		return false
	}
	if mayFollow(at["args[]"][0], at["recv"][0]) {
		bad(at["recv"][0].Pos(), "the receiver is not the first argument")
	}
	if rs := at["results[]"]; len(rs) == 1 && mayFollow(rs[0], at["args[]"][0]) {
		bad(rs[0].Pos(), "the results do not come after the arguments")
	}
	return true
}

// everyElement: idx runs over the whole list of the role from 0 upwards.
func (o *objModel) everyElement(lin *linCtx, idx ssa.Value, role string, web map[ssa.Value]bool, caps []ssa.Value) bool {
	if idx == nil {
		return false
	}
	if ok, l := loopWhole(o.p, idx, nil); ok {
		r, i := o.role(l)
		return i == nil && r+"[]" == role
	}
	// up to the number of parameters, by the length of the list built so far
	ph, ok := idx.(*ssa.Phi)
	if !ok || len(caps) == 0 {
		return false
	}
	for _, e := range ph.Edges {
		f := lin.form(e, 0)
		if f.co[ph] == 1 {
			if !f.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1).isConst(1) {
				return false
			}
		} else if !f.isConst(0) {
			return false
		}
	}
	for _, b := range ph.Parent().Blocks {
		iff, isIf := lastIf(b)
		if !isIf || !inLoop(b, ph.Block()) || inLoop(b.Succs[0], ph.Block()) == inLoop(b.Succs[1], ph.Block()) {
			continue
		}
		cond, isB := iff.Cond.(*ssa.BinOp)
		if !isB || cond.Op != token.LSS || !inLoop(b.Succs[0], ph.Block()) {
			continue
		}
		if l := lenArg(cond.X); l != nil && web[l] {
			for _, k := range caps {
				if !lin.form(k, 0).add(lin.form(cond.Y, 0), -1).isConst(0) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// arrayElems: the values stored into a local array.
func (p *Prog) arrayElems(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func loopPhi(v ssa.Value) *ssa.Phi {
	ph, _ := v.(*ssa.Phi)
	return ph
}

func (o *objModel) constIs(v ssa.Value, k int64) bool {
	os := o.p.Origins(v, originOpts{noCalls: true, noParams: true})
	for _, or := range os {
		if n, ok := constInt(or.Val); !ok || n != k {
			return false
		}
	}
	return len(os) > 0
}

// fill: pos == idx + base throughout the loop, base not changing in it;
// idx runs upwards from 0 in steps of one over span elements.
func (o *objModel) fill(lin *linCtx, pos, idx ssa.Value) (base, span linForm, ok bool) {
	iph, init, end, good := loopSpan(o.p, lin, idx)
	if !good || !init.isConst(0) {
		return linForm{}, linForm{}, false
	}
	d := lin.form(pos, 0).add(lin.form(idx, 0), -1)
	if d.co[iph] == 0 {
		// position is idx + something fixed, or its own counter
		if len(d.co) == 1 {
			for v := range d.co {
				if ph, isPhi := v.(*ssa.Phi); isPhi && ph.Block() == iph.Block() {
					return linForm{}, linForm{}, false
				}
			}
		}
		return d, end, true
	}
	// a second counter stepping along
	f := lin.form(pos, 0)
	for v, k := range f.co {
		ph, isPhi := v.(*ssa.Phi)
		if !isPhi || k != 1 || ph.Block() != iph.Block() {
			continue
		}
		var start *linForm
		for _, e := range ph.Edges {
			ef := lin.form(e, 0)
			if ef.co[ph] == 1 {
				if st := ef.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1); !st.isConst(1) {
					return linForm{}, linForm{}, false
				}
				continue
			}
			if start != nil {
				return linForm{}, linForm{}, false
			}
			start = &ef
		}
		if start == nil {
			return linForm{}, linForm{}, false
		}
		rest := f.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1)
		// the index's own phi starts at init - offset
		off := lin.form(idx, 0).add(linForm{co: map[ssa.Value]int64{iph: 1}}, -1)
		_ = off
		return start.add(rest, 1), end, true
	}
	return linForm{}, linForm{}, false
}

// loopSpan: idx runs upwards in steps of one from init to end (exclusive).
func loopSpan(p *Prog, x *linCtx, idx ssa.Value) (ph *ssa.Phi, init, end linForm, ok bool) {
	form := x.form(idx, 0)
	for v, k := range form.co {
		if y, isPhi := v.(*ssa.Phi); isPhi && k == 1 {
			if ph != nil {
				return nil, init, end, false
			}
			ph = y
		}
	}
	if ph == nil {
		return
	}
	rest := form.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1)
	set := false
	for _, e := range ph.Edges {
		f := x.form(e, 0)
		if f.co[ph] == 1 {
			if d := f.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1); !d.isConst(1) {
				return nil, init, end, false
			}
			continue
		}
		if set {
			return nil, init, end, false
		}
		init, set = f.add(rest, 1), true
	}
	if !set {
		return nil, init, end, false
	}
	h := ph.Block()
	for _, b := range h.Parent().Blocks {
		if !inLoop(b, h) || !b.Dominates(blockOf(idx, h)) && b != h {
			continue
		}
		iff, isIf := lastIf(b)
		if !isIf || inLoop(b.Succs[0], h) == inLoop(b.Succs[1], h) {
			continue
		}
		cond, isB := iff.Cond.(*ssa.BinOp)
		if !isB {
			continue
		}
		op := cond.Op
		if !inLoop(b.Succs[0], h) {
			op = negCmp(op)
		}
		diff := x.form(cond.X, 0).add(x.form(cond.Y, 0), -1)
		if diff.co[ph] == -1 {
			diff = (linForm{}).add(diff, -1)
			switch op {
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			case token.NEQ:
			default:
				continue
			}
		} else if diff.co[ph] != 1 {
			continue
		}
		bound := (linForm{}).add(diff.add(linForm{co: map[ssa.Value]int64{ph: 1}}, -1), -1).add(rest, 1)
		switch op {
		case token.LSS, token.NEQ:
			return ph, init, bound, true
		case token.LEQ:
			return ph, init, bound.add(linForm{c: 1}, 1), true
		}
	}
	return nil, init, end, false
}

// afterReceiver: base is 1 on the path that stored the receiver and 0 else.
func (o *objModel) afterReceiver(base linForm, recvSt *ssa.Store) bool {
	if base.c != 0 || len(base.co) != 1 {
		return false
	}
	for v, k := range base.co {
		ph, ok := v.(*ssa.Phi)
		if k != 1 || !ok {
			return false
		}
		seen := map[*ssa.Phi]bool{}
		var chk func(ph *ssa.Phi) bool
		one := false
		chk = func(ph *ssa.Phi) bool {
			if seen[ph] {
				return true
			}
			seen[ph] = true
			for i, e := range ph.Edges {
				pred := ph.Block().Preds[i]
				if q, ok := e.(*ssa.Phi); ok {
					if !chk(q) {
						return false
					}
					continue
				}
				n, ok := constInt(e)
				if !ok {
					if b, isB := e.(*ssa.BinOp); isB && b.Op == token.ADD {
						x, okx := constInt(b.X)
						y, oky := constInt(b.Y)
						n, ok = x+y, okx && oky
					}
				}
				if !ok {
					return false
				}
				stored := recvSt.Block() == pred || recvSt.Block().Dominates(pred)
				switch n {
				case 1:
					if !stored {
						return false
					}
					one = true
				case 0:
					if stored {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
		return chk(ph) && one
	}
	return false
}

// wholeList: the loop ends at the end of the call's list, or at the end of
// the argument list being filled.
func (o *objModel) wholeList(lin *linCtx, end, base linForm, cl *ssa.Call, idx ssa.Value) bool {
	p := o.p
	if end.c == 0 && len(end.co) == 1 {
		for v, k := range end.co {
			if l := lenArg(v); k == 1 && l != nil {
				if r, i := o.role(l); i == nil && r != "" {
					return true
				}
			}
		}
	}
	for _, or := range p.Origins(cl.Call.Args[1], originOpts{noCalls: true, noParams: true}) {
		ms, ok := or.Val.(*ssa.MakeSlice)
		if !ok {
			return false
		}
		if !end.add(base, 1).add(lin.form(ms.Len, 0), -1).isConst(0) {
			return false
		}
	}
	return true
}

// assigned: the results of a replacer go to the call's results.
func (o *objModel) assigned(c *Ctx, fn *ssa.Function, cl *ssa.Call, name string) {
	p := o.p
	if cl.Referrers() == nil {
		return
	}
	used := false
	for _, r := range *cl.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); !dbg {
			used = true
		}
	}
	recv, _, results := handlerParams(fn)
	sig := fn.Signature.Results()
	if !used {
		// a mock's handler has to use them: its verdict is that it answered
		if results != nil && sig.Len() == 1 && isBoolT(sig.At(0).Type()) {
			c.Viol("R14.results", c.Pos(p, cl.Pos()), name, "the replacer's results are dropped")
		}
		return
	}
	name += " and takes its results"
	c.Obl("R14.results", name)
	n := 0
	eachInstr(fn, func(ins ssa.Instruction) {
		set, ok := reflectMethod(ins, "Set")
		if !ok {
			return
		}
		// what is assigned
		var list, idx ssa.Value
		for _, or := range p.Origins(set.Call.Args[1], originOpts{noCalls: true, noParams: true}) {
			if u, ok := or.Val.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					list, idx = ia.X, ia.Index
				}
			}
		}
		if list == nil {
			return
		}
		from := false
		for _, or := range p.Origins(list, originOpts{noCalls: true, noParams: true}) {
			if or.Val == cl {
				from = true
			}
		}
		if !from {
			return
		}
		n++
		role, ri := o.valueRole(set.Call.Args[0])
		if results == nil {
			if role != "recv" || !o.constIs(idx, 0) || !alwaysAfterOrSame(cl, set) {
				c.Viol("R14.results", c.Pos(p, ins.Pos()), name, "the replacer's value is not what the variable access gets on every path")
			}
			return
		}
		if role != "results[]" || ri == nil || !sameIndex(p, ri, idx) {
			c.Viol("R14.results", c.Pos(p, ins.Pos()), name, "a result of the replacer is assigned to another result of the call")
			return
		}
		ok2, l := loopWhole(p, idx, nil)
		if ok2 {
			ok2 = false
			for _, or := range p.Origins(l, originOpts{noCalls: true, noParams: true}) {
				if or.Val == cl {
					ok2 = true
				}
			}
			if r, _ := o.role(l); r == "results" {
				ok2 = true
			}
		}
		if !ok2 || skipsIteration(set) {
			c.Viol("R14.results", c.Pos(p, ins.Pos()), name, "not every result of the replacer is assigned")
		}
	})
	_ = recv
	if n == 0 {
		c.Viol("R14.results", c.Pos(p, cl.Pos()), name, "the replacer's results are not assigned to the call's results")
	}
}

func alwaysAfterOrSame(a, b ssa.Instruction) bool {
	return alwaysAfter(a, func(i ssa.Instruction) bool { return i == b }, isReturn) == nil
}

// ------------------------------------------------------------- contexts

func (o *objModel) contexts(c *Ctx) {
	p := o.p
	for _, fn := range o.fns {
		_, args, _ := handlerParams(fn)
		if args == nil {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok || cl.Call.IsInvoke() || cl.Call.StaticCallee() != nil || len(cl.Call.Args) == 0 || !isNamed(cl.Call.Args[0].Type(), "context", "Context") {
				return
			}
			name := shortFn(fn) + " hands a context to a callback"
			c.Obl("R14.ctx", name)
			own := false
			flag := func(want bool) atomMatch {
				return func(cond ssa.Value, pol bool) bool {
					f, _ := o.infoField(cond)
					return f == "FirstArgCtx" && pol == want
				}
			}
			excuse := func(cond ssa.Value, pol bool) bool {
				if flag(false)(cond, pol) {
					return true
				}
				switch x := cond.(type) {
				case *ssa.BinOp:
					v := x.X
					if isNilConst(v) {
						v = x.Y
					} else if !isNilConst(x.Y) {
						return false
					}
					return (x.Op == token.EQL) == pol && o.firstArg(v)
				case *ssa.Extract:
					ta, ok := x.Tuple.(*ssa.TypeAssert)
					return ok && x.Index == 1 && !pol && o.firstArg(ta.X)
				}
				return false
			}
			for _, or := range p.Origins(cl.Call.Args[0], originOpts{noCalls: true, noParams: true}) {
				v := or.Val
				if ci, ok := v.(*ssa.ChangeInterface); ok {
					v = ci.X
				}
				if o.firstArg(v) {
					own = true
					if i, ok := v.(ssa.Instruction); ok && !p.originGuarded(or, ins, flag(true)) && !p.blockGuarded(i.Block(), flag(true), 0) {
						c.Viol("R14.ctx", c.Pos(p, i.Pos()), name, "the first argument is taken as context although the function may not have one")
					}
					continue
				}
				if k, ok := v.(*ssa.Call); ok && k.Call.StaticCallee() != nil && fnPkg(k.Call.StaticCallee()).Path() == "context" {
					if !p.originGuarded(or, ins, excuse) || p.badValueReaches(cl.Call.Args[0], ins, excuse, func(v ssa.Value) bool { return !o.firstArg(v) }) {
						c.Viol("R14.ctx", c.Pos(p, ins.Pos()), name, "a made-up context can be handed over although the call has its own")
					}
					continue
				}
				c.Viol("R14.ctx", c.Pos(p, ins.Pos()), name, "the context handed over is neither the call's first argument nor a fresh one")
			}
			if !own {
				c.Viol("R14.ctx", c.Pos(p, ins.Pos()), name, "the call's own context never reaches the callback")
			}
		})
	}
}

// firstArg: v is read out of args[0].
func (o *objModel) firstArg(v ssa.Value) bool {
	hit := false
	o.p.slice(v, false, true, func(u ssa.Value) bool {
		if x, ok := u.(*ssa.UnOp); ok && x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if r, _ := o.role(x); r == "args[]" {
					k, isC := constInt(ia.Index)
					hit = isC && k == 0
					return false
				}
			}
		}
		return true
	})
	return hit
}

// -------------------------------------------------------------- objects

func (o *objModel) method(t *types.Named, name string) *ssa.Function {
	for _, fn := range o.fns {
		if r := fn.Signature.Recv(); r != nil && namedOf(r.Type()) == t && fn.Name() == name && fn.Synthetic == "" {
			return fn
		}
	}
	return nil
}

func (o *objModel) objects(c *Ctx) {
	p := o.p
	check := func(t *types.Named, n string, why string, ok func(fn *ssa.Function) ssa.Instruction) {
		fn := o.method(t, n)
		c.Obl("R14.object", t.Obj().Name()+"."+n)
		if fn == nil {
			c.Viol("R14.object", "-", t.Obj().Name()+"."+n, "method not found")
			return
		}
		if at := ok(fn); at != nil {
			pos := at.Pos()
			if pos == token.NoPos {
				pos = fn.Pos()
			}
			c.Viol("R14.object", c.Pos(p, pos), t.Obj().Name()+"."+n, "%s", why)
		}
	}
	each := func(fn *ssa.Function, good func(r *ssa.Return) bool) ssa.Instruction {
		for _, r := range returnsOf(fn) {
			if !good(r) {
				return r
			}
		}
		return nil
	}
	self := func(fn *ssa.Function, v ssa.Value) bool {
		for _, or := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
			if or.Val != fn.Params[0] {
				return false
			}
		}
		return true
	}
	check(o.obj, "NumField", "the count is not the number of entries", func(fn *ssa.Function) ssa.Instruction {
		return each(fn, func(r *ssa.Return) bool { l := lenArg(r.Results[0]); return l != nil && self(fn, l) })
	})
	elem := func(v ssa.Value) *ssa.IndexAddr {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			break
		}
		for _, or := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
			w := or.Val
			if mi, ok := w.(*ssa.MakeInterface); ok {
				w = mi.X
			}
			if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					return ia
				}
			}
		}
		return nil
	}
	check(o.obj, "GetFieldIndex", "the i-th entry asked for is not the one returned", func(fn *ssa.Function) ssa.Instruction {
		return each(fn, func(r *ssa.Return) bool {
			ia := elem(r.Results[0])
			return ia != nil && self(fn, ia.X) && ia.Index == fn.Params[1]
		})
	})
	check(o.obj, "GetField", "the entry returned is not the first one bearing the name asked for", func(fn *ssa.Function) ssa.Instruction {
		for _, r := range returnsOf(fn) {
			ia := elem(r.Results[0])
			if ia == nil || !self(fn, ia.X) {
				return r
			}
			named := func(cond ssa.Value, pol bool) bool {
				b, ok := cond.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != pol {
					return false
				}
				x, y := b.X, b.Y
				if x == fn.Params[1] {
					x, y = y, x
				}
				return y == fn.Params[1] && o.nameOf(x, ia)
			}
			if !p.blockGuarded(r.Block(), named, 0) {
				return r
			}
			if dir, l := loopRangeDir(p, ia.Index); dir != 1 || !self(fn, l) {
				return r
			}
		}
		return nil
	})
	fieldOf := func(fn *ssa.Function, v ssa.Value, iface bool) bool {
		hit := false
		for _, or := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
			var f *types.Var
			switch x := or.Val.(type) {
			case *ssa.Field:
				if self(fn, x.X) {
					f = fieldVar(x.X.Type(), x.Field)
				}
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == o.field {
					f = fieldVar(fa.X.Type(), fa.Field)
				}
			}
			if f == nil || isEmptyIface(f.Type()) != iface {
				return false
			}
			hit = true
		}
		return hit
	}
	check(o.field, "Name", "the name is not the entry's name", func(fn *ssa.Function) ssa.Instruction {
		return each(fn, func(r *ssa.Return) bool { return fieldOf(fn, r.Results[0], false) })
	})
	check(o.field, "Ptr", "the pointer is not the entry's pointer", func(fn *ssa.Function) ssa.Instruction {
		return each(fn, func(r *ssa.Return) bool { return fieldOf(fn, r.Results[0], true) })
	})
	// pointee: reflect.ValueOf(c.valPtr).Elem()
	pointee := func(fn *ssa.Function, v ssa.Value) bool {
		for _, or := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
			e, ok := or.Val.(*ssa.Call)
			if !ok {
				return false
			}
			if _, ok := reflectMethod(e, "Elem"); !ok {
				return false
			}
			for _, o2 := range p.Origins(e.Call.Args[0], originOpts{noCalls: true, noParams: true}) {
				w, ok := o2.Val.(*ssa.Call)
				if !ok || w.Call.StaticCallee() == nil || fnName(w.Call.StaticCallee()) != "reflect.ValueOf" || !fieldOf(fn, w.Call.Args[0], true) {
					return false
				}
			}
		}
		return true
	}
	check(o.field, "Value", "the value is not what the entry's pointer points to", func(fn *ssa.Function) ssa.Instruction {
		return each(fn, func(r *ssa.Return) bool {
			for _, or := range p.Origins(r.Results[0], originOpts{noCalls: true, noParams: true}) {
				i, ok := or.Val.(*ssa.Call)
				if !ok {
					return false
				}
				if _, ok := reflectMethod(i, "Interface"); !ok || !pointee(fn, i.Call.Args[0]) {
					return false
				}
			}
			return true
		})
	})
	check(o.field, "Set", "setting an entry does not store the given value (or the zero value for nil) where its pointer points, on every path", func(fn *ssa.Function) ssa.Instruction {
		isNil := func(want bool) atomMatch {
			return func(cond ssa.Value, pol bool) bool {
				b, ok := cond.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ {
					return false
				}
				v := b.X
				if isNilConst(v) {
					v = b.Y
				} else if !isNilConst(b.Y) {
					return false
				}
				return v == fn.Params[1] && ((b.Op == token.EQL) == pol) == want
			}
		}
		good := map[ssa.Instruction]bool{}
		var bad ssa.Instruction
		eachInstr(fn, func(ins ssa.Instruction) {
			s, ok := reflectMethod(ins, "Set")
			if !ok {
				return
			}
			if !pointee(fn, s.Call.Args[0]) {
				bad = ins
				return
			}
			zero, val := false, false
			var at []Origin
			for _, or := range p.Origins(s.Call.Args[1], originOpts{noCalls: true, noParams: true}) {
				k, ok := or.Val.(*ssa.Call)
				if !ok || k.Call.StaticCallee() == nil {
					bad = ins
					return
				}
				switch fnName(k.Call.StaticCallee()) {
				case "reflect.Zero":
					zero = true
					if !p.originGuarded(or, ins, isNil(true)) {
						bad = ins
					}
				case "reflect.ValueOf":
					val = true
					if k.Call.Args[0] != fn.Params[1] || !p.originGuarded(or, ins, isNil(false)) {
						bad = ins
					}
				default:
					bad = ins
				}
				at = append(at, or)
			}
			if zero || val {
				good[ins] = true
			}
		})
		if bad != nil {
			return bad
		}
		for _, r := range returnsOf(fn) {
			if !alwaysBefore(r, func(i ssa.Instruction) bool { return good[i] }) {
				return r
			}
		}
		return nil
	})
}

// nameOf: x is the name of the element at ia.
func (o *objModel) nameOf(x ssa.Value, ia *ssa.IndexAddr) bool {
	hit := false
	o.p.slice(x, true, true, func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.IndexAddr:
			if y == ia || sameSource(o.p, y.X, ia.X) && sameIndex(o.p, y.Index, ia.Index) {
				hit = true
			}
		}
		return true
	})
	return hit && isString(x.Type())
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---------------------------------------------------------------- pairs

func strList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// pairParams: a function taking a list of names directly followed by a list
// of values.
func pairAt(sig *types.Tuple) int {
	for i := 0; i+1 < sig.Len(); i++ {
		if strList(sig.At(i).Type()) && ifaceList(sig.At(i+1).Type()) {
			return i
		}
	}
	return -1
}

func (o *objModel) pairs(c *Ctx) {
	p := o.p
	for _, fn := range o.fns {
		if k := pairAt(fn.Signature.Results()); k >= 0 {
			name := shortFn(fn) + " returns names and values"
			c.Obl("R14.pairs", name)
			for _, r := range returnsOf(fn) {
				if !o.paired(r.Results[k], r.Results[k+1], 0) {
					c.Viol("R14.pairs", c.Pos(p, r.Pos()), name, "the names and the values returned here are not the same part of the lists given")
				}
			}
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() == nil || !p.inRepo[cl.Call.StaticCallee()] || cl.Call.StaticCallee().Signature.Recv() != nil {
				return
			}
			k := pairAt(cl.Call.StaticCallee().Signature.Params())
			if k < 0 {
				return
			}
			name := shortFn(fn) + " hands names and values to " + shortFn(cl.Call.StaticCallee())
			c.Obl("R14.pairs", name)
			if !o.paired(cl.Call.Args[k], cl.Call.Args[k+1], 0) {
				c.Viol("R14.pairs", c.Pos(p, ins.Pos()), name, "the names and the values put together here do not belong to each other")
			}
		})
	}
}

// paired: names and values are corresponding lists.
func (o *objModel) paired(n, v ssa.Value, d int) bool {
	p := o.p
	if d > 12 {
		return false
	}
	np, ok1 := n.(*ssa.Phi)
	vp, ok2 := v.(*ssa.Phi)
	if ok1 && ok2 && np.Block() == vp.Block() {
		for i := range np.Edges {
			if np.Edges[i] == np && vp.Edges[i] == vp {
				continue
			}
			if !o.paired(np.Edges[i], vp.Edges[i], d+1) {
				return false
			}
		}
		return true
	}
	if ok1 || ok2 {
		return false
	}
	one := func(x ssa.Value) ssa.Value {
		os := p.Origins(x, originOpts{noCalls: true, noParams: true, keep: func(y ssa.Value) bool { _, ph := y.(*ssa.Phi); return ph && y != x }})
		if len(os) == 1 {
			return os[0].Val
		}
		return x
	}
	if n2, v2 := one(n), one(v); n2 != n || v2 != v {
		return o.paired(n2, v2, d+1)
	}
	switch x := n.(type) {
	case *ssa.Extract:
		y, ok := v.(*ssa.Extract)
		return ok && y.Tuple == x.Tuple && y.Index == x.Index+1 && o.callPaired(x.Tuple)
	case *ssa.Slice:
		y, ok := v.(*ssa.Slice)
		return ok && o.sameBound(x.Low, y.Low, n, v) && o.sameBound(x.High, y.High, n, v) && o.paired(x.X, y.X, d+1)
	case *ssa.MakeSlice:
		y, ok := v.(*ssa.MakeSlice)
		return ok && o.madePaired(x, y, d)
	case *ssa.Parameter:
		y, ok := v.(*ssa.Parameter)
		if !ok || x.Parent() != y.Parent() {
			return false
		}
		// the pair the function was given
		for i, pr := range x.Parent().Params {
			if pr == x {
				return i+1 < len(x.Parent().Params) && x.Parent().Params[i+1] == y
			}
		}
	case *ssa.UnOp:
		f, i := o.infoField(n)
		r, j := o.role(v)
		return i == nil && j == nil && (f == "ArgNames" && r == "args" || f == "ResNames" && r == "results")
	}
	return false
}

func (o *objModel) sameBound(a, b, n, v ssa.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sameIndex(o.p, a, b)
}

// callPaired: the call was given a corresponding pair.
func (o *objModel) callPaired(t ssa.Value) bool {
	cl, ok := t.(*ssa.Call)
	if !ok || cl.Call.StaticCallee() == nil {
		return false
	}
	k := pairAt(cl.Call.StaticCallee().Signature.Params())
	return k >= 0 && o.paired(cl.Call.Args[k], cl.Call.Args[k+1], 1)
}

// madePaired: both lists are made with the same number of elements put in
// front of corresponding lists copied in.
func (o *objModel) madePaired(x, y *ssa.MakeSlice, d int) bool {
	type part struct {
		consts map[int64]ssa.Value
		off    int64
		src    ssa.Value
	}
	read := func(ms *ssa.MakeSlice) (part, bool) {
		pt := part{consts: map[int64]ssa.Value{}}
		okAll := true
		eachInstr(ms.Parent(), func(ins ssa.Instruction) {
			switch z := ins.(type) {
			case *ssa.Store:
				if ia, ok := z.Addr.(*ssa.IndexAddr); ok && o.is(ia.X, ms) {
					k, isC := constInt(ia.Index)
					if !isC {
						okAll = false
						return
					}
					pt.consts[k] = z.Val
				}
			case *ssa.Call:
				if b, ok := z.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
					dst := z.Call.Args[0]
					off := int64(0)
					if s, ok := dst.(*ssa.Slice); ok {
						if s.Low != nil {
							k, isC := constInt(s.Low)
							if !isC {
								return
							}
							off = k
						}
						dst = s.X
					}
					if o.is(dst, ms) {
						if pt.src != nil {
							okAll = false
						}
						pt.off, pt.src = off, z.Call.Args[1]
					}
				}
			}
		})
		return pt, okAll && pt.src != nil
	}
	a, ok1 := read(x)
	b, ok2 := read(y)
	if !ok1 || !ok2 || a.off != b.off || len(a.consts) != len(b.consts) || int64(len(a.consts)) != a.off || !o.paired(a.src, b.src, d+1) {
		return false
	}
	lin := &linCtx{p: o.p}
	for _, z := range []struct {
		ms *ssa.MakeSlice
		pt part
	}{{x, a}, {y, b}} {
		f := lin.form(z.ms.Len, 0)
		if f.c != z.pt.off || len(f.co) != 1 {
			return false
		}
		for v := range f.co {
			l := lenArg(v)
			if l == nil || !(sameSource(o.p, l, a.src) || sameSource(o.p, l, b.src)) {
				return false
			}
		}
	}
	for k, nv := range a.consts {
		f, _ := o.infoField(nv)
		r, _ := o.role(b.consts[k])
		if f != "RecvName" || r != "recv" {
			return false
		}
	}
	return true
}

func (o *objModel) is(v ssa.Value, ms *ssa.MakeSlice) bool {
	if v == ms {
		return true
	}
	for _, or := range o.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		if or.Val == ms {
			return true
		}
	}
	return false
}
