package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	rtLink  = rtMod + "/internal/runtime"
	rtTrap  = rtMod + "/internal/trap"
	rtStack = rtMod + "/internal/stack"
	rtTLS   = rtMod + "/tls"
	rtFunct = rtMod + "/functab"
)

// RTModel is what the runtime checks need to know about the runtime
// package, found by type and by role (the functions handed to the linked
// runtime hooks), not by local names.
type RTModel struct {
	preLoops []preLoop
	p        *Prog

	TrapFns   map[string]*ssa.Function // func, var, varptr
	CreateFns []*ssa.Function          // trap package's goroutine creation callback
	ExitFns   []*ssa.Function

	Reg        *types.Named // registry struct
	RegFields  []*types.Var
	regSet     map[*types.Var]bool
	Data       *types.Named // per goroutine data
	DataRegFld *types.Var   // its registry field
	Global     *ssa.Global
	Holders    map[*types.Named]bool
}

func (c *Ctx) rtModel() *RTModel {
	p := c.RT()
	m := &RTModel{p: p, TrapFns: map[string]*ssa.Function{}, Holders: map[*types.Named]bool{}, regSet: map[*types.Var]bool{}}
	hook := func(name string, pkg string) []*ssa.Function {
		var out []*ssa.Function
		for _, fn := range p.FuncsIn(func(s string) bool { return s == pkg }) {
			eachInstr(fn, func(ins ssa.Instruction) {
				if cl, ok := isCallTo(ins, rtLink+"."+name); ok {
					fs := p.FuncValues(cl.Common().Args[0])
					if len(fs) == 0 {
						panic(fmt.Sprintf("%s: cannot resolve the function handed to %s", c.Pos(p, ins.Pos()), name))
					}
					out = append(out, fs...)
				}
			})
		}
		return out
	}
	for k, n := range map[string]string{"func": "XgoSetTrap", "var": "XgoSetVarTrap", "varptr": "XgoSetVarPtrTrap"} {
		fs := hook(n, rtTrap)
		if len(fs) != 1 {
			panic(fmt.Sprintf("expected one function handed to %s, found %d", n, len(fs)))
		}
		m.TrapFns[k] = fs[0]
	}
	m.CreateFns = hook("XgoOnCreateG", rtTrap)
	m.ExitFns = hook("XgoOnExitG", rtTrap)
	if len(m.CreateFns) == 0 || len(m.ExitFns) == 0 {
		panic("no goroutine creation/exit callback registered by the trap package")
	}
	// registry struct: a struct with a package level variable of its type
	// and at least 3 fields of type map[..][]*Holder
	sp := p.pkg(rtTrap)
	for _, mem := range sp.Members {
		g, ok := mem.(*ssa.Global)
		if !ok {
			continue
		}
		n := namedOf(g.Type().(*types.Pointer).Elem())
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		cnt := 0
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok && holderElem(st.Field(i).Type()) != nil {
				cnt++
			}
		}
		if cnt >= 3 {
			m.Reg, m.Global = n, g
		}
	}
	if m.Reg == nil {
		panic("the registry of mocks, recorders and interceptors was not found")
	}
	st := m.Reg.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if h := holderElem(f.Type()); h != nil {
			m.RegFields = append(m.RegFields, f)
			m.regSet[f] = true
			m.Holders[h] = true
		}
	}
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if namedOf(st.Field(i).Type()) == m.Reg {
				m.Data = namedOf(tn.Type())
				m.DataRegFld = st.Field(i)
			}
		}
	}
	if m.Data == nil {
		panic("the per-goroutine data holding the registry was not found")
	}
	return m
}

// holderElem: for map[K][]*H or []*H the named struct H having a func field.
func holderElem(t types.Type) *types.Named {
	if mp, ok := t.Underlying().(*types.Map); ok {
		t = mp.Elem()
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	pt, ok := sl.Elem().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n := namedOf(pt.Elem())
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
			return n
		}
	}
	return nil
}

// regRead: v is a load (or address) of a registry field; gives the field
// and the registry pointer.
func (m *RTModel) regField(v ssa.Value) (*types.Var, ssa.Value) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return m.regField(x.X)
		}
	case *ssa.FieldAddr:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && m.regSet[f] {
			return f, x.X
		}
	case *ssa.Field:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && m.regSet[f] {
			return f, x.X
		}
	}
	return nil, nil
}

// ------------------------------------------------------- context slices

type frame struct {
	parent *frame
	call   ssa.CallInstruction
	fn     *ssa.Function
}

type leaf struct {
	val ssa.Value
	fr  *frame
}

// Slice walks the data dependences of v backwards, entering repository
// callees with their own arguments, and reports every value visited.
// Control dependences are not followed.
func (p *Prog) Slice(v ssa.Value, visit func(v ssa.Value) bool) { p.slice(v, false, false, visit) }

// DeepSlice also follows what was put into maps, slices and structs made on
// the way.
func (p *Prog) DeepSlice(v ssa.Value, visit func(v ssa.Value) bool) { p.slice(v, true, false, visit) }

// slice: local: parameters are not followed to the callers of the function
// v belongs to (those of the functions entered on the way are).
func (p *Prog) slice(v ssa.Value, deep, local bool, visit func(v ssa.Value) bool) {
	type key struct {
		v ssa.Value
		f *frame
	}
	seen := map[key]bool{}
	frames := map[frame]*frame{}
	steps := 0
	var walk func(v ssa.Value, f *frame, d int)
	walk = func(v ssa.Value, f *frame, d int) {
		if v == nil || seen[key{v, f}] || d > 200 {
			return
		}
		steps++
		if steps > 20000 {
			return
		}
		seen[key{v, f}] = true
		if !visit(v) {
			return
		}
		operands := func(ins ssa.Instruction) {
			var ops [10]*ssa.Value
			for _, op := range ins.Operands(ops[:0]) {
				if op != nil && *op != nil {
					walk(*op, f, d+1)
				}
			}
		}
		enter := func(cl *ssa.Call, idx int) {
			cm := cl.Common()
			var fs []*ssa.Function
			if cm.IsInvoke() {
				operands(cl)
				return
			}
			if sf := cm.StaticCallee(); sf != nil {
				fs = []*ssa.Function{sf}
			} else {
				fs = p.FuncValues(cm.Value)
			}
			entered := false
			for _, cf := range fs {
				if !p.inRepo[cf] || len(cf.Blocks) == 0 || fnPkg(cf).Path() == rtLink && !strings.HasPrefix(cf.Name(), "GetG") && cf.Name() != "AsG" && cf.Signature.Recv() == nil {
					continue
				}
				rec := false
				n := 0
				for g := f; g != nil; g = g.parent {
					if g.fn == cf {
						rec = true
					}
					n++
				}
				if rec || n > 12 {
					continue
				}
				entered = true
				fk := frame{f, cl, cf}
				if frames[fk] == nil {
					frames[fk] = &fk
				}
				nf := frames[fk]
				for _, r := range returnsOf(cf) {
					if idx < 0 {
						for _, rv := range r.Results {
							walk(rv, nf, d+1)
						}
					} else if idx < len(r.Results) {
						walk(r.Results[idx], nf, d+1)
					}
				}
			}
			if !entered {
				operands(cl)
			}
		}
		switch x := v.(type) {
		case *ssa.Call:
			enter(x, -1)
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if visit(cl) {
					enter(cl, x.Index)
				}
				return
			}
			walk(x.Tuple, f, d+1)
		case *ssa.Parameter:
			for g := f; g != nil; g = g.parent {
				if g.fn == x.Parent() {
					for i, pr := range g.fn.Params {
						if pr == x && i < len(g.call.Common().Args) {
							walk(g.call.Common().Args[i], g.parent, d+1)
						}
					}
					return
				}
			}
			if local {
				return
			}
			// not entered through a call: all callers
			for i, pr := range x.Parent().Params {
				if pr == x {
					args, _ := p.paramArgs(x.Parent(), i)
					for _, a := range args {
						walk(a, nil, d+1)
					}
				}
			}
		case *ssa.FreeVar:
			for _, mc := range p.closures[x.Parent()] {
				for j, fv := range x.Parent().FreeVars {
					if fv == x {
						walk(mc.Bindings[j], f, d+1)
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a := p.localCell(x.X); a != nil {
					for _, s := range p.cellStores(a) {
						walk(s, f, d+1)
					}
				}
			}
			walk(x.X, f, d+1)
		case *ssa.Alloc:
			// an aggregate built in place: what was stored into it
			if x.Referrers() != nil {
				for _, r := range *x.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == x {
						walk(st.Val, f, d+1)
					}
					if ia, ok := r.(*ssa.IndexAddr); ok && deep && ia.Referrers() != nil {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
								walk(st.Val, f, d+1)
							}
						}
					}
					if fa, ok := r.(*ssa.FieldAddr); ok && deep && fa.Referrers() != nil {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
								walk(st.Val, f, d+1)
							}
						}
					}
				}
			}
		case *ssa.MakeMap:
			operands(x)
			if deep {
				for _, u := range mapUpdates(p, x) {
					walk(u.Value, f, d+1)
				}
			}
		case *ssa.MakeSlice:
			operands(x)
			if deep {
				for _, s := range copiedInto(p, x) {
					walk(s, f, d+1)
				}
			}
		case *ssa.Function, *ssa.Const, *ssa.Global, *ssa.Builtin:
		default:
			if ins, ok := v.(ssa.Instruction); ok {
				operands(ins)
			}
		}
	}
	walk(v, nil, 0)
}

// gSources classifies where a goroutine-bound value comes from.
type gSrc struct {
	cur    bool // the current goroutine
	parent bool // first argument of a creation callback
	child  bool // second argument of a creation callback
	global bool // the process-wide registry
}

func (s gSrc) String() string {
	var l []string
	if s.cur {
		l = append(l, "current goroutine")
	}
	if s.parent {
		l = append(l, "creating goroutine")
	}
	if s.child {
		l = append(l, "created goroutine")
	}
	if s.global {
		l = append(l, "process-wide registry")
	}
	if len(l) == 0 {
		return "unknown"
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

func (m *RTModel) gSources(v ssa.Value) gSrc {
	var s gSrc
	roots := map[*ssa.Parameter]int{}
	for _, f := range m.CreateFns {
		for i, pr := range f.Params {
			roots[pr] = i
		}
	}
	m.p.Slice(v, func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter:
			if i, ok := roots[x]; ok {
				if i == 0 {
					s.parent = true
				} else {
					s.child = true
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && fnName(f) == rtLink+".XgoGetCurG" {
				s.cur = true
			}
		case *ssa.Global:
			if x == m.Global {
				s.global = true
			}
		}
		return true
	})
	return s
}

// initFinished: the atom "initialisation has finished" at the given truth.
func (m *RTModel) initAtom(want bool) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		cl, ok := cond.(*ssa.Call)
		if !ok {
			return false
		}
		f := cl.Call.StaticCallee()
		return f != nil && fnName(f) == rtLink+".XgoInitFinished" && pol == want
	}
}

// originGuarded: o reaches use only when atom holds: at the use, on one of
// the phi edges crossed, or where the value itself is produced.
func (p *Prog) originGuarded(o Origin, use ssa.Instruction, m atomMatch) bool {
	if use != nil && p.Guarded(use, m) {
		return true
	}
	for _, e := range o.Edges {
		if p.edgeGuarded(e.pred, e.phi.Block(), m, 0) {
			return true
		}
	}
	for _, i := range o.Via {
		// within its own function: the guard holds whenever it returns here
		if p.blockGuarded(i.Block(), m, 0) {
			return true
		}
	}
	if ins, ok := o.Val.(ssa.Instruction); ok && ins.Block() != nil {
		if p.Guarded(ins, m) {
			return true
		}
	}
	return false
}

// regWrites lists the instructions changing a registry field: stores to
// the field and updates of the map it holds.
type regWrite struct {
	ins   ssa.Instruction
	field *types.Var
	reg   ssa.Value // registry pointer
	key   ssa.Value // map key, nil for a field store
	val   ssa.Value
}

func (m *RTModel) regWrites() []regWrite {
	var out []regWrite
	for _, fn := range m.p.FuncsIn(func(s string) bool { return isRepoPath(s) }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Store:
				if f, reg := m.regField(x.Addr); f != nil {
					out = append(out, regWrite{ins, f, reg, nil, x.Val})
				}
			case *ssa.MapUpdate:
				for _, o := range m.p.Origins(x.Map, originOpts{}) {
					if f, reg := m.regField(o.Val); f != nil {
						out = append(out, regWrite{ins, f, reg, x.Key, x.Value})
						break
					}
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					for _, o := range m.p.Origins(x.Common().Args[0], originOpts{}) {
						if f, reg := m.regField(o.Val); f != nil {
							out = append(out, regWrite{ins, f, reg, x.Common().Args[1], nil})
							break
						}
					}
				}
			}
		})
	}
	return out
}

func (m *RTModel) inCreate() map[*ssa.Function]bool { return m.p.Reach(m.CreateFns, nil) }

// isMock reports whether f is a table of mocks, or the callback of a mock's
// holder: a mock has a single callback, a recorder or interceptor two.
func (m *RTModel) isMock(f *types.Var) bool {
	for h := range m.Holders {
		st := h.Underlying().(*types.Struct)
		n, own := 0, holderElem(f.Type()) == h
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
				n++
			}
			if st.Field(i) == f {
				own = true
			}
		}
		if own {
			return n == 1
		}
	}
	return false
}
