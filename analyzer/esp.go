package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path-sensitive typestate engine (property simulation): it walks the
// control flow graph of a function with a finite abstract state - the
// constants, nil-ness and emptiness of the boolean, function and list
// variables, plus an automaton driven by the client's events - merging equal
// states per block. Calls to repository functions selected by the client are
// entered.

type aval struct {
	k    byte   // 0 unknown, T, F, N nil/empty, Y non-nil/non-empty, C closure, S symbol, P address, U struct, I integer, G integer >= n, E element
	s    string // symbol, ids of closures in a list, tag
	n    int64
	neg  bool
	cneg bool // cond is the negation of the symbol
	fn   *ssa.Function
	mc   *ssa.MakeClosure
	cell cellKey
	fs   []aval
	cond ssa.Value
}

type cellKey struct {
	a ssa.Value
	f int
}

func (a aval) key() string {
	switch a.k {
	case 0:
		return "?"
	case 'T', 'F', 'N':
		return string(a.k)
	case 'Y', 'E':
		return string(a.k) + a.s
	case 'C':
		return fmt.Sprintf("C%p%p", a.fn, a.mc)
	case 'S':
		return fmt.Sprintf("S%s%v", a.s, a.neg)
	case 'P':
		return fmt.Sprintf("P%p.%d", a.cell.a, a.cell.f)
	case 'I', 'G':
		return fmt.Sprintf("%c%d", a.k, a.n)
	case 'U':
		var b strings.Builder
		for _, f := range a.fs {
			b.WriteString(f.key())
			b.WriteByte(',')
		}
		return "U{" + b.String() + "}"
	}
	return "?"
}

var (
	avTrue  = aval{k: 'T'}
	avFalse = aval{k: 'F'}
	avNil   = aval{k: 'N'}
	avYes   = aval{k: 'Y'}
)

func avBool(b bool) aval {
	if b {
		return avTrue
	}
	return avFalse
}

func avSym(s string) aval { return aval{k: 'S', s: s} }

type envKey struct {
	v   ssa.Value
	idx int
}

type estate struct {
	env    map[envKey]aval
	cells  map[cellKey]aval
	facts  map[string]bool
	defers []*ssa.Defer
	auto   map[string]string
}

func newState() *estate {
	return &estate{map[envKey]aval{}, map[cellKey]aval{}, map[string]bool{}, nil, map[string]string{}}
}

func (s *estate) clone() *estate {
	n := &estate{make(map[envKey]aval, len(s.env)), make(map[cellKey]aval, len(s.cells)), make(map[string]bool, len(s.facts)), s.defers, make(map[string]string, len(s.auto))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	return n
}

func (s *estate) key() string {
	var l []string
	for k, v := range s.env {
		if v.k != 0 {
			l = append(l, fmt.Sprintf("e%p.%d=%s", k.v, k.idx, v.key()))
		}
	}
	for k, v := range s.cells {
		if v.k != 0 {
			l = append(l, fmt.Sprintf("c%p.%d=%s", k.a, k.f, v.key()))
		}
	}
	for k, v := range s.facts {
		l = append(l, fmt.Sprintf("f%s=%v", k, v))
	}
	for k, v := range s.auto {
		if v != "" {
			l = append(l, "a"+k+"="+v)
		}
	}
	for _, d := range s.defers {
		l = append(l, fmt.Sprintf("d%p", d))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// Auto state helpers.
func (s *estate) get(k string) string   { return s.auto[k] }
func (s *estate) set(k, v string)       { s.auto[k] = v }
func (s *estate) has(k, id string) bool { return strings.Contains(s.auto[k], "<"+id+">") }
func (s *estate) add(k, id string) {
	if !s.has(k, id) {
		l := append(splitIDs(s.auto[k]), id)
		sort.Strings(l)
		s.auto[k] = joinIDs(l)
	}
}
func splitIDs(x string) []string {
	var out []string
	for _, p := range strings.Split(x, "<") {
		if p = strings.TrimSuffix(p, ">"); p != "" {
			out = append(out, p)
		}
	}
	return out
}
func joinIDs(l []string) string {
	var b strings.Builder
	last := ""
	for _, x := range l {
		if x != last {
			b.WriteString("<" + x + ">")
		}
		last = x
	}
	return b.String()
}
func unionIDs(a, b string) string {
	l := append(splitIDs(a), splitIDs(b)...)
	sort.Strings(l)
	return joinIDs(l)
}

type espExit struct {
	st  *estate
	ret *ssa.Return
	res []aval
}

type esp struct {
	p *Prog
	// load: a value read from memory the client gives a meaning to
	load func(st *estate, v ssa.Value) (aval, bool)
	// call: the client handles the call; it returns the successor states,
	// having set the result with setResult. nil: not handled.
	call func(e *esp, st *estate, ins ssa.CallInstruction, fnVal aval, args []aval) []*estate
	// eval: a value the client computes itself
	eval func(st *estate, v ssa.Value) (aval, bool)
	// instr: an event on any instruction
	instr func(st *estate, ins ssa.Instruction)
	// cond: a branch on a condition the engine knows nothing about
	cond func(st *estate, cond ssa.Value, pol bool)
	// inline: callee is entered
	inline func(f *ssa.Function) bool
	// keep: types whose values are tracked (nil: all)
	keep     func(types.Type) bool
	steps    int
	max      int
	overflow bool
	depth    int
	stack    []*ssa.Function
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	ids      map[ssa.Value]string
	pins     map[string]int
	noInt    bool
	// keepInt: loop counters followed exactly (lists written out)
	keepInt func(ph *ssa.Phi) bool
	cmps    map[string]ssa.Value
}

func (e *esp) id(v ssa.Value) string {
	if e.ids == nil {
		e.ids = map[ssa.Value]string{}
	}
	s, ok := e.ids[v]
	if !ok {
		s = fmt.Sprintf("%d", len(e.ids))
		e.ids[v] = s
	}
	return s
}

func tracked(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger) != 0 || u.Kind() == types.UntypedNil
	case *types.Signature:
		return true
	case *types.Slice:
		return true
	case *types.Interface, *types.Pointer, *types.Map, *types.Struct:
		return true
	}
	return false
}

func zeroOf(t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return avFalse
		}
		if u.Info()&types.IsInteger != 0 {
			return aval{k: 'I'}
		}
	case *types.Signature, *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		return avNil
	case *types.Struct:
		var fs []aval
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return aval{k: 'U', fs: fs}
	}
	return aval{}
}

func (e *esp) val(st *estate, v ssa.Value) aval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		if x.Value.Kind() == constant.Bool {
			return avBool(constant.BoolVal(x.Value))
		}
		if n, ok := constInt(x); ok {
			return aval{k: 'I', n: n}
		}
		return aval{}
	case *ssa.Function:
		return aval{k: 'C', fn: x}
	}
	a := st.env[envKey{v, -1}]
	if a.k == 'S' {
		if f, ok := st.facts[a.s]; ok && a.cond != nil {
			return avBool(f != a.neg)
		}
	}
	return a
}

func (e *esp) setResult(st *estate, ins ssa.CallInstruction, idx int, a aval) {
	v := ins.Value()
	if v == nil {
		return
	}
	if v.Call.Signature().Results().Len() == 1 {
		st.env[envKey{v, -1}] = a
	} else {
		st.env[envKey{v, idx}] = a
	}
}

// fresh drops the facts on a symbol about to be re-created.
func (e *esp) fresh(st *estate, sym string) {
	res := func(a aval) aval {
		if a.k == 'S' && a.s == sym {
			if f, ok := st.facts[sym]; ok {
				if a.cond != nil {
					return avBool(f != a.neg)
				}
			}
			if f, ok := st.facts["nil:"+sym]; ok {
				if f {
					return avNil
				}
				return avYes
			}
			return aval{}
		}
		return a
	}
	for k, v := range st.env {
		if v.k == 'S' {
			st.env[k] = res(v)
		}
	}
	for k, v := range st.cells {
		if v.k == 'S' {
			st.cells[k] = res(v)
		}
	}
	delete(st.facts, sym)
	delete(st.facts, "nil:"+sym)
}

// liveIn: per block, the values of fn needed from its start on.
func (e *esp) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if e.live == nil {
		e.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	if r := e.live[fn]; r != nil {
		return r
	}
	r := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		r[b] = map[ssa.Value]bool{}
	}
	var in func(b *ssa.BasicBlock, v ssa.Value)
	defIn := func(v ssa.Value) *ssa.BasicBlock {
		if i, ok := v.(ssa.Instruction); ok && i.Parent() == fn {
			return i.Block()
		}
		return nil
	}
	in = func(b *ssa.BasicBlock, v ssa.Value) {
		// v is needed at the start of b (after its phis)
		st := []*ssa.BasicBlock{b}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if r[x][v] {
				continue
			}
			r[x][v] = true
			if defIn(v) == x {
				// a phi of x, or unreachable: defined here
				continue
			}
			for _, p := range x.Preds {
				if defIn(v) != p {
					st = append(st, p)
				} else if _, isPhi := v.(*ssa.Phi); isPhi {
					st = append(st, p)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				for i, ed := range ph.Edges {
					p := b.Preds[i]
					if d := defIn(ed); d == p {
						if _, isPhi := ed.(*ssa.Phi); isPhi {
							in(p, ed)
						}
					} else {
						in(p, ed)
					}
				}
				continue
			}
			for _, op := range ins.Operands(nil) {
				v := *op
				if v == nil {
					continue
				}
				if d := defIn(v); d == b {
					if _, isPhi := v.(*ssa.Phi); isPhi {
						in(b, v)
					}
				} else {
					in(b, v)
				}
			}
		}
	}
	e.live[fn] = r
	return r
}

// prune drops values no longer needed at b.
func (e *esp) prune(st *estate, fn *ssa.Function, b *ssa.BasicBlock) {
	live := e.liveIn(fn)[b]
	for k := range st.env {
		switch k.v.(type) {
		case *ssa.FreeVar:
			continue
		}
		if !live[k.v] {
			delete(st.env, k)
		}
	}
	e.gc(st)
}

func (e *esp) gc(st *estate) {
	used := map[string]bool{}
	mark := func(a aval) {
		if a.k == 'S' {
			used[a.s] = true
			used["nil:"+a.s] = true
		}
	}
	for _, a := range st.env {
		mark(a)
	}
	for _, a := range st.cells {
		mark(a)
	}
	for f := range st.facts {
		if strings.HasPrefix(f, "cmp:") {
			continue // dropped with the function it belongs to
		}
		if e.pins[f] == 0 && e.pins[strings.TrimPrefix(f, "nil:")] == 0 && !used[f] && !strings.HasPrefix(f, "!") && !strings.HasPrefix(f, "nil:!") {
			delete(st.facts, f)
		}
	}
}

// Exec runs fn from its entry.
func (e *esp) Exec(fn *ssa.Function, st *estate, args []aval, binds []aval) []espExit {
	if e.max == 0 {
		e.max = 400000
	}
	outer := st.env
	outerDefers := st.defers
	st = st.clone()
	st.env = map[envKey]aval{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[envKey{p, -1}] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			st.env[envKey{f, -1}] = binds[i]
		}
	}
	var pinned []string
	for _, a := range outer {
		if a.k == 'S' {
			pinned = append(pinned, a.s)
		}
	}
	if e.pins == nil {
		e.pins = map[string]int{}
	}
	for _, s := range pinned {
		e.pins[s]++
	}
	defer func() {
		for _, s := range pinned {
			e.pins[s]--
		}
	}()
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	type item struct {
		b  *ssa.BasicBlock
		st *estate
	}
	var exits []espExit
	exitSeen := map[string]bool{}
	seen := map[string]bool{}
	work := []item{{fn.Blocks[0], st}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.prune(it.st, fn, it.b)
		k := fmt.Sprintf("%d|%s", it.b.Index, it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		e.steps++
		if espDebug != nil {
			espDebug(fn, it.b, k)
		}
		if e.steps > e.max {
			e.overflow = true
			return exits
		}
		states := []*estate{it.st}
		for i, ins := range it.b.Instrs {
			if _, isPhi := ins.(*ssa.Phi); isPhi {
				continue
			}
			last := i == len(it.b.Instrs)-1
			var next []*estate
			for _, s := range states {
				if last {
					switch x := ins.(type) {
					case *ssa.Return:
						if e.instr != nil {
							e.instr(s, ins)
						}
						var res []aval
						for _, rv := range x.Results {
							res = append(res, e.val(s, rv))
						}
						ns := s.clone()
						key := fmt.Sprintf("%p", x)
						for _, a := range res {
							key += a.key()
						}
						ns.env = map[envKey]aval{}
						ns.defers = nil
						for ck := range ns.cells {
							if al, ok := ck.a.(*ssa.Alloc); ok && !al.Heap && al.Parent() == fn {
								delete(ns.cells, ck)
							}
						}
						for i, rv := range res {
							ns.env[envKey{nil, i}] = rv
						}
						e.gc(ns)
						for f := range ns.facts {
							if v := e.cmps[f]; v != nil && v.Parent() == fn {
								delete(ns.facts, f)
							}
						}
						ns.env = map[envKey]aval{}
						key += ns.key()
						if !exitSeen[key] {
							exitSeen[key] = true
							ns.env = make(map[envKey]aval, len(outer))
							for k, v := range outer {
								ns.env[k] = v
							}
							ns.defers = outerDefers
							exits = append(exits, espExit{ns, x, res})
						}
						continue
					case *ssa.If:
						for si, succ := range it.b.Succs {
							pol := si == 0
							ns := s.clone()
							if !e.assume(ns, x.Cond, pol) {
								continue
							}
							e.enter(ns, it.b, succ)
							work = append(work, item{succ, ns})
						}
						continue
					case *ssa.Jump:
						ns := s
						e.enter(ns, it.b, it.b.Succs[0])
						work = append(work, item{it.b.Succs[0], ns})
						continue
					case *ssa.Panic:
						if e.instr != nil {
							e.instr(s, ins)
						}
						continue
					}
				}
				next = append(next, e.step(s, ins)...)
			}
			states = next
		}
	}
	return exits
}

func (e *esp) enter(st *estate, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	type set struct {
		k envKey
		a aval
	}
	var sets []set
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			continue
		}
		a := e.val(st, ph.Edges[idx])
		if (a.k == 'I' || a.k == 'G') && to.Dominates(from) && (e.keepInt == nil || !e.keepInt(ph)) {
			a = aval{} // one iteration is enough
		}
		sets = append(sets, set{envKey{ph, -1}, a})
	}
	for _, s := range sets {
		st.env[s.k] = s.a
	}
}

// assume restricts st to cond == pol; false if impossible.
func (e *esp) assume(st *estate, cond ssa.Value, pol bool) bool {
	a := e.val(st, cond)
	switch a.k {
	case 'T':
		return pol
	case 'F':
		return !pol
	case 'S':
		want := pol != a.neg
		if f, ok := st.facts[a.s]; ok {
			if f != want {
				return false
			}
		} else {
			st.facts[a.s] = want
		}
		if e.cond != nil {
			if a.cond != nil {
				e.cond(st, a.cond, want != a.cneg)
			} else {
				e.cond(st, cond, pol)
			}
		}
		return st.get("!dead") == ""
	}
	if e.cond != nil {
		e.cond(st, cond, pol)
	}
	return st.get("!dead") == ""
}

func (e *esp) step(st *estate, ins ssa.Instruction) []*estate {
	if e.instr != nil {
		e.instr(st, ins)
	}
	set := func(v ssa.Value, a aval) {
		if a.k != 0 && a.k != 'P' && e.keep != nil && !e.keep(v.Type()) {
			a = aval{}
		}
		st.env[envKey{v, -1}] = a
	}
	if e.eval != nil {
		if v, ok := ins.(ssa.Value); ok {
			if a, ok := e.eval(st, v); ok {
				st.env[envKey{v, -1}] = a
				return []*estate{st}
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		k := cellKey{x, -1}
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		for ck := range st.cells {
			if ck.a == ssa.Value(x) {
				delete(st.cells, ck)
			}
		}
		z := zeroOf(elem)
		if z.k == 'U' {
			sT := elem.Underlying().(*types.Struct)
			for i, f := range z.fs {
				if e.keep == nil || e.keep(sT.Field(i).Type()) {
					st.cells[cellKey{x, i}] = f
				}
			}
		} else if z.k != 0 && (e.keep == nil || e.keep(elem)) {
			st.cells[k] = z
		}
		set(x, aval{k: 'P', cell: k})
	case *ssa.FieldAddr:
		a := e.val(st, x.X)
		if a.k == 'P' && a.cell.f == -1 {
			set(x, aval{k: 'P', cell: cellKey{a.cell.a, x.Field}})
		}
	case *ssa.Store:
		a := e.val(st, x.Addr)
		if a.k == 'P' {
			v := e.val(st, x.Val)
			if v.k == 'U' && a.cell.f == -1 {
				for i, f := range v.fs {
					st.cells[cellKey{a.cell.a, i}] = f
				}
			} else {
				if _, isS := x.Val.Type().Underlying().(*types.Struct); isS && a.cell.f == -1 {
					for ck := range st.cells {
						if ck.a == a.cell.a {
							delete(st.cells, ck)
						}
					}
				}
				if e.keep != nil && !e.keep(x.Val.Type()) && v.k != 'P' {
					v = aval{}
				}
				st.cells[a.cell] = v
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if e.load != nil {
				if a, ok := e.load(st, x); ok {
					set(x, a)
					return []*estate{st}
				}
			}
			a := e.val(st, x.X)
			if a.k == 'P' {
				if w := e.wild(a.cell.a); w {
					set(x, aval{})
					return []*estate{st}
				}
				if sT, isS := x.Type().Underlying().(*types.Struct); isS && a.cell.f == -1 {
					var fs []aval
					for i := 0; i < sT.NumFields(); i++ {
						fs = append(fs, st.cells[cellKey{a.cell.a, i}])
					}
					set(x, aval{k: 'U', fs: fs})
				} else {
					set(x, st.cells[a.cell])
				}
				return []*estate{st}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				l := e.val(st, ia.X)
				if l.k == 'Y' && l.s != "" {
					set(x, aval{k: 'E', s: l.s})
					return []*estate{st}
				}
			}
			if _, isB := x.Type().Underlying().(*types.Basic); isB && types.Identical(x.Type().Underlying(), types.Typ[types.Bool]) {
				e.symBool(st, x)
				return []*estate{st}
			}
			set(x, aval{})
		case token.NOT:
			a := e.val(st, x.X)
			switch a.k {
			case 'T':
				set(x, avFalse)
			case 'F':
				set(x, avTrue)
			case 'S':
				a.neg = !a.neg
				set(x, a)
			default:
				set(x, aval{})
			}
		default:
			set(x, aval{})
		}
	case *ssa.Field:
		if e.load != nil {
			if a, ok := e.load(st, x); ok {
				set(x, a)
				return []*estate{st}
			}
		}
		a := e.val(st, x.X)
		if a.k == 'U' && x.Field < len(a.fs) {
			set(x, a.fs[x.Field])
		} else {
			set(x, aval{})
		}
	case *ssa.BinOp:
		set(x, e.binop(st, x))
	case *ssa.ChangeType:
		set(x, e.val(st, x.X))
	case *ssa.ChangeInterface:
		set(x, e.val(st, x.X))
	case *ssa.Convert:
		set(x, e.val(st, x.X))
	case *ssa.MakeInterface:
		if e.keep == nil {
			set(x, avYes)
		}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		set(ins.(ssa.Value), aval{})
	case *ssa.MakeClosure:
		set(x, aval{k: 'C', mc: x, fn: x.Fn.(*ssa.Function)})
	case *ssa.Slice:
		a := e.val(st, x.X)
		if a.k == 'P' {
			// array backing: collect the elements
			ids := ""
			all := true
			for _, el := range spread(x) {
				ea := e.val(st, el)
				switch ea.k {
				case 'C':
					ids = unionIDs(ids, "<"+e.closID(ea)+">")
				case 'E':
					ids = unionIDs(ids, ea.s)
				case 'S':
					ids = unionIDs(ids, "<"+ea.s+">")
				default:
					all = false
				}
			}
			_ = all
			if n := arrayLen(x.X.Type()); n > 0 {
				set(x, aval{k: 'Y', s: ids})
			} else {
				set(x, avNil)
			}
		} else if x.Low == nil && x.High == nil {
			set(x, a)
		} else if a.k == 'Y' && a.s != "" {
			set(x, aval{})
		} else {
			set(x, aval{})
		}
	case *ssa.Extract:
		a := st.env[envKey{x.Tuple, x.Index}]
		if a.k == 0 {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				e.symBool(st, x)
				return []*estate{st}
			}
		}
		set(x, a)
	case *ssa.Defer:
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], x)
	case *ssa.RunDefers:
		states := []*estate{st}
		ds := st.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*estate
			for _, s := range states {
				s.defers = ds[:i]
				next = append(next, e.doCall(s, ds[i])...)
			}
			states = next
		}
		return states
	case *ssa.Call:
		return e.doCall(st, x)
	case *ssa.Go:
		return []*estate{st}
	case ssa.Value:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			e.symBool(st, x)
		} else {
			set(x, aval{})
		}
	}
	return []*estate{st}
}

func arrayLen(t types.Type) int64 {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			return at.Len()
		}
	}
	return 0
}

func (e *esp) closID(a aval) string {
	if a.mc != nil {
		return "c" + e.id(a.mc)
	}
	return "c" + e.id(a.fn)
}

// symBool gives an unknown boolean an identity, so that later tests of it
// agree with each other.
func (e *esp) symBool(st *estate, v ssa.Value) {
	s := "b" + e.id(v)
	e.fresh(st, s)
	st.env[envKey{v, -1}] = aval{k: 'S', s: s, cond: v}
}

// wild: the variable may be written by code the engine does not follow.
func (e *esp) wild(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return true
	}
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		f := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if b != ssa.Value(a) {
				continue
			}
			if refs := f.FreeVars[i].Referrers(); refs != nil {
				for _, u := range *refs {
					if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(f.FreeVars[i]) {
						inl := false
						for _, g := range e.stack {
							if g == f {
								inl = true
							}
						}
						if !inl && !onlyDirectlyCalled(mc) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// onlyDirectlyCalled: the closure is only called (or deferred) by the
// function making it, so its writes happen where the engine sees them.
func onlyDirectlyCalled(mc *ssa.MakeClosure) bool {
	if mc.Referrers() == nil {
		return true
	}
	for _, r := range *mc.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			if x.Call.Value != ssa.Value(mc) {
				return false
			}
		case *ssa.Defer:
			if x.Call.Value != ssa.Value(mc) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (e *esp) binop(st *estate, x *ssa.BinOp) aval {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	isEq := x.Op == token.EQL || x.Op == token.NEQ
	unknown := func() aval {
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			e.symBool(st, x)
			return st.env[envKey{x, -1}]
		}
		return aval{}
	}
	if isEq && (isNilConst(x.X) || isNilConst(x.Y)) {
		o := a
		if isNilConst(x.X) {
			o = b
		}
		switch o.k {
		case 'N':
			return avBool(x.Op == token.EQL)
		case 'C', 'E', 'P':
			return avBool(x.Op == token.NEQ)
		case 'Y':
			return avBool(x.Op == token.NEQ)
		case 'S':
			if o.cond == nil {
				s := "nil:" + o.s
				if f, ok := st.facts[s]; ok {
					return avBool(f == (x.Op == token.EQL))
				}
				return aval{k: 'S', s: s, neg: x.Op == token.NEQ, cneg: x.Op == token.NEQ, cond: x}
			}
		}
		return unknown()
	}
	if isEq && isBoolT(x.X.Type()) {
		for _, pr := range [][2]aval{{a, b}, {b, a}} {
			if pr[1].k == 'T' || pr[1].k == 'F' {
				same := (pr[1].k == 'T') == (x.Op == token.EQL)
				switch pr[0].k {
				case 'T':
					return avBool(same)
				case 'F':
					return avBool(!same)
				case 'S':
					r := pr[0]
					if !same {
						r.neg = !r.neg
					}
					return r
				}
			}
		}
		return unknown()
	}
	if e.noInt {
		return unknown()
	}
	// integers
	if r, ok := e.cmpFact(x, a, b); ok {
		return r
	}
	lo := func(a aval) (int64, bool) { return a.n, a.k == 'I' || a.k == 'G' }
	switch x.Op {
	case token.ADD, token.SUB:
		if b.k == 'I' {
			d := b.n
			if x.Op == token.SUB {
				d = -d
			}
			if a.k == 'I' || a.k == 'G' {
				n := a.n + d
				if n < -2 || n > 4 {
					return aval{}
				}
				return aval{k: a.k, n: n}
			}
		}
		return aval{}
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		op := x.Op
		if a.k == 'I' && b.k == 'I' {
			return avBool(cmpInt(op, a.n, b.n))
		}
		al, aok := lo(a)
		bl, bok := lo(b)
		if aok && bok {
			switch {
			case a.k == 'G' && b.k == 'I':
				switch op {
				case token.GTR:
					if al > bl {
						return avTrue
					}
				case token.GEQ:
					if al >= bl {
						return avTrue
					}
				case token.LSS:
					if al >= bl {
						return avFalse
					}
				case token.LEQ:
					if al > bl {
						return avFalse
					}
				case token.EQL:
					if al > bl {
						return avFalse
					}
				case token.NEQ:
					if al > bl {
						return avTrue
					}
				}
			case a.k == 'I' && b.k == 'G':
				switch op {
				case token.LSS:
					if al < bl {
						return avTrue
					}
				case token.LEQ:
					if al <= bl {
						return avTrue
					}
				case token.GTR:
					if al <= bl {
						return avFalse
					}
				case token.GEQ:
					if al < bl {
						return avFalse
					}
				case token.EQL:
					if al < bl {
						return avFalse
					}
				case token.NEQ:
					if al < bl {
						return avTrue
					}
				}
			}
		}
	}
	return unknown()
}

// cmpFact: the comparison of one unknown integer with a constant; the same
// integer compared again agrees with the outcome.
func (e *esp) cmpFact(x *ssa.BinOp, a, b aval) (aval, bool) {
	v, c, op := x.X, b, x.Op
	if a.k == 'I' {
		v, c = x.Y, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
		a = b
	}
	if a.k != 0 || c.k != 'I' {
		return aval{}, false
	}
	v = singleStored(v)
	if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return aval{}, false
	}
	ins, isIns := v.(ssa.Instruction)
	if isIns && (ins.Block() == nil || blockInLoop(ins.Block())) {
		return aval{}, false
	}
	n, neg, rel := c.n, false, "<="
	switch op {
	case token.LEQ:
	case token.LSS:
		n--
	case token.GTR:
		neg = true
	case token.GEQ:
		n--
		neg = true
	case token.EQL:
		rel = "=="
	case token.NEQ:
		rel = "=="
		neg = true
	default:
		return aval{}, false
	}
	s := fmt.Sprintf("cmp:%s%s%d", e.id(v), rel, n)
	if e.cmps == nil {
		e.cmps = map[string]ssa.Value{}
	}
	e.cmps[s] = v
	return aval{k: 'S', s: s, neg: neg, cneg: neg, cond: x}, true
}

// singleStored: the value of a variable assigned once.
func singleStored(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return v
	}
	var val ssa.Value
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(a) || val != nil {
				return v
			}
			val = x.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b != ssa.Value(a) || f.FreeVars[i].Referrers() == nil {
					continue
				}
				for _, ur := range *f.FreeVars[i].Referrers() {
					if l, ok := ur.(*ssa.UnOp); !ok || l.Op != token.MUL {
						return v
					}
				}
			}
		default:
			return v
		}
	}
	if val == nil {
		return v
	}
	return val
}

func blockInLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	case token.EQL:
		return a == b
	}
	return a != b
}

func (e *esp) doCall(st *estate, ins ssa.CallInstruction) []*estate {
	com := ins.Common()
	var fv aval
	if !com.IsInvoke() {
		if b, ok := com.Value.(*ssa.Builtin); ok {
			return e.builtin(st, ins, b)
		}
		fv = e.val(st, com.Value)
	}
	var args []aval
	for _, a := range com.Args {
		args = append(args, e.val(st, a))
	}
	if e.call != nil {
		if r := e.call(e, st, ins, fv, args); r != nil {
			return r
		}
	}
	f := com.StaticCallee()
	if f == nil && fv.k == 'C' {
		f = fv.fn
	}
	if f != nil && len(f.Blocks) > 0 && len(e.stack) < 12 && (e.inline == nil || e.inline(f) || f.Parent() != nil) && !e.onStack(f) {
		var binds []aval
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, e.val(st, b))
			}
		} else if fv.mc != nil {
			binds = e.Binds(fv)
		}
		var out []*estate
		for _, ex := range e.Exec(f, st, args, binds) {
			ns := ex.st
			for i, r := range ex.res {
				if r.k == 'S' && r.cond != nil {
					if f, ok := ns.facts[r.s]; ok {
						r = avBool(f != r.neg)
					} else if v := ins.Value(); v != nil {
						s := fmt.Sprintf("r%s.%d", e.id(v), i)
						e.fresh(ns, s)
						r.s = s
					}
				}
				e.setResult(ns, ins, i, r)
			}
			out = append(out, ns)
		}
		return out
	}
	// unknown callee: forget what it may write
	for i, a := range args {
		if a.k == 'P' {
			for ck := range st.cells {
				if ck.a == a.cell.a && (a.cell.f == -1 || a.cell.f == ck.f) {
					delete(st.cells, ck)
				}
			}
		}
		_ = i
	}
	if v := ins.Value(); v != nil {
		for k := range st.env {
			if k.v == ssa.Value(v) {
				delete(st.env, k)
			}
		}
		if v.Call.Signature().Results().Len() == 1 && isBoolT(v.Type()) {
			e.symBool(st, v)
		}
	}
	return []*estate{st}
}

// Binds: the captured variables of a closure, by address.
func (e *esp) Binds(fv aval) []aval {
	var binds []aval
	if fv.mc == nil {
		return nil
	}
	for _, b := range fv.mc.Bindings {
		switch x := b.(type) {
		case *ssa.Alloc:
			binds = append(binds, aval{k: 'P', cell: cellKey{x, -1}})
		default:
			binds = append(binds, aval{})
		}
	}
	return binds
}

func (e *esp) onStack(f *ssa.Function) bool {
	for _, g := range e.stack {
		if g == f {
			return true
		}
	}
	return false
}

func (e *esp) builtin(st *estate, ins ssa.CallInstruction, b *ssa.Builtin) []*estate {
	v := ins.Value()
	if v == nil {
		return []*estate{st}
	}
	args := ins.Common().Args
	switch b.Name() {
	case "append":
		x := e.val(st, args[0])
		y := aval{k: 'N'}
		if len(args) > 1 {
			y = e.val(st, args[1])
		}
		switch {
		case x.k == 'N' && y.k == 'N':
			st.env[envKey{v, -1}] = avNil
		case x.k == 'Y' || y.k == 'Y':
			st.env[envKey{v, -1}] = aval{k: 'Y', s: unionIDs(x.s, y.s)}
		default:
			st.env[envKey{v, -1}] = aval{}
		}
	case "len":
		x := e.val(st, args[0])
		switch x.k {
		case 'N':
			st.env[envKey{v, -1}] = aval{k: 'I'}
		case 'Y':
			st.env[envKey{v, -1}] = aval{k: 'G', n: 1}
		default:
			st.env[envKey{v, -1}] = aval{}
		}
	default:
		st.env[envKey{v, -1}] = aval{}
	}
	return []*estate{st}
}

var espDebug func(fn *ssa.Function, b *ssa.BasicBlock, key string)
