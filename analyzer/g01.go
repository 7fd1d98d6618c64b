package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Same input, same output: nothing that is generated depends on the order in
// which a map is gone through, or on the clock or on chance.

func runG01(c *Ctx) {
	c.Rule("map-order", "what a loop over a map does is the same in every order")
	c.Rule("sorted", "a list gathered from a map is put into an order that leaves nothing open before it is used")
	c.Rule("clock", "the time and random numbers reach no generated source, file name or decision")
	p := c.Root()
	for _, f := range p.Funcs {
		if !deterministicScope(f) {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			if r, ok := ins.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					m := &commuter{c: c, p: p}
					m.loop(f, r)
				}
			}
			if call, ok := ins.(*ssa.Call); ok {
				if isMapRanger(call) {
					c.Obl("map-order", shortFn(f))
					c.Viol("map-order", c.Pos(p, call.Pos()), shortFn(f), "%s goes through a map in no particular order", calleeName(call))
				}
				if isVolatile(call) {
					volatileUse(c, p, f, call)
				}
			}
		})
	}
	c.Floor("map-order", 5)
	c.Floor("sorted", 1)
}

// deterministicScope: the function takes part in instrumenting or building.
func deterministicScope(f *ssa.Function) bool {
	path := fnPkgPath(f)
	if !isRepoPath(path) {
		return false
	}
	rel := strings.TrimPrefix(path, repoModule+"/")
	switch {
	case rel == "cmd/xgo", rel == "cmd/xgo/exec_tool", rel == "cmd/xgo/pathsum":
		return true
	case strings.HasPrefix(rel, "instrument/"):
		return !strings.Contains(rel, "/example")
	}
	for _, s := range []string{"edit", "filecopy", "fileutil", "goinfo", "transform", "pattern", "strutil", "goparse", "testconfig", "cmd", "flag", "osinfo", "gitgoroot"} {
		if rel == "support/"+s || strings.HasPrefix(rel, "support/"+s+"/") {
			return true
		}
	}
	return false
}

const repoModule = "github.com/xhd2015/xgo"

func isMapRanger(call *ssa.Call) bool {
	switch calleeName(call) {
	case "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(*sync.Map).Range", "maps.Keys", "maps.Values", "maps.All",
		"(*os.File).Readdir", "(*os.File).Readdirnames", "(*os.File).ReadDir":
		return true
	}
	return false
}

type commuter struct {
	c      *Ctx
	p      *Prog
	busy   map[*ssa.Function]bool
	effect bool // something was written
	// the structs appended to the list at hand, by field
	structs []map[int]ssa.Value
}

// seeds: what identifies the iteration: keys, and values belonging to them.
type seeds struct {
	key map[ssa.Value]bool
	val map[ssa.Value]bool
	// fresh: the value belongs to this iteration alone
	scope func(b *ssa.BasicBlock) bool
}

func (s *seeds) derived(v ssa.Value, onlyKey bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if s.key[v] || !onlyKey && s.val[v] {
		return true
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if !s.scope(x.Block()) {
			return false
		}
		// what was stored in it
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == v && s.derived(y.Val, onlyKey, seen) {
					return true
				}
			case *ssa.IndexAddr, *ssa.FieldAddr:
				for _, r2 := range *y.(ssa.Value).Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == y.(ssa.Value) && s.derived(st.Val, onlyKey, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	if !s.scope(ins.Block()) {
		return false
	}
	for _, o := range ins.Operands(nil) {
		if *o != nil && s.derived(*o, onlyKey, seen) {
			return true
		}
	}
	return false
}

func (s *seeds) keyed(v ssa.Value) bool { return s.derived(v, true, map[ssa.Value]bool{}) }
func (s *seeds) owned(v ssa.Value) bool { return s.derived(v, false, map[ssa.Value]bool{}) }

// local: the address is of a variable made in scope.
func (s *seeds) local(addr ssa.Value) bool {
	for d := 0; d < 10; d++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.Alloc:
			return s.scope(x.Block())
		case *ssa.MakeSlice:
			return s.scope(x.Block())
		case *ssa.MakeMap:
			return s.scope(x.Block())
		default:
			return false
		}
	}
	return false
}

func (m *commuter) loop(f *ssa.Function, r *ssa.Range) {
	c, p := m.c, m.p
	c.Obl("map-order", shortFn(f)+" "+r.X.Name())
	where := c.Pos(p, r.Pos())
	var h *ssa.BasicBlock
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			h, next = n.Block(), n
		}
	}
	if h == nil {
		return
	}
	in := func(b *ssa.BasicBlock) bool { return b == h || inLoop(b, h) }
	s := &seeds{key: map[ssa.Value]bool{}, val: map[ssa.Value]bool{}, scope: in}
	for _, u := range *next.Referrers() {
		ex, ok := u.(*ssa.Extract)
		if !ok {
			continue
		}
		switch ex.Index {
		case 1:
			s.key[ex] = true
		case 2:
			s.val[ex] = true
		}
	}
	bad := func(pos token.Pos, format string, args ...interface{}) {
		w := where
		if pos.IsValid() {
			w = c.Pos(p, pos)
		}
		c.Viol("map-order", w, shortFn(f), format, args...)
	}
	m.busy = map[*ssa.Function]bool{f: true}
	why, at := m.body(f, in, s, 0)
	if why != "" {
		bad(at, "going through a map: %s", why)
		return
	}
	if !m.carried(f, h, in, s, bad) {
		return
	}
	// left early
	var errs []string
	for _, b := range f.Blocks {
		if !in(b) || b == h {
			continue
		}
		for _, t := range b.Succs {
			if in(t) {
				continue
			}
			if w := m.exit(f, h, b, t, in, s); w != "" {
				errs = append(errs, w)
			}
		}
	}
	if len(errs) > 0 {
		bad(r.Pos(), "going through a map: %s", errs[0])
	}
	// values of the last iteration
	for _, b := range f.Blocks {
		if !in(b) {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, ok := v.(*ssa.Phi); ok && b == h {
				continue
			}
			if al, ok := v.(*ssa.Alloc); ok && al.Heap {
				continue
			}
			for _, u := range *v.Referrers() {
				if u.Block() != nil && !in(u.Block()) && reachableFrom(h, u.Block(), in) {
					bad(u.Pos(), "a value of whichever element comes last is used after the loop")
					return
				}
			}
		}
	}
}

// reachableFrom: b comes after the loop ends by itself.
func reachableFrom(h, b *ssa.BasicBlock, in func(*ssa.BasicBlock) bool) bool {
	for _, s := range h.Succs {
		if !in(s) && (s == b || blockLeadsTo(s, b)) {
			return true
		}
	}
	return false
}

func blockLeadsTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// exit: the loop is left before all elements were seen.
func (m *commuter) exit(f *ssa.Function, h, b, t *ssa.BasicBlock, in func(*ssa.BasicBlock) bool, s *seeds) string {
	p := m.p
	inv := func(v ssa.Value) bool { return !s.inLoop(v) }
	ei := errIndex(f.Signature)
	afterH := reachableFrom(h, t, in)
	if afterH {
		// a break
		if m.effect {
			return "it is left once one is found, with others dealt with or not"
		}
		for _, i := range t.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, q := range t.Preds {
				if q == b && !inv(ph.Edges[k]) {
					return "whichever element is met first is picked"
				}
			}
		}
		for _, i := range h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for _, u := range *ph.Referrers() {
				if !in(u.Block()) {
					return "it is left once one is found, with others counted or not"
				}
			}
		}
		return ""
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x, from *ssa.BasicBlock) string
	walk = func(x, from *ssa.BasicBlock) string {
		if seen[x] {
			return ""
		}
		seen[x] = true
		if len(x.Instrs) == 0 {
			return ""
		}
		switch r := x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.Return:
			if ei >= 0 && ei < len(r.Results) && errSet(p, r.Results[ei]) {
				return ""
			}
			for _, v := range r.Results {
				if !inv(v) {
					return "whichever element is met first is answered"
				}
			}
			if m.effect {
				return "it is left once one is found, with others dealt with or not"
			}
		}
		for _, n := range x.Succs {
			if w := walk(n, x); w != "" {
				return w
			}
		}
		return ""
	}
	return walk(t, b)
}

// errSet: not the nil error.
func errSet(p *Prog, v ssa.Value) bool {
	return !isNilConst(v)
}

// inLoop: v depends on what the loop computes.
func (s *seeds) inLoop(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if s.key[v] || s.val[v] {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if ph, ok := v.(*ssa.Phi); ok && s.scope(ph.Block()) {
			return true
		}
		for _, o := range ins.Operands(nil) {
			if *o != nil && walk(*o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// carried: what goes from one iteration to the next.
func (m *commuter) carried(f *ssa.Function, h *ssa.BasicBlock, in func(*ssa.BasicBlock) bool, s *seeds, bad func(token.Pos, string, ...interface{})) bool {
	for _, i := range h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		var leaves []ssa.Value
		seen := map[ssa.Value]bool{}
		var visit func(v ssa.Value)
		visit = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			if q, ok := v.(*ssa.Phi); ok && in(q.Block()) {
				if q == ph {
					return
				}
				for _, e := range q.Edges {
					visit(e)
				}
				return
			}
			leaves = append(leaves, v)
		}
		for k, q := range h.Preds {
			if h.Dominates(q) {
				visit(ph.Edges[k])
			}
		}
		var consts []*ssa.Const
		list := false
		m.structs = nil
		var elems [][]ssa.Value
		for _, v := range leaves {
			switch x := v.(type) {
			case *ssa.Const:
				consts = append(consts, x)
				continue
			case *ssa.BinOp:
				switch x.Op {
				case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
					if isStringType(x.Type()) {
						bad(x.Pos(), "going through a map: text is put together in whichever order the elements come")
						return false
					}
					if (m.same(x.X, ph, in) && !dependsOnPhi(x.Y, ph)) || (m.same(x.Y, ph, in) && !dependsOnPhi(x.X, ph)) {
						continue
					}
				case token.SUB:
					if m.same(x.X, ph, in) && !dependsOnPhi(x.Y, ph) {
						continue
					}
				}
			case *ssa.Call:
				if _, ok := isBuiltinCall(x, "append"); ok {
					if es, ok := m.appendChain(x, ph, in); ok {
						list = true
						elems = append(elems, es...)
						continue
					}
				}
				if _, ok := isBuiltinCall(x, "max"); ok {
					continue
				}
				if _, ok := isBuiltinCall(x, "min"); ok {
					continue
				}
			}
			if !s.inLoop(v) {
				// the same each time
				if mm, ok := v.(*ssa.MakeMap); !ok || !in(mm.Block()) {
					continue
				}
			}
			if mm, ok := v.(*ssa.MakeMap); ok && whenNil(mm.Block(), func(v ssa.Value) bool { return m.same(v, ph, in) }) {
				continue // made on first use
			}
			if m.extremum(v, ph, in) {
				continue
			}
			bad(v.Pos(), "going through a map: what is kept depends on which element comes last")
			return false
		}
		for _, k := range consts {
			if k.Value != nil && !sameConst(k, consts[0]) {
				bad(ph.Pos(), "going through a map: what is kept depends on which element comes last")
				return false
			}
		}
		if list {
			if len(consts) > 0 {
				bad(ph.Pos(), "going through a map: what is gathered depends on which element comes last")
				return false
			}
			m.list(f, ph, in, s, elems, bad)
		}
	}
	return true
}

// same: v is what was carried in.
func (m *commuter) same(v ssa.Value, ph *ssa.Phi, in func(*ssa.BasicBlock) bool) bool {
	seen := map[ssa.Value]bool{}
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ssa.Value(ph) || seen[v] {
			return
		}
		seen[v] = true
		if q, is := v.(*ssa.Phi); is && in(q.Block()) {
			for _, e := range q.Edges {
				walk(e)
			}
			return
		}
		if x, is := v.(*ssa.BinOp); is && x.Op == token.ADD && !isStringType(x.Type()) {
			walk(x.X)
			return
		}
		ok = false
	}
	walk(v)
	return ok
}

func dependsOnPhi(v ssa.Value, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == ssa.Value(ph) {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range ins.Operands(nil) {
			if *o != nil && walk(*o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// appendChain: appends to what was carried in, and the elements they add.
func (m *commuter) appendChain(x *ssa.Call, ph *ssa.Phi, in func(*ssa.BasicBlock) bool) ([][]ssa.Value, bool) {
	var out [][]ssa.Value
	seen := map[ssa.Value]bool{}
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ssa.Value(ph) || seen[v] {
			return
		}
		seen[v] = true
		if q, is := v.(*ssa.Phi); is && in(q.Block()) {
			for _, e := range q.Edges {
				walk(e)
			}
			return
		}
		call, is := v.(*ssa.Call)
		if !is {
			ok = false
			return
		}
		if _, is := isBuiltinCall(call, "append"); !is {
			ok = false
			return
		}
		out = append(out, variadicArgs(call.Common().Args[1]))
		m.structs = append(m.structs, appendedStructs(call.Common().Args[1])...)
		walk(call.Common().Args[0])
	}
	walk(x)
	return out, ok
}

// extremum: v replaces what was carried when it compares less or greater.
func (m *commuter) extremum(v ssa.Value, ph *ssa.Phi, in func(*ssa.BasicBlock) bool) bool {
	b, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsNumeric|types.IsString) == 0 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		x, ok := r.(*ssa.BinOp)
		if !ok || !in(x.Block()) {
			continue
		}
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if (x.X == v && x.Y == ssa.Value(ph) || x.Y == v && x.X == ssa.Value(ph)) && controlsPhi(x, ph) {
				return true
			}
		}
	}
	return false
}

func controlsPhi(x *ssa.BinOp, ph *ssa.Phi) bool {
	for _, r := range *x.Referrers() {
		if _, ok := r.(*ssa.If); ok {
			return true
		}
	}
	return false
}

// list: a list gathered in map order is sorted before it is used, or its
// order means nothing.
func (m *commuter) list(f *ssa.Function, ph *ssa.Phi, in func(*ssa.BasicBlock) bool, s *seeds, elems [][]ssa.Value, bad func(token.Pos, string, ...interface{})) {
	c, p := m.c, m.p
	c.Obl("sorted", shortFn(f)+" "+ph.Comment)
	pairs := true
	for _, es := range elems {
		if len(es) == 0 {
			pairs = false
		}
		for _, e := range es {
			if e == nil || !m.isPair(e, s) {
				pairs = false
			}
		}
	}
	if pairs {
		return
	}
	// the uses after the loop
	var uses []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if in(r.Block()) {
				continue
			}
			switch x := r.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
				walk(x.(ssa.Value))
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					// a variable shared with a closure
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
							walk(u)
						}
					}
					continue
				}
				uses = append(uses, r)
			default:
				uses = append(uses, r)
			}
		}
	}
	walk(ph)
	m.ordered(f, ph.Pos(), uses, elems, s, bad)
	_ = p
}

// ordered: the uses of a gathered list come after it was sorted.
func (m *commuter) ordered(f *ssa.Function, pos token.Pos, uses []ssa.Instruction, elems [][]ssa.Value, s *seeds, bad func(token.Pos, string, ...interface{})) {
	var sorted ssa.Instruction
	for _, u := range uses {
		call, ok := u.(*ssa.Call)
		if !ok {
			continue
		}
		n := calleeName(call)
		if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
			if w := m.total(call, elems, s); w != "" {
				m.c.Viol("sorted", m.c.Pos(m.p, call.Pos()), shortFn(f), "%s", w)
				return
			}
			sorted = call
		}
	}
	for _, u := range uses {
		if u == sorted {
			continue
		}
		if call, ok := u.(*ssa.Call); ok {
			if _, ok := isBuiltinCall(call, "len"); ok {
				continue
			}
			if _, ok := isBuiltinCall(call, "cap"); ok {
				continue
			}
			if calleeName(call) == "strings.NewReplacer" && m.separated(elems, s) {
				continue
			}
			if isLogging(call) {
				continue
			}
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if sorted != nil && (dominatesIns(sorted, u) || afterSortOfMany(sorted, u)) {
			continue
		}
		m.c.Viol("sorted", m.c.Pos(m.p, u.Pos()), shortFn(f), "a list gathered from a map is used in whichever order the elements came")
		return
	}
}

// afterSortOfMany: u comes after the sort, which is left out only for lists
// of one element.
func afterSortOfMany(sorted, u ssa.Instruction) bool {
	b := sorted.Block()
	if len(b.Preds) != 1 {
		return false
	}
	q := b.Preds[0]
	iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
	if !ok || !q.Dominates(u.Block()) || u.Block() == q {
		return false
	}
	_, op, k, ok := lenCompare(iff.Cond, q.Succs[0] == b)
	return ok && (op == token.GTR && k <= 1 || op == token.GEQ && k <= 2)
}

// isPair: KEY=value, with the key of the iteration.
func (m *commuter) isPair(e ssa.Value, s *seeds) bool {
	ps := textParts(&ptrace{}, e)
	for i := 0; i+1 < len(ps); i++ {
		if ps[i].v != nil && s.keyed(ps[i].v) && ps[i+1].v == nil && strings.HasPrefix(ps[i+1].lit, "=") {
			return true
		}
	}
	// prefixed
	for _, q := range ps {
		if q.v != nil && q.v != e && len(ps) <= 2 && m.isPair(q.v, s) {
			return true
		}
	}
	return false
}

// separated: pairs of which the first is the key between fixed texts.
func (m *commuter) separated(elems [][]ssa.Value, s *seeds) bool {
	var all []ssa.Value
	for i := len(elems) - 1; i >= 0; i-- {
		all = append(all, elems[i]...)
	}
	for i := 0; i+1 < len(all); i += 2 {
		if all[i] == nil {
			return false
		}
		ps := textParts(&ptrace{}, all[i])
		if len(ps) != 3 || ps[0].v != nil || ps[1].v == nil || !s.keyed(ps[1].v) || ps[2].v != nil {
			return false
		}
	}
	return len(all) > 0 && len(all)%2 == 0
}

// total: no two elements are left in the order they came.
func (m *commuter) total(call *ssa.Call, elems [][]ssa.Value, s *seeds) string {
	p := m.p
	n := calleeName(call)
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return ""
	case "sort.Sort", "sort.Stable":
		v := call.Common().Args[0]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		nt := namedOf(v.Type())
		if nt == nil || nt.Obj().Pkg() == nil {
			return "how a list gathered from a map is sorted is not known"
		}
		if nt.Obj().Pkg().Path() == "sort" {
			return ""
		}
		less := p.Func(nt.Obj().Pkg().Path(), nt.Obj().Name()+".Less")
		if less == nil {
			return "how a list gathered from a map is sorted is not known"
		}
		return m.lessTotal(less, elems, s)
	}
	if len(call.Common().Args) < 2 {
		return "how a list gathered from a map is sorted is not known"
	}
	fs := p.FuncValues(call.Common().Args[1])
	if len(fs) == 0 {
		return "how a list gathered from a map is sorted is not known"
	}
	for _, less := range fs {
		if w := m.lessTotal(less, elems, s); w != "" {
			return w
		}
	}
	return ""
}

// lessTotal: the comparison looks at the element itself, or at a field that
// is the key.
func (m *commuter) lessTotal(less *ssa.Function, elems [][]ssa.Value, s *seeds) string {
	keyFields := map[int]bool{}
	for _, st := range m.structs {
		for k, v := range st {
			if s.isKey(v) {
				keyFields[k] = true
			}
		}
	}
	for _, es := range elems {
		for _, e := range es {
			if e == nil {
				continue
			}
			if u, ok := e.(*ssa.UnOp); ok {
				for k, v := range structAt(u.X) {
					if s.isKey(v) {
						keyFields[k] = true
					}
				}
			}
			if al, ok := e.(*ssa.Alloc); ok {
				for k, v := range structAt(al) {
					if s.isKey(v) {
						keyFields[k] = true
					}
				}
			}
		}
	}
	ok := false
	eachInstr(less, func(ins ssa.Instruction) {
		x, is := ins.(*ssa.BinOp)
		if !is {
			if call, is := ins.(*ssa.Call); is && (calleeName(call) == "strings.Compare" || calleeName(call) == "cmp.Compare") {
				a := call.Common().Args
				ok = ok || m.lessOperand(a[0], keyFields) && m.lessOperand(a[1], keyFields)
			}
			return
		}
		switch x.Op {
		case token.LSS, token.GTR:
			if m.lessOperand(x.X, keyFields) && m.lessOperand(x.Y, keyFields) {
				ok = true
			}
		}
	})
	if !ok {
		return "a list gathered from a map is sorted by something two elements can have in common, which leaves them in the order they came"
	}
	return ""
}

// lessOperand: an element itself, or its field that is the key.
func (m *commuter) lessOperand(v ssa.Value, keyFields map[int]bool) bool {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Field:
		return keyFields[x.Field]
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return true
		case *ssa.FieldAddr:
			return keyFields[a.Field]
		}
	}
	return false
}

// isKey: the key itself, converted at most.
func (s *seeds) isKey(v ssa.Value) bool {
	for {
		if s.key[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "unicode": true, "unicode/utf8": true, "errors": true,
	"bytes": true, "go/token": true, "go/ast": true, "go/types": true, "reflect": true, "regexp": true, "runtime": true, "math": true,
	"crypto/md5": true, "encoding/hex": true, "time": true, "sync": true,
}

// isLogging: output for people to read.
func isLogging(call ssa.CallInstruction) bool {
	g := call.Common().StaticCallee()
	if g == nil {
		return false
	}
	n := calleeName(call)
	switch n {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		return isStdStream(call.Common().Args[0])
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return true
	}
	return isRepoFn(g) && g.Signature.Variadic() && logsOnly(g, 0)
}

func isStdStream(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	// os.Stderr, or a file kept in a variable of the package
	return isNamedPtr(derefType(g.Type()), "os", "File")
}

// logsOnly: all the function does is write to a log.
func logsOnly(g *ssa.Function, depth int) bool {
	if depth > 3 || len(g.Blocks) == 0 {
		return false
	}
	ok, n := true, 0
	eachInstr(g, func(ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.IndexAddr:
				_, local := a.X.(*ssa.Alloc)
				ok = ok && local
			case *ssa.Alloc:
			default:
				ok = false
			}
		case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			ok = false
		case *ssa.Call:
			if _, b := x.Common().Value.(*ssa.Builtin); b {
				return
			}
			h := x.Common().StaticCallee()
			if h == nil {
				ok = false
				return
			}
			switch name := calleeName(x); {
			case name == "fmt.Fprint" || name == "fmt.Fprintf" || name == "fmt.Fprintln":
				if !isStdStream(x.Common().Args[0]) {
					ok = false
				}
				n++
			case name == "(*os.File).Sync" || name == "(*os.File).WriteString":
				if !isStdStream(x.Common().Args[0]) {
					ok = false
				}
			case purePkgs[fnPkgPath(h)] || fnPkgPath(h) == "fmt" && strings.HasPrefix(h.Name(), "Sprint"):
			case isRepoFn(h):
				if !logsOnly(h, depth+1) {
					ok = false
				}
				n++
			default:
				ok = false
			}
		}
	})
	return ok && n > 0
}

// body: every effect in the blocks is of the iteration's own, or the same in
// all of them. Answers why not.
func (m *commuter) body(f *ssa.Function, in func(*ssa.BasicBlock) bool, s *seeds, depth int) (why string, at token.Pos) {
	if depth > 8 {
		return "what is called goes too deep to be decided", f.Pos()
	}
	for _, b := range f.Blocks {
		if !in(b) {
			continue
		}
		for _, ins := range b.Instrs {
			if w := m.instr(f, ins, s, depth, in); w != "" {
				return w, ins.Pos()
			}
		}
	}
	return "", token.NoPos
}

func (m *commuter) instr(f *ssa.Function, ins ssa.Instruction, s *seeds, depth int, in func(*ssa.BasicBlock) bool) string {
	switch x := ins.(type) {
	case *ssa.Store:
		if s.local(x.Addr) {
			return ""
		}
		if _, ok := x.Addr.(*ssa.Alloc); !ok && s.owned(x.Addr) {
			m.effect = true
			return ""
		}
		m.effect = true
		if _, ok := x.Val.(*ssa.Const); ok {
			return ""
		}
		if _, ok := x.Val.(*ssa.MakeMap); ok && whenNil(x.Block(), func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && sameAddr(u.X, x.Addr)
		}) {
			return "" // made on first use
		}
		if bo, ok := x.Val.(*ssa.BinOp); ok && !isStringType(bo.Type()) && (bo.Op == token.ADD || bo.Op == token.OR) {
			if u, ok := bo.X.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, x.Addr) {
				return ""
			}
		}
		if call, ok := x.Val.(*ssa.Call); ok {
			if _, ok := isBuiltinCall(call, "append"); ok && depth == 0 && m.sharedList(f, x, call, s, in) {
				return ""
			}
		}
		if ex, ok := x.Val.(*ssa.Extract); ok && isErrorType(ex.Type()) {
			return ""
		}
		if isErrorType(x.Val.Type()) {
			return ""
		}
		return "what is stored depends on which element comes last"
	case *ssa.MapUpdate:
		if s.local(x.Map) {
			return ""
		}
		m.effect = true
		if s.keyed(x.Key) || s.owned(x.Map) {
			return ""
		}
		if _, ok := x.Value.(*ssa.Const); ok {
			return ""
		}
		return "an entry is set under a key that several elements can have in common"
	case *ssa.Send, *ssa.Go, *ssa.Select:
		return "elements are handed on in whichever order they come"
	case *ssa.Defer:
		if depth == 0 {
			return "calls are deferred in whichever order the elements come"
		}
		return m.call(f, x, s, depth)
	case *ssa.Call:
		return m.call(f, x, s, depth)
	}
	return ""
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
	}
	return false
}

// whenNil: the block is entered only when what match accepts is nil.
func whenNil(b *ssa.BasicBlock, match func(ssa.Value) bool) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		q := d.Preds[0]
		iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if v, isnil, ok := nilTest(iff.Cond, q.Succs[0] == d); ok && isnil && match(v) {
			return true
		}
	}
	return false
}

// sharedList: a list kept in a variable or a field, gathered and then sorted.
func (m *commuter) sharedList(f *ssa.Function, st *ssa.Store, call *ssa.Call, s *seeds, in func(*ssa.BasicBlock) bool) bool {
	u, ok := call.Common().Args[0].(*ssa.UnOp)
	if !ok || !sameAddr(u.X, st.Addr) {
		return false
	}
	elems := [][]ssa.Value{variadicArgs(call.Common().Args[1])}
	m.structs = appendedStructs(call.Common().Args[1])
	m.c.Obl("sorted", shortFn(f))
	pairs := len(elems[0]) > 0
	for _, e := range elems[0] {
		if e == nil || !m.isPair(e, s) {
			pairs = false
		}
	}
	if pairs {
		return true
	}
	// every later read of it comes after the sort, which reads it too
	var uses []ssa.Instruction
	eachInstr(f, func(ins ssa.Instruction) {
		ld, ok := ins.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL || !sameAddr(ld.X, st.Addr) || in(ld.Block()) || !mayFollow(st, ld) {
			return
		}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			for _, r := range *v.Referrers() {
				if mi, ok := r.(*ssa.MakeInterface); ok {
					walk(mi)
					continue
				}
				uses = append(uses, r)
			}
		}
		walk(ld)
	})
	var sorted ssa.Instruction
	for _, r := range uses {
		if k, ok := r.(*ssa.Call); ok {
			n := calleeName(k)
			if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
				sorted = k
			}
		}
	}
	if sorted == nil {
		return false
	}
	for _, r := range returnsOf(f) {
		if mayFollow(st, r) && !dominatesIns(sorted, r) {
			return false
		}
	}
	m.ordered(f, st.Pos(), uses, elems, s, nil)
	return true
}

func (m *commuter) call(f *ssa.Function, ci ssa.CallInstruction, s *seeds, depth int) string {
	cm := ci.Common()
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete":
			m.effect = true
			if !s.keyed(cm.Args[1]) && !s.local(cm.Args[0]) {
				return ""
			}
		case "copy":
			if !s.local(cm.Args[0]) && !s.owned(cm.Args[0]) {
				return "bytes are overwritten in whichever order the elements come"
			}
		case "close", "print", "println", "panic", "recover":
		}
		return ""
	}
	if isLogging(ci) {
		return ""
	}
	if cm.IsInvoke() {
		switch cm.Method.Name() {
		case "Error", "String", "Pos", "End", "Name", "IsDir", "Mode", "Size", "Underlying":
			return ""
		}
	}
	g := cm.StaticCallee()
	if g == nil {
		fs := m.p.Callees(ci)
		if len(fs) == 0 {
			return "what is called for each element is not known"
		}
		for _, h := range fs {
			if w := m.callee(h, cm, s, depth); w != "" {
				return w
			}
		}
		return ""
	}
	return m.callee(g, cm, s, depth)
}

func (m *commuter) callee(g *ssa.Function, cm *ssa.CallCommon, s *seeds, depth int) string {
	if !isRepoFn(g) || len(g.Blocks) == 0 {
		path := fnPkgPath(g)
		if purePkgs[path] || path == "fmt" && (strings.HasPrefix(g.Name(), "Sprint") || g.Name() == "Errorf") {
			// writers belong to the iteration, or the order shows
			if len(cm.Args) > 0 && g.Signature.Recv() != nil && strings.HasPrefix(g.Name(), "Write") && !s.local(cm.Args[0]) && !s.owned(cm.Args[0]) {
				return "text is put together in whichever order the elements come"
			}
			return ""
		}
		if path == "fmt" && strings.HasPrefix(g.Name(), "Fprint") {
			w := cm.Args[0]
			if mi, ok := w.(*ssa.MakeInterface); ok {
				w = mi.X
			}
			if s.local(w) || s.owned(w) {
				return ""
			}
			return "text is written in whichever order the elements come"
		}
		m.effect = true
		for _, a := range cm.Args {
			if s.owned(a) {
				return ""
			}
		}
		return fmt.Sprintf("%s is called for each element, in whichever order they come", g.String())
	}
	if m.busy[g] {
		return ""
	}
	t := &seeds{key: map[ssa.Value]bool{}, val: map[ssa.Value]bool{}, scope: func(*ssa.BasicBlock) bool { return true }}
	for i, q := range g.Params {
		if i >= len(cm.Args) {
			break
		}
		if s.keyed(cm.Args[i]) {
			t.key[q] = true
		} else if s.owned(cm.Args[i]) || s.local(cm.Args[i]) {
			t.val[q] = true
		}
	}
	m.busy[g] = true
	defer delete(m.busy, g)
	w, _ := m.body(g, func(*ssa.BasicBlock) bool { return true }, t, depth+1)
	if w != "" {
		return "in " + shortFn(g) + ": " + w
	}
	return ""
}

// isVolatile: differs from run to run.
func isVolatile(call *ssa.Call) bool {
	g := call.Common().StaticCallee()
	if g == nil {
		return false
	}
	switch fnPkgPath(g) {
	case "math/rand", "math/rand/v2", "crypto/rand":
		return true
	}
	switch calleeName(call) {
	case "time.Now", "time.Since", "os.Getpid", "os.Getppid":
		return true
	}
	return false
}

// volatileUse: the value ends in a log or a measurement.
func volatileUse(c *Ctx, p *Prog, f *ssa.Function, call *ssa.Call) {
	rel := strings.TrimPrefix(fnPkgPath(f), repoModule+"/")
	if !strings.HasPrefix(rel, "instrument/") && rel != "cmd/xgo/exec_tool" && rel != "cmd/xgo" {
		return
	}
	c.Obl("clock", shortFn(f))
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Extract, *ssa.BinOp, *ssa.UnOp:
				if w := walk(x.(ssa.Value)); w != "" {
					return w
				}
			case *ssa.If:
				return "decides what is done"
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.Alloc:
					if w := walk(a); w != "" {
						return w
					}
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						for _, r2 := range *al.Referrers() {
							if sl, ok := r2.(*ssa.Slice); ok {
								if w := walk(sl); w != "" {
									return w
								}
							}
						}
						continue
					}
					return "is kept"
				default:
					return "is kept"
				}
			case *ssa.MapUpdate:
				return "is kept"
			case *ssa.Return:
				return "is answered"
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						if w := walk(x.Fn.(*ssa.Function).FreeVars[i]); w != "" {
							return w
						}
					}
				}
			case ssa.CallInstruction:
				if isLogging(x) {
					continue
				}
				g := x.Common().StaticCallee()
				if g == nil {
					return "is handed on"
				}
				switch {
				case fnPkgPath(g) == "time" || fnPkgPath(g) == "fmt" && strings.HasPrefix(g.Name(), "Sprint") || fnPkgPath(g) == "strconv" || fnPkgPath(g) == "strings":
					if val, ok := x.(ssa.Value); ok {
						if w := walk(val); w != "" {
							return w
						}
					}
				case calleeName(x) == "os.WriteFile":
					// a record of when something was done
					if x.Common().Args[0] == v || !isRecord(x) {
						return "is written to a file"
					}
				default:
					return "is handed on to " + g.String()
				}
			}
		}
		return ""
	}
	if w := walk(call); w != "" {
		c.Viol("clock", c.Pos(p, call.Pos()), shortFn(f), "%s, which differs from run to run, %s", calleeName(call), w)
	}
}

// isRecord: the content is nothing but the time.
func isRecord(x ssa.CallInstruction) bool {
	cv, ok := x.Common().Args[1].(*ssa.Convert)
	if !ok {
		return false
	}
	call, ok := cv.X.(*ssa.Call)
	return ok && calleeName(call) == "(time.Time).Format"
}

func init() {
	props["G01"] = propDef{run: runG01, assumptions: []string{
		"file names and keys derived from a map's key differ where the keys differ",
		"the order of lines in logs and which of several errors is reported are not part of the output",
		"the order of KEY=value pairs with different keys in an environment means nothing",
		"the order goroutines finish in is decided by property F02; the Go tool is not analysed",
	}}
}
