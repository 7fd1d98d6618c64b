package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R02"] = propDef{run: checkR02, assumptions: []string{
		"registrations are only kept in the registry found by R01 and only reached through typed Go code",
	}}
}

// structEq: the two pure expressions always have the same value (loads of
// one local variable are taken to be equal).
func structEq(p *Prog, a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 8 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && structEq(p, x.X, y.X, d+1) && structEq(p, x.Y, y.Y, d+1)
	case *ssa.Call:
		la, lb := lenArg(a), lenArg(b)
		return la != nil && lb != nil && structEq(p, la, lb, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != y.Op {
			return false
		}
		ax, ay := p.localCell(x.X), p.localCell(y.X)
		if ax != nil && ax == ay {
			return true
		}
		return structEq(p, x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && structEq(p, x.X, y.X, d+1)
	case *ssa.FreeVar:
		// captured copies of one variable
		oa, ob := p.Origins(a, originOpts{noCalls: true, noParams: true}), p.Origins(b, originOpts{noCalls: true, noParams: true})
		return len(oa) == 1 && len(ob) == 1 && oa[0].Val == ob[0].Val
	}
	return false
}

// listOf: the registry field whose list v is (v itself a list value: a
// lookup, a loaded field, a slice of it, a phi or parameter of such).
func (m *RTModel) listOf(v ssa.Value) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	if v == nil || !m.isHolderList(v.Type()) {
		return out
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, o := range m.p.Origins(v, originOpts{}) {
			if seen[o.Val] {
				continue
			}
			seen[o.Val] = true
			switch x := o.Val.(type) {
			case *ssa.Lookup:
				for _, mo := range m.p.Origins(x.X, originOpts{}) {
					if f, _ := m.regField(mo.Val); f != nil {
						out[f] = true
					}
				}
			case *ssa.Extract:
				if lk, ok := x.Tuple.(*ssa.Lookup); ok {
					for _, mo := range m.p.Origins(lk.X, originOpts{}) {
						if f, _ := m.regField(mo.Val); f != nil {
							out[f] = true
						}
					}
				}
			case *ssa.UnOp:
				if f, _ := m.regField(x); f != nil {
					out[f] = true
				}
			case *ssa.Field:
				if f, _ := m.regField(x); f != nil {
					out[f] = true
				}
			case *ssa.Slice:
				walk(x.X)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(x.Call.Args[0])
				}
			}
		}
	}
	walk(v)
	return out
}

func (m *RTModel) isHolderList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return m.isHolderPtr(sl.Elem())
}

func (m *RTModel) isHolderPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && m.Holders[n]
}

// sharesBacking: v may have the backing array of a list stored in the
// registry with room to write into it (not capped by a 3-index slice).
func (m *RTModel) uncapped(v ssa.Value) []*ssa.Slice {
	var out []*ssa.Slice
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, o := range m.p.Origins(v, originOpts{}) {
			if seen[o.Val] {
				continue
			}
			seen[o.Val] = true
			switch x := o.Val.(type) {
			case *ssa.Slice:
				if len(m.listOf(x.X)) == 0 {
					continue
				}
				if x.High == nil {
					walk(x.X)
					continue
				}
				if x.Max == nil || !structEq(m.p, x.Max, x.High, 0) {
					out = append(out, x)
				}
			}
		}
	}
	walk(v)
	return out
}

type removal struct {
	w      regWrite
	slices []*ssa.Slice // slices of the list making up the new value
}

func (m *RTModel) slicesIn(v ssa.Value) []*ssa.Slice {
	var out []*ssa.Slice
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || d > 20 {
			return
		}
		for _, o := range m.p.Origins(v, originOpts{}) {
			if seen[o.Val] {
				continue
			}
			seen[o.Val] = true
			switch x := o.Val.(type) {
			case *ssa.Slice:
				if len(m.listOf(x.X)) > 0 && (x.Low != nil || x.High != nil) {
					out = append(out, x)
				}
				walk(x.X, d+1)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(x.Call.Args[0], d+1)
					if m.isHolderList(x.Call.Args[1].Type()) {
						walk(x.Call.Args[1], d+1)
					}
				}
			case *ssa.MakeSlice:
				for _, s := range copiedInto(m.p, x) {
					if m.isHolderList(s.Type()) {
						walk(s, d+1)
					}
				}
			}
		}
	}
	walk(v, 0)
	return out
}

// identityCompare: cond==pol says list element at idx is the holder h.
func (m *RTModel) identityCompare(cond ssa.Value, pol bool) (elem, other ssa.Value, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
		return nil, nil, false
	}
	if !m.isHolderPtr(b.X.Type()) {
		return nil, nil, false
	}
	return b.X, b.Y, true
}

// holderAllocs: where v is a holder created by a registration.
func (m *RTModel) newHolder(v ssa.Value) bool {
	os := m.p.Origins(v, originOpts{})
	n := 0
	for _, o := range os {
		a, ok := o.Val.(*ssa.Alloc)
		if !ok || !m.isHolderPtr(a.Type()) {
			return false
		}
		n++
	}
	return n > 0
}

// elemIndex: v is an element of a registry list; gives list and index.
func (m *RTModel) elemIndex(v ssa.Value) (list, idx ssa.Value) {
	for _, o := range m.p.Origins(v, originOpts{}) {
		u, ok := o.Val.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !m.isHolderList(ia.X.Type()) {
			continue
		}
		return ia.X, ia.Index
	}
	return nil, nil
}

func checkR02(c *Ctx) {
	m := c.rtModel()
	p := m.p
	c.Rule("latest", "a mock list is consulted at its last element only, so the latest registration wins and cancelling it uncovers the previous one")
	c.Rule("append-last", "a registration adds its holder at the end of the list it extends")
	c.Rule("own-entry", "the list written back by a cancel function lacks exactly the element found identical to the holder this registration created, on the path where that comparison succeeded")
	c.Rule("current", "a cancel function removes from the list in force when it is called, not from one remembered")
	c.Rule("same-key", "cancel writes the list back under the key the registration used")
	c.Rule("no-alias", "no list stored back, and no append, can write into the backing array of a list a running dispatch may be iterating")
	c.Rule("in-range", "an element is only taken at len-1 when the list was found not empty")
	c.Rule("global-final", "a process-wide registration cannot be removed once initialisation has finished")
	c.Rule("not-found", "a cancel function that finds nothing to remove panics rather than returning")
	c.Rule("returned", "every registration function exposed to users returns the cancel function of the registration it made")

	create := m.inCreate()
	writes := m.regWrites()
	removals := map[ssa.Instruction]*removal{}
	cancelFns := map[*ssa.Function]bool{}
	regFns := map[*ssa.Function]bool{}
	for _, w := range writes {
		if create[w.ins.Parent()] {
			continue
		}
		if w.val == nil {
			// delete(map, key): would drop every registration of the key
			c.Viol("own-entry", c.Pos(p, w.ins.Pos()), shortFn(w.ins.Parent())+" "+w.field.Name(), "every registration under the key is deleted")
			continue
		}
		if _, isMap := w.val.Type().Underlying().(*types.Map); isMap {
			for _, o := range p.Origins(w.val, originOpts{}) {
				if _, ok := o.Val.(*ssa.MakeMap); !ok {
					c.Viol("own-entry", c.Pos(p, w.ins.Pos()), shortFn(w.ins.Parent())+" "+w.field.Name(), "the whole table of registrations is replaced")
					continue
				}
				// only when there was none
				isNil := func(cond ssa.Value, pol bool) bool {
					b, ok := cond.(*ssa.BinOp)
					if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
						if l, op, k, ok := lenCompare(cond, pol); ok && impliesEmpty(op, k) {
							f, _ := m.regField(l)
							return f == w.field
						}
						return false
					}
					for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if f, _ := m.regField(pr[0]); f == w.field && isNilConst(pr[1]) {
							return true
						}
					}
					return false
				}
				if !p.Guarded(w.ins, isNil) {
					c.Viol("own-entry", c.Pos(p, w.ins.Pos()), shortFn(w.ins.Parent())+" "+w.field.Name(), "the table of registrations is replaced although it may hold some")
				}
			}
			continue
		}
		construct := shortFn(w.ins.Parent()) + " " + w.field.Name()
		sl := m.slicesIn(w.val)
		if len(sl) > 0 {
			removals[w.ins] = &removal{w, sl}
			cancelFns[w.ins.Parent()] = true
			continue
		}
		// addition
		regFns[w.ins.Parent()] = true
		for _, o := range p.Origins(w.val, originOpts{}) {
			switch x := o.Val.(type) {
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "append" {
					c.Viol("append-last", c.Pos(p, w.ins.Pos()), construct, "the stored list does not come from an append")
					continue
				}
				c.Obl("append-last", construct)
				base := m.listOf(x.Call.Args[0])
				if !base[w.field] {
					c.Viol("append-last", c.Pos(p, x.Pos()), construct, "the new registration is not appended to the existing ones")
				}
				for _, f := range keysOf(base) {
					if f != w.field {
						c.Viol("append-last", c.Pos(p, x.Pos()), construct, "appended to the %s registrations", f.Name())
					}
				}
				if len(m.listOf(x.Call.Args[1])) > 0 {
					c.Viol("append-last", c.Pos(p, x.Pos()), construct, "existing registrations are appended after others")
				}
				// key of the lookup
				if w.key != nil {
					for _, lo := range p.Origins(x.Call.Args[0], originOpts{}) {
						var lk *ssa.Lookup
						switch y := lo.Val.(type) {
						case *ssa.Lookup:
							lk = y
						case *ssa.Extract:
							lk, _ = y.Tuple.(*ssa.Lookup)
						}
						if lk != nil && !sameSource(p, lk.Index, w.key) {
							c.Viol("same-key", c.Pos(p, x.Pos()), construct, "the list extended is that of another key")
						}
					}
				}
			case *ssa.MakeSlice, *ssa.Alloc:
				// initial empty list, or literal: fine when nothing was there
			case *ssa.Slice:
				// composite literal []*H{...}: must not replace existing ones
				if al, ok := x.X.(*ssa.Alloc); ok && al.Comment == "slicelit" {
					empty := func(cond ssa.Value, pol bool) bool {
						if l, op, k, ok := lenCompare(cond, pol); ok && impliesEmpty(op, k) {
							return m.listOf(l)[w.field]
						}
						b, ok := cond.(*ssa.BinOp)
						if !ok || (b.Op == token.EQL) != pol {
							return false
						}
						for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
							if m.listOf(pr[0])[w.field] && isNilConst(pr[1]) {
								return true
							}
						}
						return false
					}
					if !p.originGuarded(o, w.ins, empty) {
						c.Viol("append-last", c.Pos(p, w.ins.Pos()), construct, "existing registrations are replaced by a new list")
					}
				}
			case *ssa.Const:
				// nil: drops all
				c.Viol("append-last", c.Pos(p, w.ins.Pos()), construct, "the list of registrations is cleared")
			}
		}
	}
	c.Floor("append-last", len(m.RegFields)/3)
	// every field with a registration has a removal
	removed := map[*types.Var]bool{}
	for _, r := range removals {
		removed[r.w.field] = true
	}
	for _, f := range m.RegFields {
		if !removed[f] {
			c.Viol("own-entry", "-", f.Name(), "no cancel function removes a %s registration", f.Name())
		}
	}
	for ins, r := range removals {
		construct := shortFn(ins.Parent()) + " " + r.w.field.Name()
		c.Obl("own-entry", construct+" at "+c.Pos(p, ins.Pos()))
		// identity guard with matching index
		var matched ssa.Value
		ident := func(cond ssa.Value, pol bool) bool {
			a, b, ok := m.identityCompare(cond, pol)
			if !ok {
				return false
			}
			for _, pr := range [][2]ssa.Value{{a, b}, {b, a}} {
				l, idx := m.elemIndex(pr[0])
				if l == nil || !m.newHolder(pr[1]) || !m.listOf(l)[r.w.field] {
					continue
				}
				if removesOnly(m, r, idx) {
					matched = idx
					return true
				}
			}
			return false
		}
		if !p.Guarded(ins, ident) && !m.producedUnder(r.w.val, ident) {
			c.Viol("own-entry", c.Pos(p, ins.Pos()), construct, "the list written back is not shown to lack just the element identical to this registration's holder")
		}
		_ = matched
		// the list shortened is the one in force when the cancel runs, not
		// one remembered from the time of the registration
		for _, sl := range r.slices {
			for _, lo := range p.Origins(sl.X, originOpts{}) {
				li, ok := lo.Val.(ssa.Instruction)
				if !ok {
					continue
				}
				c.Obl("current", construct+" at "+c.Pos(p, ins.Pos()))
				for _, an := range li.Parent().AnonFuncs {
					if p.Reach([]*ssa.Function{an}, nil)[ins.Parent()] && !p.Reach([]*ssa.Function{an}, nil)[li.Parent()] {
						c.Viol("current", c.Pos(p, ins.Pos()), construct, "the list written back is made from one remembered since %s, before the cancel function is called: what was registered or cancelled in between is undone", c.Pos(p, li.Pos()))
					}
				}
			}
		}
		if r.w.key != nil {
			c.Obl("same-key", construct)
			for _, sl := range r.slices {
				for _, lo := range p.Origins(sl.X, originOpts{}) {
					if lk, ok := lo.Val.(*ssa.Lookup); ok && !sameSource(p, lk.Index, r.w.key) {
						c.Viol("same-key", c.Pos(p, ins.Pos()), construct, "the list of one key is stored under another")
					}
				}
			}
			// key of the registration
			okKey := false
			for _, w := range writes {
				if w.field == r.w.field && w.key != nil && removals[w.ins] == nil && !create[w.ins.Parent()] && sameSource(p, w.key, r.w.key) {
					okKey = true
				}
			}
			if !okKey {
				c.Viol("same-key", c.Pos(p, ins.Pos()), construct, "the key differs from the one the registration was made under")
			}
		}
		// same registry as the registration: R01 scope rules cover the kind;
		// here: global only before init finished
		c.Obl("global-final", construct+" at "+c.Pos(p, ins.Pos()))
		notGlobalOrInit := func(cond ssa.Value, pol bool) bool {
			if m.initAtom(false)(cond, pol) {
				return true
			}
			b, ok := cond.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
				return false
			}
			for _, x := range []ssa.Value{b.X, b.Y} {
				for _, o := range p.Origins(x, originOpts{}) {
					if o.Val == ssa.Value(m.Global) && len(o.Edges) == 0 && isDirectGlobal(x, m.Global) {
						return (b.Op == token.EQL) != pol
					}
				}
			}
			return false
		}
		if !p.Guarded(ins, notGlobalOrInit) {
			c.Viol("global-final", c.Pos(p, ins.Pos()), construct, "a process-wide registration can be removed after initialisation has finished")
		}
	}
	c.Floor("own-entry", 1)

	// not-found: returns of cancel functions
	for fn := range cancelFns {
		if regFns[fn] {
			continue
		}
		for _, r := range returnsOf(fn) {
			construct := shortFn(fn)
			c.Obl("not-found", construct+" return at "+c.Pos(p, r.Pos()))
			if !alwaysBefore(r, func(i ssa.Instruction) bool { return removals[i] != nil }) {
				// tolerate when the caller checks a boolean result
				if fn.Signature.Results().Len() > 0 {
					continue
				}
				c.Viol("not-found", c.Pos(p, r.Pos()), construct, "a cancel may return without having removed its registration")
			}
		}
	}

	// aliasing, ranges, latest
	for _, fn := range p.FuncsIn(func(s string) bool { return s == rtTrap }) {
		eachInstr(fn, func(ins ssa.Instruction) {
			construct := shortFn(fn)
			switch x := ins.(type) {
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok {
					return
				}
				switch b.Name() {
				case "append":
					if !m.isHolderList(x.Call.Args[0].Type()) {
						return
					}
					c.Obl("no-alias", construct+" append at "+c.Pos(p, ins.Pos()))
					if u := m.uncapped(x.Call.Args[0]); len(u) > 0 {
						c.Viol("no-alias", c.Pos(p, ins.Pos()), construct, "appends into the backing array of a list in use")
					}
				case "copy":
					if m.isHolderList(x.Call.Args[0].Type()) {
						c.Obl("no-alias", construct+" copy at "+c.Pos(p, ins.Pos()))
						if len(m.listOf(x.Call.Args[0])) > 0 {
							c.Viol("no-alias", c.Pos(p, ins.Pos()), construct, "copies over elements of a list in use")
						}
					}
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && m.isHolderList(ia.X.Type()) {
					c.Obl("no-alias", construct+" element store at "+c.Pos(p, ins.Pos()))
					if len(m.listOf(ia.X)) > 0 {
						c.Viol("no-alias", c.Pos(p, ins.Pos()), construct, "overwrites an element of a list in use")
					}
				}
				if f, _ := m.regField(x.Addr); f != nil {
					if u := m.uncapped(x.Val); len(u) > 0 {
						c.Viol("no-alias", c.Pos(p, ins.Pos()), construct, "stores a shortened list with spare capacity: the next registration overwrites an element a running dispatch may still visit")
					}
				}
			case *ssa.MapUpdate:
				if m.isHolderList(x.Value.Type()) {
					c.Obl("no-alias", construct+" map store at "+c.Pos(p, ins.Pos()))
					if u := m.uncapped(x.Value); len(u) > 0 {
						c.Viol("no-alias", c.Pos(p, ins.Pos()), construct, "stores a shortened list with spare capacity: the next registration overwrites an element a running dispatch may still visit")
					}
				}
			case *ssa.IndexAddr:
				if !m.isHolderList(x.X.Type()) {
					return
				}
				fields := m.listOf(x.X)
				if len(fields) == 0 {
					return
				}
				last := lastIndexOf(p, x.X, x.Index)
				if !last && !isLoopIndex(x.Index) {
					if _, isC := constInt(x.Index); isC {
						c.Viol("in-range", c.Pos(p, ins.Pos()), construct, "a fixed element of a list of registrations is used")
						return
					}
				}
				if last {
					c.Obl("in-range", construct+" at "+c.Pos(p, ins.Pos()))
					nonEmpty := func(cond ssa.Value, pol bool) bool {
						l, op, k, ok := lenCompare(cond, pol)
						if !ok || !impliesNonEmpty(op, k) {
							return false
						}
						for f := range m.listOf(l) {
							if fields[f] {
								return true
							}
						}
						return false
					}
					if !p.Guarded(ins, nonEmpty) {
						c.Viol("in-range", c.Pos(p, ins.Pos()), construct, "the last element is taken of a list that may be empty")
					}
				}
				isMock := false
				for f := range fields {
					if m.isMock(f) {
						isMock = true
					}
				}
				if isMock && !create[fn] && m.dispatch(fn) {
					c.Obl("latest", construct+" at "+c.Pos(p, ins.Pos()))
					if !last {
						c.Viol("latest", c.Pos(p, ins.Pos()), construct, "a mock other than the last one registered may be used")
					}
				}
			}
		})
	}
	c.Floor("latest", 1)

	// exposed registration functions return the cancel they got
	isCancel := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			return m.reachesRemoval(f, removals)
		}
		return false
	}
	for _, pk := range []string{rtMod + "/mock", rtMod + "/trace", rtMod + "/trap", rtTrap} {
		for _, fn := range p.FuncsIn(func(s string) bool { return s == pk }) {
			if fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil {
				continue
			}
			res := fn.Signature.Results()
			if res.Len() != 1 {
				continue
			}
			sg, ok := res.At(0).Type().Underlying().(*types.Signature)
			if !ok || sg.Params().Len() != 0 || sg.Results().Len() != 0 {
				continue
			}
			c.Obl("returned", shortFn(fn))
			for _, r := range returnsOf(fn) {
				for _, o := range p.Origins(r.Results[0], originOpts{}) {
					if !isCancel(o.Val) {
						c.Viol("returned", c.Pos(p, r.Pos()), shortFn(fn), "what is returned does not cancel the registration made")
					}
				}
			}
		}
	}
	c.Floor("returned", 8)
}

func (m *RTModel) reachesRemoval(f *ssa.Function, removals map[ssa.Instruction]*removal) bool {
	for g := range m.p.Reach([]*ssa.Function{f}, nil) {
		for ins := range removals {
			if ins.Parent() == g {
				return true
			}
		}
	}
	return false
}

func keysOf(s map[*types.Var]bool) []*types.Var {
	var out []*types.Var
	for f := range s {
		out = append(out, f)
	}
	return out
}

func isDirectGlobal(v ssa.Value, g *ssa.Global) bool {
	switch x := v.(type) {
	case *ssa.Global:
		return x == g
	case *ssa.ChangeType:
		return isDirectGlobal(x.X, g)
	}
	return false
}

// sameSource: both values are one parameter, variable or constant.
func sameSource(p *Prog, a, b ssa.Value) bool {
	if a == b || structEq(p, a, b, 0) {
		return true
	}
	oa := p.Origins(a, originOpts{noCalls: true, noParams: true})
	ob := p.Origins(b, originOpts{noCalls: true, noParams: true})
	if len(oa) != 1 || len(ob) != 1 {
		return false
	}
	if oa[0].Val == ob[0].Val || structEq(p, oa[0].Val, ob[0].Val, 0) {
		return true
	}
	// through the arguments of helpers
	oa = p.Origins(a, originOpts{noCalls: true})
	ob = p.Origins(b, originOpts{noCalls: true})
	set := map[ssa.Value]bool{}
	for _, o := range oa {
		set[o.Val] = true
	}
	for _, o := range ob {
		if !set[o.Val] {
			return false
		}
	}
	return len(ob) > 0
}

// lastIndexOf: idx is len(list)-1.
func lastIndexOf(p *Prog, list, idx ssa.Value) bool {
	b, ok := idx.(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return false
	}
	if k, ok := constInt(b.Y); !ok || k != 1 {
		return false
	}
	for _, o := range p.Origins(b.X, originOpts{noCalls: true}) {
		l := lenArg(o.Val)
		if l != nil && (l == list || structEq(p, l, list, 0) || sameSource(p, l, list)) {
			return true
		}
	}
	return false
}

func isLoopIndex(idx ssa.Value) bool {
	switch x := idx.(type) {
	case *ssa.BinOp:
		if _, ok := x.X.(*ssa.Phi); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			return true
		}
	case *ssa.Phi:
		return true
	}
	return false
}

// removesOnly: the slices making up the new list leave out exactly element
// idx: [..idx] and, unless idx is the last, [idx+1..].
func removesOnly(m *RTModel, r *removal, idx ssa.Value) bool {
	hi, lo := false, false
	for _, s := range r.slices {
		switch {
		case s.High != nil && s.Low == nil && structEq(m.p, s.High, idx, 0):
			hi = true
		case s.High == nil && s.Low != nil && isPlusOne(m.p, s.Low, idx):
			lo = true
		default:
			return false
		}
	}
	if hi && lo {
		return true
	}
	return hi && lastIndexOf(m.p, r.slices[0].X, idx)
}

func isPlusOne(p *Prog, v, idx ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	if k, ok := constInt(b.Y); ok && k == 1 && structEq(p, b.X, idx, 0) {
		return true
	}
	if k, ok := constInt(b.X); ok && k == 1 && structEq(p, b.Y, idx, 0) {
		return true
	}
	return false
}

// producedUnder: the value written was produced (in a helper) where the
// atom holds.
func (m *RTModel) producedUnder(v ssa.Value, atom atomMatch) bool {
	n := 0
	for _, o := range m.p.Origins(v, originOpts{}) {
		ins, ok := o.Val.(ssa.Instruction)
		if !ok {
			continue
		}
		if len(m.listOf(o.Val)) > 0 {
			if _, isLk := o.Val.(*ssa.Lookup); isLk {
				continue
			}
		}
		n++
		if !m.p.Guarded(ins, atom) {
			return false
		}
	}
	return n > 0
}
