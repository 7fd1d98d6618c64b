package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Source edits are applied exactly: what is recorded, in which order it is
// applied, to which offsets.

const (
	bufPath  = "github.com/xhd2015/xgo/support/edit"
	goeditPk = "github.com/xhd2015/xgo/support/edit/goedit"
	igoPath  = "github.com/xhd2015/xgo/instrument/instrument_go"
)

type bufModel struct {
	c                *Ctx
	p                *Prog
	buf              *types.Named
	oldF, qF         int // fields of the buffer
	startF, endF     int // fields of an edit
	newF             int
	elem             types.Type
	recorders        map[*ssa.Function]bool
	bytesFn          *ssa.Function
	oldName, qName   string
	startName        string
	endName, newName string
}

func runI10(c *Ctx) {
	c.Rule("record", "an edit is recorded with exactly the bounds and text given, and only within the source")
	c.Rule("order", "edits are applied by position, at one position in the order they were made")
	c.Rule("apply", "the result is the source with each edit's range replaced by its text, overlapping edits refused")
	c.Rule("source", "the source and the recorded edits are changed by nothing else")
	c.Rule("offset", "positions are turned into offsets of the source they belong to")
	c.Rule("notes", "the notes for coverage give the file, every edit and the original")
	p := c.Root()
	m := &bufModel{c: c, p: p, recorders: map[*ssa.Function]bool{}}
	if !m.find() {
		c.Viol("record", bufPath, "Buffer", "the edit buffer was not recognised")
		return
	}
	m.record()
	m.order()
	m.apply()
	m.source()
	m.offsets()
	m.files()
	m.notes()
	c.Floor("record", 3)
	c.Floor("order", 2)
	c.Floor("apply", 2)
	c.Floor("offset", 3)
}

func (m *bufModel) find() bool {
	sp := m.p.pkg(bufPath)
	if sp == nil {
		return false
	}
	t, ok := sp.Members["Buffer"].(*ssa.Type)
	if !ok {
		return false
	}
	m.buf, _ = t.Type().(*types.Named)
	st, ok := m.buf.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	m.oldF, m.qF = -1, -1
	for i := 0; i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			m.oldF, m.oldName = i, st.Field(i).Name()
		}
		es, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		m.startF, m.endF, m.newF = -1, -1, -1
		for j := 0; j < es.NumFields(); j++ {
			b, ok := es.Field(j).Type().Underlying().(*types.Basic)
			if !ok {
				continue
			}
			n := es.Field(j).Name()
			switch {
			case b.Info()&types.IsString != 0:
				m.newF, m.newName = j, n
			case b.Info()&types.IsInteger == 0:
			case m.startF < 0:
				m.startF, m.startName = j, n
			case m.endF < 0:
				m.endF, m.endName = j, n
			}
		}
		if m.newF >= 0 && m.endF >= 0 {
			m.qF, m.qName, m.elem = i, st.Field(i).Name(), sl.Elem()
			if m.startName == "end" {
				m.startF, m.endF = m.endF, m.startF
				m.startName, m.endName = m.endName, m.startName
			}
		}
	}
	return m.oldF >= 0 && m.qF >= 0
}

// isField: v is the field of the buffer b.
func (m *bufModel) isField(v ssa.Value, b ssa.Value, f int) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fa.Field == f && namedOf(fa.X.Type()) == m.buf && (b == nil || fa.X == b || cellValue(fa.X) == b)
}

// cellValue: what the variable v is read from was set to, once.
func cellValue(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if out != nil {
				return nil
			}
			out = st.Val
		}
	}
	return out
}

func (m *bufModel) lenOld(v ssa.Value) bool {
	l := lenArg(v)
	return l != nil && m.isField(l, nil, m.oldF)
}

// structAt: the values stored to the fields of the struct at addr.
func structAt(addr ssa.Value) map[int]ssa.Value {
	out := map[int]ssa.Value{}
	refs := addr.Referrers()
	if refs == nil {
		return out
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					out[x.Field] = st.Val
				}
			}
		case *ssa.Store:
			if x.Addr != addr {
				continue
			}
			if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				for k, v := range structAt(u.X) {
					out[k] = v
				}
			}
		}
	}
	return out
}

// appended: the struct elements an append adds, as maps of their fields.
func appendedStructs(v ssa.Value) []map[int]ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []map[int]ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			out = append(out, structAt(ia))
		}
	}
	return out
}

// cmp: the path knows an order of a and b that ok accepts.
func (t *ptrace) cmp(a, b func(ssa.Value) bool, ok func(op token.Token) bool) bool {
	for _, c := range t.conds {
		x, is := c.v.(*ssa.BinOp)
		if !is {
			continue
		}
		op := x.Op
		if !c.pol {
			op = negOp(op)
		}
		l, r := t.resolve(x.X), t.resolve(x.Y)
		if a(l) && b(r) && ok(op) {
			return true
		}
		if a(r) && b(l) && ok(flipOp(op)) {
			return true
		}
	}
	return false
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func isInt(k int64) func(ssa.Value) bool {
	return func(v ssa.Value) bool { n, ok := constInt(v); return ok && n == k }
}

func isVal(x ssa.Value) func(ssa.Value) bool { return func(v ssa.Value) bool { return v == x } }

func atLeast(op token.Token) bool {
	return op == token.GEQ || op == token.GTR || op == token.EQL
}

func isPositionsName(n string) bool { return n == "Insert" || n == "Delete" || n == "Replace" }

func (m *bufModel) record() {
	c, p := m.c, m.p
	for _, name := range []string{"Insert", "Delete", "Replace"} {
		f := p.Func(bufPath, "Buffer."+name)
		if f == nil {
			c.Viol("record", bufPath, name, "Buffer.%s is gone", name)
			continue
		}
		m.recorders[f] = true
		b := ssa.Value(f.Params[0])
		ints, text := []ssa.Value{}, ssa.Value(nil)
		for _, q := range f.Params[1:] {
			if isStringType(q.Type()) {
				text = q
			} else {
				ints = append(ints, q)
			}
		}
		paths, ok := enumPaths(f, 2000)
		if !ok || len(paths) == 0 || len(ints) == 0 {
			c.Viol("record", c.Pos(p, f.Pos()), name, "not recognised")
			continue
		}
		start, end := ints[0], ints[len(ints)-1]
		for _, t := range paths {
			c.Obl("record", name)
			var got map[int]ssa.Value
			n := 0
			bad := false
			t.each(func(ins ssa.Instruction) {
				switch x := ins.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || fa.Field != m.qF || namedOf(fa.X.Type()) != m.buf {
						return
					}
					n++
					call, ok := t.resolve(x.Val).(*ssa.Call)
					if !ok {
						bad = true
						return
					}
					if _, ok := isBuiltinCall(call, "append"); !ok || !m.isField(t.resolve(call.Common().Args[0]), fa.X, m.qF) || fa.X != b {
						bad = true
						return
					}
					if es := appendedStructs(call.Common().Args[1]); len(es) == 1 {
						got = es[0]
					} else {
						bad = true
					}
				case *ssa.Call:
					g := x.Common().StaticCallee()
					if g == nil || len(x.Common().Args) < 3 || x.Common().Args[0] != b || !isPositionsName(g.Name()) || g == f {
						return
					}
					// recorded by another, checked by itself
					n++
					a := x.Common().Args
					got = map[int]ssa.Value{m.startF: a[1], m.endF: a[2]}
					if isStringType(a[len(a)-1].Type()) {
						got[m.newF] = a[len(a)-1]
						got[m.endF] = a[len(a)-2]
					}
					got[-1] = x
				}
			})
			where := c.Pos(p, t.ret.Pos())
			if bad || n != 1 || got == nil {
				c.Viol("record", where, name, "%s does not record one edit", name)
				continue
			}
			get := func(k int) ssa.Value {
				v := got[k]
				if v == nil {
					return nil
				}
				return t.resolve(ownField(t.resolve(v)))
			}
			s, e, nw := get(m.startF), get(m.endF), get(m.newF)
			toEnd := t.cmp(isVal(end), isInt(-1), func(op token.Token) bool { return op == token.EQL })
			okEnd := e == end && !(toEnd && got[-1] == nil) || name != "Insert" && e != nil && m.lenOld(e) && toEnd
			if e == nil {
				// the zero value
				okEnd = false
			}
			okNew := nw == text && text != nil
			if text == nil {
				k, isK := "", false
				if nw != nil {
					k, isK = constStr(nw)
				}
				okNew = nw == nil || isK && k == ""
			}
			if s != start || !okEnd || !okNew {
				c.Viol("record", where, name+" exactly", "%s records another range or text than it was given", name)
			}
			if got[-1] != nil {
				continue
			}
			endIs := func(v ssa.Value) bool { return v == e || m.lenOld(e) && m.lenOld(v) }
			if !t.cmp(isVal(s), isInt(0), atLeast) && !t.cmp(isVal(s), isInt(-1), func(op token.Token) bool { return op == token.GTR }) {
				c.Viol("record", where, name+" before", "%s accepts a position before the source", name)
			}
			if !m.lenOld(e) && !t.cmp(m.lenOld, endIs, atLeast) {
				c.Viol("record", where, name+" beyond", "%s accepts a position beyond the source", name)
			}
			if s != e && !t.cmp(endIs, isVal(s), atLeast) {
				c.Viol("record", where, name+" reversed", "%s accepts a range that ends before it starts", name)
			}
		}
	}
}

// ownField: the value a field of a local struct was set to, once.
func ownField(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return v
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return v
	}
	if _, ok := fa.X.(*ssa.Alloc); !ok {
		return v
	}
	n := 0
	eachInstr(u.Parent(), func(ins ssa.Instruction) {
		if st, ok := ins.(*ssa.Store); ok {
			if g, ok := st.Addr.(*ssa.FieldAddr); ok && g.X == fa.X && g.Field == fa.Field || st.Addr == fa.X {
				n++
			}
		}
	})
	if w := structAt(fa.X)[fa.Field]; w != nil && n == 1 {
		return w
	}
	return v
}

// order: the sort is stable and compares start, then end.
func (m *bufModel) order() {
	c, p := m.c, m.p
	f := p.Func(bufPath, "Buffer.Bytes")
	if f == nil {
		c.Viol("order", bufPath, "Bytes", "Buffer.Bytes is gone")
		return
	}
	m.bytesFn = f
	var sorts []*ssa.Call
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		n := calleeName(call)
		if !strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "slices.") {
			return
		}
		sorts = append(sorts, call)
	})
	c.Obl("order", "stable sort")
	if len(sorts) != 1 {
		c.Viol("order", c.Pos(p, f.Pos()), "sort", "the edits are not sorted once")
		return
	}
	call := sorts[0]
	where := c.Pos(p, call.Pos())
	var less *ssa.Function
	arg := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			return v
		}
	}
	list := arg(call.Common().Args[0])
	byIndex := true
	switch n := calleeName(call); n {
	case "sort.Stable":
		if nt := namedOf(list.Type()); nt != nil {
			less = p.Func(nt.Obj().Pkg().Path(), nt.Obj().Name()+".Less")
			m.sorter(nt)
		}
	case "sort.SliceStable":
		fs := p.FuncValues(call.Common().Args[1])
		if len(fs) == 1 {
			less = fs[0]
		}
	default:
		c.Viol("order", where, "sort", "the edits are sorted by %s, which may swap edits at one position", n)
		return
	}
	if !m.isField(list, f.Params[0], m.qF) {
		c.Viol("order", where, "sort", "something else than the recorded edits is sorted")
	}
	if less == nil {
		c.Viol("order", where, "less", "how edits compare was not found")
		return
	}
	m.less(less, byIndex)
	// before anything is applied
	eachInstr(f, func(ins ssa.Instruction) {
		if ia, ok := ins.(*ssa.IndexAddr); ok && m.isField(ia.X, nil, m.qF) && !alwaysBefore(ins, func(i ssa.Instruction) bool { return i == ssa.Instruction(call) }) {
			c.Viol("order", c.Pos(p, ins.Pos()), "sort first", "edits are applied without having been sorted")
		}
	})
}

// sorter: Len and Swap are what the sort expects.
func (m *bufModel) sorter(nt *types.Named) {
	c, p := m.c, m.p
	ln := p.Func(nt.Obj().Pkg().Path(), nt.Obj().Name()+".Len")
	sw := p.Func(nt.Obj().Pkg().Path(), nt.Obj().Name()+".Swap")
	if ln == nil || sw == nil {
		return
	}
	c.Obl("order", "Len")
	for _, r := range returnsOf(ln) {
		if lenArg(r.Results[0]) != ssa.Value(ln.Params[0]) {
			c.Viol("order", c.Pos(p, r.Pos()), "Len", "the sort does not see all edits")
		}
	}
	c.Obl("order", "Swap")
	ok := map[string]bool{}
	n := 0
	eachInstr(sw, func(ins ssa.Instruction) {
		st, is := ins.(*ssa.Store)
		if !is {
			return
		}
		to, is := st.Addr.(*ssa.IndexAddr)
		if !is {
			return
		}
		n++
		from := unloadElem(st.Val)
		if from == nil || from.X != ssa.Value(sw.Params[0]) || to.X != from.X {
			return
		}
		// read before either is written
		ld := st.Val.(*ssa.UnOp)
		eachInstr(sw, func(j ssa.Instruction) {
			if s2, is := j.(*ssa.Store); is {
				if _, is := s2.Addr.(*ssa.IndexAddr); is && mayFollow(s2, ld) {
					from = nil
				}
			}
		})
		if from == nil {
			return
		}
		i, j := ssa.Value(sw.Params[1]), ssa.Value(sw.Params[2])
		if to.Index == i && from.Index == j {
			ok["ij"] = true
		}
		if to.Index == j && from.Index == i {
			ok["ji"] = true
		}
	})
	if len(ok) != 2 || n != 2 || len(sw.Blocks) != 1 {
		c.Viol("order", c.Pos(p, sw.Pos()), "Swap", "swapping two edits does not exchange them")
	}
}

// less: decided for every order of the starts and of the ends.
func (m *bufModel) less(f *ssa.Function, byIndex bool) {
	c, p := m.c, m.p
	np := len(f.Params)
	if np < 2 {
		c.Viol("order", c.Pos(p, f.Pos()), "less", "how edits compare is not recognised")
		return
	}
	a, b := ssa.Value(f.Params[np-2]), ssa.Value(f.Params[np-1])
	if rs := returnsOf(f); len(rs) == 1 && len(f.Blocks) == 1 {
		if call, ok := rs[0].Results[0].(*ssa.Call); ok {
			g := call.Common().StaticCallee()
			as := call.Common().Args
			if n := len(as); g != nil && g != f && isRepoFn(g) && n >= 2 && as[n-2] == a && as[n-1] == b {
				m.less(g, byIndex)
				return
			}
		}
	}
	// which: 0/1 for the first and second edit, and its field
	which := func(v ssa.Value) (int, int) {
		var addr ssa.Value
		field := -1
		switch x := v.(type) {
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return -1, -1
			}
			addr, field = fa.X, fa.Field
		case *ssa.Field:
			u, ok := x.X.(*ssa.UnOp)
			if !ok {
				return -1, -1
			}
			addr, field = u.X, x.Field
		default:
			return -1, -1
		}
		if al, ok := addr.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					if u, ok := st.Val.(*ssa.UnOp); ok {
						addr = u.X
					}
				}
			}
		}
		ia, ok := addr.(*ssa.IndexAddr)
		if !ok {
			return -1, -1
		}
		switch ia.Index {
		case a:
			return 0, field
		case b:
			return 1, field
		}
		return -1, -1
	}
	paths, ok := enumPaths(f, 200)
	if !ok || len(paths) == 0 {
		c.Viol("order", c.Pos(p, f.Pos()), "less", "how edits compare is not recognised")
		return
	}
	for ds := -1; ds <= 1; ds++ {
		for de := -1; de <= 1; de++ {
			val := func(v ssa.Value) (int64, bool) {
				if k, ok := constInt(v); ok {
					return k, true
				}
				w, fl := which(v)
				d := 0
				switch fl {
				case m.startF:
					d = ds
				case m.endF:
					d = de
				default:
					return 0, false
				}
				if w == 0 {
					return 10 + int64(d), true
				}
				return 10, w == 1
			}
			var eval func(t *ptrace, v ssa.Value) (bool, bool)
			eval = func(t *ptrace, v ssa.Value) (bool, bool) {
				v = t.resolve(v)
				if k, ok := constBool(v); ok {
					return k, true
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
					k, ok := eval(t, u.X)
					return !k, ok
				}
				x, ok := v.(*ssa.BinOp)
				if !ok {
					return false, false
				}
				num := func(v ssa.Value) (int64, bool) {
					v = t.resolve(v)
					if s, ok := v.(*ssa.BinOp); ok && s.Op == token.SUB {
						l, ok1 := val(t.resolve(s.X))
						r, ok2 := val(t.resolve(s.Y))
						return l - r, ok1 && ok2
					}
					return val(v)
				}
				l, ok1 := num(x.X)
				r, ok2 := num(x.Y)
				if !ok1 || !ok2 {
					return false, false
				}
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					return constant.Compare(constant.MakeInt64(l), x.Op, constant.MakeInt64(r)), true
				}
				return false, false
			}
			c.Obl("order", "less "+itoa(ds+1)+itoa(de+1))
			want := ds < 0 || ds == 0 && de < 0
			matched := 0
			for _, t := range paths {
				feasible := true
				for _, cd := range t.conds {
					k, ok := eval(t, cd.v)
					if !ok {
						c.Viol("order", c.Pos(p, cd.v.Pos()), "less", "edits are ordered by something else than their positions")
						return
					}
					if k != cd.pol {
						feasible = false
					}
				}
				if !feasible {
					continue
				}
				matched++
				k, ok := eval(t, t.ret.Results[0])
				if !ok || k != want {
					c.Viol("order", c.Pos(p, t.ret.Pos()), "less", "edits are not ordered by start, then end: insertions come before what replaces the text behind them")
					return
				}
			}
			if matched == 0 {
				c.Viol("order", c.Pos(p, f.Pos()), "less", "how edits compare is not recognised")
				return
			}
		}
	}
}

// piece of the result: a range of the source, or an edit's text.
type bpiece struct {
	base   bool
	lo, hi ssa.Value // of the source
	text   ssa.Value
	other  bool
}

// apply: what Bytes puts together.
func (m *bufModel) apply() {
	c, p := m.c, m.p
	f := m.bytesFn
	if f == nil {
		return
	}
	var h *ssa.BasicBlock
	var idx ssa.Value
	// an edit's field, of the edit at hand
	field := func(v ssa.Value, k int) bool {
		var addr ssa.Value
		switch x := v.(type) {
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok || fa.Field != k {
				return false
			}
			addr = fa.X
		case *ssa.Field:
			u, ok := x.X.(*ssa.UnOp)
			if !ok || x.Field != k {
				return false
			}
			addr = u.X
		default:
			return false
		}
		if al, ok := addr.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					n++
					if u, ok := st.Val.(*ssa.UnOp); ok {
						addr = u.X
					}
				}
			}
			if n != 1 {
				return false
			}
		}
		ia, ok := addr.(*ssa.IndexAddr)
		return ok && m.isField(ia.X, f.Params[0], m.qF) && atIndex(ia.Index, idx)
	}
	// the loop that carries an offset round
	var off, acc *ssa.Phi
	all := false
	for _, b := range f.Blocks {
		if !isLoopHeader(b) {
			continue
		}
		i, l := wholeIndex(p, b)
		if i == nil || !m.isField(l, f.Params[0], m.qF) {
			continue
		}
		all = true
		idx = i
		var o, ac *ssa.Phi
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok || ssa.Value(ph) == idx {
				continue
			}
			for k, q := range b.Preds {
				if !b.Dominates(q) {
					continue
				}
				for _, leaf := range phiLeaves(ph.Edges[k]) {
					if field(leaf, m.endF) {
						o = ph
					}
				}
			}
			if sl, ok := ph.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				ac = ph
			}
		}
		if o == nil {
			continue
		}
		if h != nil {
			c.Viol("apply", c.Pos(p, f.Pos()), "loop", "the edits are applied twice")
			return
		}
		h, off, acc = b, o, ac
	}
	c.Obl("apply", "loop")
	if !all {
		c.Viol("apply", c.Pos(p, f.Pos()), "loop", "not every edit is applied")
		return
	}
	if h != nil {
		idx, _ = wholeIndex(p, h)
	}
	if off == nil {
		c.Viol("apply", c.Pos(p, f.Pos()), "offset", "the source behind an edit is not gone on with where the edit ends")
		return
	}
	var pieces func(t *ptrace, v ssa.Value) []bpiece
	piece := func(t *ptrace, v ssa.Value) bpiece {
		v = t.resolve(v)
		if cv, ok := v.(*ssa.Convert); ok {
			v = t.resolve(cv.X)
		}
		if sl, ok := v.(*ssa.Slice); ok && m.isField(sl.X, f.Params[0], m.oldF) {
			return bpiece{lo: sl.Low, hi: sl.High}
		}
		if field(v, m.newF) {
			return bpiece{text: v}
		}
		return bpiece{other: true}
	}
	pieces = func(t *ptrace, v ssa.Value) []bpiece {
		v = t.resolve(v)
		if v == ssa.Value(acc) {
			return []bpiece{{base: true}}
		}
		call, ok := v.(*ssa.Call)
		if ok {
			if _, is := isBuiltinCall(call, "append"); is {
				return append(pieces(t, call.Common().Args[0]), piece(t, call.Common().Args[1]))
			}
		}
		return []bpiece{{other: true}}
	}
	// a buffer written to instead
	var sink ssa.Value
	writes := func(t *ptrace) []bpiece {
		out := []bpiece{{base: true}}
		t.each(func(ins ssa.Instruction) {
			call, ok := ins.(*ssa.Call)
			if !ok || call.Common().StaticCallee() == nil {
				return
			}
			switch calleeName(call) {
			case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*strings.Builder).WriteString":
				if sink == nil {
					sink = call.Common().Args[0]
				}
				if sink == call.Common().Args[0] {
					out = append(out, piece(t, call.Common().Args[1]))
				}
			case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate", "(*strings.Builder).Reset", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
				out = append(out, bpiece{other: true})
			}
		})
		return out
	}
	isOff := func(t *ptrace) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return v == ssa.Value(off) }
	}
	var body, after *ssa.BasicBlock
	for _, s := range h.Succs {
		if inLoop(s, h) && s != h {
			body = s
		} else {
			after = s
		}
	}
	// at the start
	for k, q := range h.Preds {
		if h.Dominates(q) {
			continue
		}
		if n, ok := constInt(off.Edges[k]); !ok || n != 0 {
			c.Viol("apply", c.Pos(p, f.Pos()), "start", "what precedes the first edit is lost")
		}
		if acc != nil && !emptyBytes(acc.Edges[k]) {
			c.Viol("apply", c.Pos(p, f.Pos()), "start", "something precedes the source")
		}
	}
	if body == nil || after == nil {
		c.Viol("apply", c.Pos(p, f.Pos()), "loop", "the edits are not gone through")
		return
	}
	ts, ok := enumRegion(body, h, func(b *ssa.BasicBlock) bool { return b == h }, 500)
	if !ok || len(ts) == 0 {
		c.Viol("apply", c.Pos(p, f.Pos()), "loop", "the edits are not gone through")
		return
	}
	for _, t := range ts {
		where := c.Pos(p, lastPos(t))
		c.Obl("apply", "one edit")
		if t.end != h {
			c.Viol("apply", where, "edit", "edits behind one can be left out")
			continue
		}
		var from *ssa.BasicBlock
		if n := len(t.blocks); n >= 2 {
			from = t.blocks[n-2]
		}
		back := map[*ssa.Phi]ssa.Value{}
		for _, i := range h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			delete(t.phi, ph)
		}
		for _, i := range h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, q := range h.Preds {
				if q == from {
					back[ph] = t.resolve(ph.Edges[k])
				}
			}
		}
		t.blocks = t.blocks[:len(t.blocks)-1]
		var got []bpiece
		if acc != nil {
			got = pieces(t, back[acc])
		} else {
			got = writes(t)
		}
		startV := func(v ssa.Value) bool { return field(v, m.startF) }
		none := t.cmp(startV, isOff(t), func(op token.Token) bool { return op == token.EQL })
		if !field(back[off], m.endF) {
			c.Viol("apply", where, "offset", "the source behind an edit is not gone on with where the edit ends")
		}
		i := 0
		if i < len(got) && got[i].base {
			i++
		} else {
			c.Viol("apply", where, "edit", "what was put together before an edit is lost")
			continue
		}
		if i < len(got) && got[i].lo == ssa.Value(off) && got[i].hi != nil && field(t.resolve(got[i].hi), m.startF) {
			i++
		} else if !none {
			c.Viol("apply", where, "before", "the source before an edit is not copied up to where the edit starts")
		}
		if i < len(got) && got[i].text != nil {
			i++
		} else if !t.knows(p, func(cond ssa.Value, pol bool) bool {
			return emptyStringOf(cond, pol, func(v ssa.Value) bool { return field(v, m.newF) })
		}) {
			c.Viol("apply", where, "text", "an edit's text is left out, or comes before the source it follows")
		}
		if i != len(got) {
			c.Viol("apply", where, "more", "an edit puts in more than its text")
		}
		if !t.cmp(startV, isOff(t), atLeast) {
			c.Viol("apply", where, "overlap", "overlapping edits are not refused")
		}
	}
	// the rest
	ts, ok = enumRegion(after, h, nil, 50)
	if !ok || len(ts) == 0 {
		c.Viol("apply", c.Pos(p, f.Pos()), "rest", "the source behind the last edit is lost")
		return
	}
	for _, t := range ts {
		c.Obl("apply", "rest")
		var got []bpiece
		res := t.resolve(t.ret.Results[0])
		if acc != nil {
			got = pieces(t, res)
		} else {
			got = writes(t)
			if cv, ok := res.(*ssa.Convert); ok {
				res = cv.X
			}
			call, ok := res.(*ssa.Call)
			if !ok || sink == nil || len(call.Common().Args) != 1 || call.Common().Args[0] != sink {
				c.Viol("apply", c.Pos(p, t.ret.Pos()), "result", "what is answered is not what was put together")
			}
		}
		if len(got) != 2 || !got[0].base || got[1].lo != ssa.Value(off) || got[1].hi != nil && !m.lenOld(got[1].hi) {
			c.Viol("apply", c.Pos(p, t.ret.Pos()), "rest", "the source behind the last edit is not copied to its end")
		}
	}
	// nothing to do
	for _, r := range returnsOf(f) {
		if !h.Dominates(r.Block()) {
			c.Viol("apply", c.Pos(p, r.Pos()), "result", "a result is answered without the edits having been applied")
		}
	}
	s := p.Func(bufPath, "Buffer.String")
	if s != nil {
		c.Obl("apply", "String")
		for _, r := range returnsOf(s) {
			cv, ok := r.Results[0].(*ssa.Convert)
			good := false
			if ok {
				call, ok := cv.X.(*ssa.Call)
				good = ok && call.Common().StaticCallee() == f && call.Common().Args[0] == ssa.Value(s.Params[0])
			}
			if call, ok := r.Results[0].(*ssa.Call); ok && len(call.Common().Args) == 1 {
				k, ok := call.Common().Args[0].(*ssa.Call)
				good = ok && k.Common().StaticCallee() == f && k.Common().Args[0] == ssa.Value(s.Params[0])
			}
			if !good {
				c.Viol("apply", c.Pos(p, r.Pos()), "String", "the text answered is not the one with the edits applied")
			}
		}
	}
}

// atIndex: i is the loop's index, or what it becomes at the top.
func atIndex(i, idx ssa.Value) bool {
	if i == idx {
		return true
	}
	if b, ok := i.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == idx {
		k, ok := constInt(b.Y)
		return ok && k == 1
	}
	return false
}

func phiLeaves(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				visit(e)
			}
			return
		}
		out = append(out, v)
	}
	visit(v)
	return out
}

func emptyBytes(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			n, ok := constInt(x.High)
			return ok && n == 0
		}
	}
	return false
}

// source: nothing else writes the source or the queue.
func (m *bufModel) source() {
	c, p := m.c, m.p
	n := 0
	for _, f := range p.Funcs {
		if !isRepoFn(f) {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			where := c.Pos(p, ins.Pos())
			switch x := ins.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				switch {
				case namedOf(fa.X.Type()) == m.buf && fa.Field == m.oldF:
					n++
					c.Obl("source", shortFn(f))
					_, fresh := fa.X.(*ssa.Alloc)
					_, param := x.Val.(*ssa.Parameter)
					if !fresh || !param {
						c.Viol("source", where, shortFn(f)+" source", "the source of a buffer is replaced")
					}
				case namedOf(fa.X.Type()) == m.buf && fa.Field == m.qF:
					c.Obl("source", shortFn(f))
					if !m.recorders[f] {
						c.Viol("source", where, shortFn(f)+" edits", "recorded edits are changed")
					}
				case types.Identical(derefType(fa.X.Type()), m.elem):
					base := fa.X
					if ia, ok := base.(*ssa.IndexAddr); ok {
						if _, arr := ia.X.(*ssa.Alloc); arr {
							return // the elements of a literal
						}
						c.Viol("source", where, shortFn(f)+" edits", "a recorded edit is changed")
					}
				}
			case *ssa.UnOp:
				if !m.isField(x, nil, m.oldF) {
					return
				}
				m.readOnly(f, x, 0)
			}
		})
	}
	if n == 0 {
		c.Viol("source", bufPath, "source", "where a buffer gets its source was not found")
	}
	re := p.Func(bufPath, "Buffer.RangeEdits")
	if re != nil {
		c.Obl("source", "RangeEdits")
		good := false
		eachInstr(re, func(ins ssa.Instruction) {
			call, ok := ins.(*ssa.Call)
			if !ok || call.Common().Value != ssa.Value(re.Params[1]) || skipsIteration(call) {
				return
			}
			h := loopOf(call.Block())
			if h == nil {
				return
			}
			_, l := wholeIndex(p, h)
			if l == nil || !m.isField(l, re.Params[0], m.qF) {
				return
			}
			a := call.Common().Args
			good = len(a) == 3 && fieldIndexOf(a[0]) == m.startF && fieldIndexOf(a[1]) == m.endF && fieldIndexOf(a[2]) == m.newF
		})
		if !good {
			c.Viol("source", c.Pos(p, re.Pos()), "RangeEdits", "not every edit is shown, or not as it is")
		}
	}
	he := p.Func(bufPath, "Buffer.HasEdits")
	if he != nil {
		c.Obl("source", "HasEdits")
		for _, r := range returnsOf(he) {
			if !p.implies(r.Results[0], true, func(cond ssa.Value, pol bool) bool {
				l, op, k, ok := lenCompare(cond, pol)
				return ok && impliesNonEmpty(op, k) && m.isField(l, nil, m.qF)
			}, 0) || !p.implies(r.Results[0], false, func(cond ssa.Value, pol bool) bool {
				l, op, k, ok := lenCompare(cond, pol)
				return ok && impliesEmpty(op, k) && m.isField(l, nil, m.qF)
			}, 0) {
				c.Viol("source", c.Pos(p, r.Pos()), "HasEdits", "a file with edits counts as unchanged, or the other way round")
			}
		}
	}
}

func fieldIndexOf(v ssa.Value) int {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.Field
		}
	case *ssa.Field:
		return x.Field
	}
	return -1
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// readOnly: the bytes of the source are not written through v.
func (m *bufModel) readOnly(f *ssa.Function, v ssa.Value, depth int) {
	if depth > 5 || v.Referrers() == nil {
		return
	}
	c, p := m.c, m.p
	for _, r := range *v.Referrers() {
		where := c.Pos(p, r.Pos())
		switch x := r.(type) {
		case *ssa.Slice:
			m.readOnly(f, x, depth+1)
		case *ssa.Phi:
			m.readOnly(f, x, depth+1)
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					c.Viol("source", where, shortFn(f)+" bytes", "bytes of the source are overwritten")
				}
			}
		case *ssa.Call:
			if _, ok := isBuiltinCall(x, "append"); ok && x.Common().Args[0] == v {
				c.Viol("source", where, shortFn(f)+" bytes", "bytes of the source are overwritten: it is appended to in place")
			}
			if _, ok := isBuiltinCall(x, "copy"); ok && x.Common().Args[0] == v {
				c.Viol("source", where, shortFn(f)+" bytes", "bytes of the source are overwritten")
			}
		}
	}
}

// offsets: goedit.
func (m *bufModel) offsets() {
	c, p := m.c, m.p
	sp := p.pkg(goeditPk)
	if sp == nil {
		c.Viol("offset", goeditPk, "goedit", "package goedit is gone")
		return
	}
	off := map[*ssa.Function]bool{}
	isOffset := func(v ssa.Value, pos ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil {
			return false
		}
		g := call.Common().StaticCallee()
		if fnPkgPath(g) != goeditPk {
			return false
		}
		off[g] = true
		return len(call.Common().Args) == 2 && call.Common().Args[1] == pos
	}
	for _, name := range []string{"Insert", "Delete", "Replace"} {
		f := p.Func(goeditPk, "Edit."+name)
		if f == nil {
			c.Viol("offset", goeditPk, name, "Edit.%s is gone", name)
			continue
		}
		c.Obl("offset", name)
		paths, ok := enumPaths(f, 100)
		if !ok || len(paths) == 0 {
			c.Viol("offset", c.Pos(p, f.Pos()), name, "not recognised")
			continue
		}
		want := p.Func(bufPath, "Buffer."+name)
		for _, t := range paths {
			n := 0
			t.each(func(ins ssa.Instruction) {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Common().StaticCallee() == nil || !m.recorders[call.Common().StaticCallee()] {
					return
				}
				n++
				a := call.Common().Args
				good := call.Common().StaticCallee() == want && len(a) == len(f.Params)
				for i := 1; good && i < len(a); i++ {
					if isStringType(a[i].Type()) {
						good = t.resolve(a[i]) == ssa.Value(f.Params[i])
					} else {
						good = isOffset(t.resolve(a[i]), f.Params[i])
					}
				}
				if !good {
					c.Viol("offset", c.Pos(p, call.Pos()), name, "%s is passed on with other positions or another text", name)
				}
			})
			if n != 1 {
				c.Viol("offset", c.Pos(p, t.ret.Pos()), name, "%s is not passed on", name)
			}
		}
	}
	for g := range off {
		c.Obl("offset", shortFn(g))
		paths, ok := enumPaths(g, 100)
		if !ok || len(paths) == 0 {
			c.Viol("offset", c.Pos(p, g.Pos()), shortFn(g), "not recognised")
			continue
		}
		pos := ssa.Value(g.Params[1])
		nopos := func(t *ptrace, want bool) bool {
			return t.cmp(isVal(pos), isInt(0), func(op token.Token) bool { return (op == token.EQL) == want && (op == token.EQL || op == token.NEQ) }) ||
				t.knows(p, func(cond ssa.Value, pol bool) bool {
					call, ok := cond.(*ssa.Call)
					return ok && calleeName(call) == "(go/token.Pos).IsValid" && pol != want && call.Common().Args[0] == pos
				})
		}
		for _, t := range paths {
			v := t.resolve(t.ret.Results[0])
			if k, ok := constInt(v); ok {
				if k != -1 || !nopos(t, true) {
					c.Viol("offset", c.Pos(p, t.ret.Pos()), shortFn(g), "a position is answered with a fixed offset")
				}
				continue
			}
			if !m.posOffset(v, g) {
				c.Viol("offset", c.Pos(p, t.ret.Pos()), shortFn(g), "the offset answered is not the position's offset in its file")
			}
			if !nopos(t, false) {
				c.Viol("offset", c.Pos(p, t.ret.Pos()), shortFn(g)+" none", "no position counts as the start of the file")
			}
		}
	}
	if len(off) == 0 {
		c.Viol("offset", goeditPk, "offset", "where positions become offsets was not found")
	}
	// the source edited is the one given
	for _, f := range p.Funcs {
		if fnPkgPath(f) != goeditPk {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !ptrTo(fa.X.Type(), goeditPk, "Edit") {
				return
			}
			c.Obl("offset", shortFn(f)+" set")
			_, fresh := fa.X.(*ssa.Alloc)
			_, param := st.Val.(*ssa.Parameter)
			if call, ok := st.Val.(*ssa.Call); ok && calleeName(call) == bufPath+".NewBuffer" {
				src := call.Common().Args[0]
				if k, ok := src.(*ssa.Call); ok && len(k.Common().Args) == 1 {
					src = k.Common().Args[0]
				}
				if cv, ok := src.(*ssa.Convert); ok {
					src = cv.X
				}
				_, param = src.(*ssa.Parameter)
			}
			if !fresh || !param {
				c.Viol("offset", c.Pos(p, st.Pos()), shortFn(f)+" set", "an editor is made with another source or file set than it is given")
			}
		})
	}
}

// posOffset: v is Position(pos).Offset, or File(pos).Offset(pos).
func (m *bufModel) posOffset(v ssa.Value, g *ssa.Function) bool {
	var src ssa.Value
	switch x := v.(type) {
	case *ssa.Field:
		if x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() != "Offset" {
			return false
		}
		src = x.X
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "Offset" {
			return false
		}
		al, ok := fa.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				if src != nil {
					return false
				}
				src = st.Val
			}
		}
	case *ssa.Call:
		if calleeName(x) != "(*go/token.File).Offset" || x.Common().Args[1] != ssa.Value(g.Params[1]) {
			return false
		}
		src = x.Common().Args[0]
	}
	call, ok := src.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeName(call) {
	case "(*go/token.FileSet).Position", "(*go/token.FileSet).PositionFor", "(*go/token.FileSet).File":
		return call.Common().Args[1] == ssa.Value(g.Params[1]) && fieldNamed(call.Common().Args[0], "fset")
	}
	return false
}

// files: every file is edited on the text it was parsed from.
func (m *bufModel) files() {
	c, p := m.c, m.p
	n := 0
	for _, f := range p.Funcs {
		if fnPkgPath(f) != editPkg {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !ptrTo(fa.X.Type(), editPkg, "File") || fieldVar(fa.X.Type(), fa.Field).Name() != "Edit" {
				return
			}
			n++
			where := c.Pos(p, st.Pos())
			c.Obl("offset", shortFn(f)+" file")
			call, ok := st.Val.(*ssa.Call)
			good := false
			if ok && fnPkgPath2(call) == goeditPk && len(call.Common().Args) == 2 {
				src := call.Common().Args[1]
				if k, ok := src.(*ssa.Call); ok && len(k.Common().Args) == 1 {
					src = k.Common().Args[0]
				}
				if cv, ok := src.(*ssa.Convert); ok {
					src = cv.X
				}
				if fieldNamed(src, "Content") && fieldNamed(call.Common().Args[0], "Fset") {
					// of the file it is stored with
					for _, v := range structAt(fa.X) {
						if v == fieldBase(src) {
							good = true
						}
					}
				}
			}
			if !good {
				c.Viol("offset", where, shortFn(f)+" file", "a file is edited on another text than it was read with")
			}
		})
	}
	if n == 0 {
		c.Viol("offset", editPkg, "file", "where files get their editors was not found")
	}
}

func fnPkgPath2(call *ssa.Call) string {
	if g := call.Common().StaticCallee(); g != nil {
		return fnPkgPath(g)
	}
	return ""
}

// notes: AddEditsNotes.
func (m *bufModel) notes() {
	c, p := m.c, m.p
	f := p.Func(igoPath, "AddEditsNotes")
	if f == nil {
		c.Viol("notes", igoPath, "AddEditsNotes", "AddEditsNotes is gone")
		return
	}
	c.Obl("notes", "text")
	// the closure given to RangeEdits
	re := p.Func(bufPath, "Buffer.RangeEdits")
	shown := false
	var fields []string
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || re == nil || call.Common().StaticCallee() != re {
			return
		}
		fs := p.FuncValues(call.Common().Args[1])
		if len(fs) != 1 || len(fs[0].Params) != 3 {
			return
		}
		g := fs[0]
		var app *ssa.Call
		eachInstr(g, func(i ssa.Instruction) {
			if k, ok := i.(*ssa.Call); ok {
				if _, ok := isBuiltinCall(k, "append"); ok {
					app = k
				}
			}
		})
		if app == nil || len(g.Blocks) != 1 {
			return
		}
		es := appendedStructs(app.Common().Args[1])
		if len(es) != 1 {
			return
		}
		sl, ok := app.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		st, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		tags := map[string]ssa.Value{"start": g.Params[0], "end": g.Params[1], "new": g.Params[2]}
		n := 0
		for k, v := range es[0] {
			tag := jsonName(st, k)
			fields = append(fields, tag)
			if tags[tag] == v {
				n++
			}
		}
		shown = n == 3
	})
	sort.Strings(fields)
	if !shown {
		c.Viol("notes", c.Pos(p, f.Pos()), "edits", "the notes do not give each edit's start, end and text")
	}
	var strs []ssa.Value
	for _, q := range f.Params {
		if isStringType(q.Type()) {
			strs = append(strs, q)
		}
	}
	paths, ok := enumPaths(f, 500)
	if !ok || len(paths) == 0 || len(strs) != 3 {
		c.Viol("notes", c.Pos(p, f.Pos()), "text", "the notes are not recognised")
		return
	}
	n := 0
	for _, t := range paths {
		if len(t.ret.Results) != 2 || !isNilConst(t.resolve(t.ret.Results[1])) {
			continue
		}
		n++
		c.Obl("notes", "text")
		if why := m.noteText(t, strs[0], strs[1], strs[2]); why != "" {
			c.Viol("notes", c.Pos(p, t.ret.Pos()), "text", "%s", why)
		}
	}
	if n == 0 {
		c.Viol("notes", c.Pos(p, f.Pos()), "text", "no notes are made")
	}
	m.notesCalls(f)
}

// npart is a piece of a text: constant, a value, or a value quoted.
type npart struct {
	lit   string
	v     ssa.Value
	quote bool
}

// textParts is the text v is on the path.
func textParts(t *ptrace, v ssa.Value) []npart {
	var out []npart
	add := func(ps ...npart) {
		for _, q := range ps {
			if q.v == nil && len(out) > 0 && out[len(out)-1].v == nil {
				out[len(out)-1].lit += q.lit
				continue
			}
			if q.v != nil || q.lit != "" {
				out = append(out, q)
			}
		}
	}
	v = t.resolve(v)
	if k, ok := constStr(v); ok {
		return []npart{{lit: k}}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			add(textParts(t, x.X)...)
			add(textParts(t, x.Y)...)
			return out
		}
	case *ssa.Convert:
		return textParts(t, x.X)
	case *ssa.ChangeType:
		return textParts(t, x.X)
	case *ssa.MakeInterface:
		return textParts(t, x.X)
	case *ssa.Call:
		switch calleeName(x) {
		case "strconv.Quote":
			return []npart{{v: t.resolve(x.Common().Args[0]), quote: true}}
		case "fmt.Sprintf", "fmt.Sprint":
			args := variadicArgs(x.Common().Args[len(x.Common().Args)-1])
			if calleeName(x) == "fmt.Sprint" {
				return []npart{{v: x}}
			}
			format, ok := constStr(x.Common().Args[0])
			if !ok {
				return []npart{{v: x}}
			}
			for i := 0; i < len(format); i++ {
				if format[i] != '%' {
					add(npart{lit: format[i : i+1]})
					continue
				}
				i++
				if i >= len(format) {
					return []npart{{v: x}}
				}
				if format[i] == '%' {
					add(npart{lit: "%"})
					continue
				}
				if len(args) == 0 || args[0] == nil {
					return []npart{{v: x}}
				}
				a := textParts(t, args[0])
				args = args[1:]
				switch {
				case format[i] == 's' || format[i] == 'v' && len(a) == 1 && a[0].v != nil && isStringType(a[0].v.Type()):
					add(a...)
				case format[i] == 'q' && len(a) == 1 && a[0].v != nil && !a[0].quote:
					add(npart{v: a[0].v, quote: true})
				default:
					return []npart{{v: x}}
				}
			}
			return out
		case "(*strings.Builder).String", "(*bytes.Buffer).String":
			on := x.Common().Args[0]
			whole := true
			t.each(func(ins ssa.Instruction) {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Common().StaticCallee() == nil || len(call.Common().Args) == 0 || call.Common().Args[0] != on {
					return
				}
				switch name := calleeName(call); name[strings.LastIndex(name, ".")+1:] {
				case "Write", "WriteString":
					add(textParts(t, call.Common().Args[1])...)
				case "WriteByte", "WriteRune":
					k, ok := constInt(call.Common().Args[1])
					whole = whole && ok
					add(npart{lit: string(rune(k))})
				case "String", "Len", "Grow":
				default:
					whole = false
				}
			})
			if !whole {
				return []npart{{v: x}}
			}
			return out
		case "strings.Join":
			sep, ok := constStr(x.Common().Args[1])
			list := variadicArgs(x.Common().Args[0])
			if !ok || len(list) == 0 {
				return []npart{{v: x}}
			}
			for i, e := range list {
				if e == nil {
					return []npart{{v: x}}
				}
				if i > 0 {
					add(npart{lit: sep})
				}
				add(textParts(t, e)...)
			}
			return out
		}
	}
	return []npart{{v: v}}
}

// endsInNewline: text[len(text)-1] == '\n'.
func endsInNewline(cond ssa.Value, pol bool, text ssa.Value) bool {
	x, ok := cond.(*ssa.BinOp)
	if !ok || (x.Op == token.EQL) != pol || x.Op != token.EQL && x.Op != token.NEQ {
		return false
	}
	l, r := x.X, x.Y
	if _, ok := l.(*ssa.Const); ok {
		l, r = r, l
	}
	if k, ok := constInt(r); !ok || k != '\n' {
		return false
	}
	var of, at ssa.Value
	switch e := l.(type) {
	case *ssa.Lookup:
		of, at = e.X, e.Index
	case *ssa.Index:
		of, at = e.X, e.Index
	}
	if of != text {
		return false
	}
	b, ok := at.(*ssa.BinOp)
	if !ok || b.Op != token.SUB || lenArg(b.X) != text {
		return false
	}
	k, ok := constInt(b.Y)
	return ok && k == 1
}

// noteText: the content, and behind it, each on its own line, the notes.
func (m *bufModel) noteText(t *ptrace, file, orig, content ssa.Value) string {
	ps := textParts(t, t.ret.Results[0])
	if len(ps) == 0 || ps[0].v != content || ps[0].quote {
		return "the notes do not follow the content"
	}
	want := []struct {
		lit string
		v   func(ps npart) bool
	}{
		{"// __xgo_file: ", func(q npart) bool { return q.v == file && q.quote }},
		{"\n// __xgo_edits: ", func(q npart) bool {
			ex, ok := q.v.(*ssa.Extract)
			if !ok || q.quote {
				return false
			}
			call, ok := ex.Tuple.(*ssa.Call)
			return ok && calleeName(call) == "encoding/json.Marshal"
		}},
		{"\n// __xgo_original: ", func(q npart) bool { return q.v == orig && q.quote }},
	}
	ps = ps[1:]
	for i, w := range want {
		if len(ps) < 2 || ps[0].v != nil {
			return "the notes are not the file, the edits and the original"
		}
		lit := ps[0].lit
		if i == 0 {
			if strings.HasPrefix(lit, "\n") {
				lit = lit[1:]
			} else if !t.knows(m.p, func(cond ssa.Value, pol bool) bool {
				if endsInNewline(cond, pol, content) {
					return true
				}
				call, ok := cond.(*ssa.Call)
				if !ok || !pol || calleeName(call) != "strings.HasSuffix" || call.Common().Args[0] != content {
					return false
				}
				k, ok := constStr(call.Common().Args[1])
				return ok && k == "\n"
			}) {
				return "the notes start within the last line of the content"
			}
			lit = strings.TrimLeft(lit, "\n")
		}
		if lit != w.lit {
			return "a note is not introduced as the cover tool looks for it, or is in another place"
		}
		if !w.v(ps[1]) {
			return "the note " + strings.TrimSpace(w.lit) + " gives another value, or gives it unquoted"
		}
		ps = ps[2:]
	}
	if len(ps) == 1 && ps[0].v == nil && ps[0].lit == "\n" {
		ps = nil
	}
	if len(ps) != 0 {
		return "something follows the notes, which are looked for on the last lines"
	}
	return ""
}

// notesCalls: the notes are of the file they are added to.
func (m *bufModel) notesCalls(f *ssa.Function) {
	c, p := m.c, m.p
	sites, _ := p.CallSitesOf(f)
	for _, s := range sites {
		c.Obl("notes", "call")
		where := c.Pos(p, s.ins.Pos())
		var of []ssa.Value
		for i := 0; i < 3; i++ {
			v := s.args[i]
			if k, ok := v.(*ssa.Call); ok && len(k.Common().Args) == 1 {
				v = k.Common().Args[0]
			}
			if cv, ok := v.(*ssa.Convert); ok {
				v = cv.X
			}
			name := []string{"Edit", "AbsPath", "Content"}[i]
			if !fieldNamed(v, name) {
				c.Viol("notes", where, "call", "the notes give something else than the file's %s", name)
				continue
			}
			b := fieldBase(v)
			if i > 0 {
				b = fieldBase(b)
			}
			of = append(of, b)
		}
		good := len(of) == 3 && of[0] != nil && of[0] == of[1] && of[0] == of[2]
		if !good {
			c.Viol("notes", where, "call file", "the notes mix two files")
		}
	}
}

// jsonName is the name a field has in JSON.
func jsonName(st *types.Struct, k int) string {
	tag := st.Tag(k)
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return st.Field(k).Name()
	}
	s := tag[i+len(`json:"`):]
	if j := strings.IndexAny(s, `,"`); j >= 0 {
		s = s[:j]
	}
	if s == "" {
		return st.Field(k).Name()
	}
	return s
}

func init() {
	props["I10"] = propDef{run: runI10, assumptions: []string{
		"positions handed to an editor belong to the file it was made for (the callers take them from the file's syntax: properties I03, I04, I05)",
		"go/token answers the offset a position was parsed at; sort.Stable keeps equal elements in order",
		"what the cover tool does with the notes is decided by the template it is given, which is not analysed",
	}}
}

// fieldBase: the struct, or the pointer to it, that the field v is read from.
func fieldBase(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Field:
		return x.X
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	}
	return nil
}
