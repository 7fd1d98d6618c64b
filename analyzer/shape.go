package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// String shapes: what the text (or list, or struct) computed by a function
// looks like for all inputs, as an expression over the function's inputs.
// Branches become guarded alternatives, loops over a list become a map of
// one generic element; nothing is enumerated or executed.
type shp struct {
	mark string
	k    byte
	s    string
	sub  []*shp
	alts []galt
	flds map[string]*shp
	typ  types.Type
	bad  string     // M: why the map is not over every element in order
	dom  []*ssa.Phi // internal
}

// kinds
const (
	sLit    = 'L' // text s
	sConst  = 'K' // constant s, not a string
	sNil    = 'N'
	sHole   = 'H' // input with path s
	sCat    = 'C'
	sAlt    = 'A'
	sQuote  = 'Q' // quoted sub[0]
	sJoin   = 'J' // sub[0] joined with s
	sStmts  = 'T' // statements sub[0] joined
	sList   = '['
	sMap    = 'M' // for each of sub[0], sub[1]; the element is path s
	sPlus   = '+' // lists one after the other
	sStruct = 'S'
	sBin    = 'B' // int operation s
	sBase   = 'b' // what was accumulated before
	sLen    = 'n' // number of elements of sub[0]
	sBad    = '?'
)

type gatom struct {
	key string
	pol bool
}

type galt struct {
	dnf [][]gatom
	v   *shp
}

type sframe struct {
	fn     *ssa.Function
	args   []*shp
	parent *sframe
	site   ssa.CallInstruction
	clo    *ssa.MakeClosure
	cloFr  *sframe
	depth  int
	memo   map[ssa.Value]*shp
	busy   map[ssa.Value]bool
	base   map[ssa.Value]*shp
	gmemo  map[guardKey][][]gatom
	fbase  map[fieldKey]*shp
}

type fieldKey struct {
	a *ssa.Alloc
	i int
}

type shaper struct {
	p *Prog
	// functions modelled as joining statements
	stmtJoin map[*ssa.Function]bool
	// functions left as opaque inputs
	opaque func(*ssa.Function) bool
	// functions passing their text on changed: of their result it is only
	// known which text they were given
	tag    func(*ssa.Function) string
	steps  int
	onPath []*ssa.BasicBlock // while deciding
	fwd    map[*ssa.Function]map[*ssa.BasicBlock]int
}

func lit(s string) *shp { return &shp{k: sLit, s: s} }
func bad(f string, a ...interface{}) *shp {
	return &shp{k: sBad, s: fmt.Sprintf(f, a...)}
}
func hole(path string, t types.Type) *shp { return &shp{k: sHole, s: path, typ: t} }

func (sh *shaper) top(fn *ssa.Function) *sframe {
	fr := &sframe{fn: fn, memo: map[ssa.Value]*shp{}, busy: map[ssa.Value]bool{}}
	for _, a := range fn.Params {
		fr.args = append(fr.args, hole(a.Name(), a.Type()))
	}
	return fr
}

func cat(l ...*shp) *shp {
	var out []*shp
	for _, x := range l {
		if x.k == sCat {
			for _, y := range x.sub {
				out = appendCat(out, y)
			}
			continue
		}
		out = appendCat(out, x)
	}
	switch len(out) {
	case 0:
		return lit("")
	case 1:
		return out[0]
	}
	return &shp{k: sCat, sub: out}
}

func appendCat(out []*shp, y *shp) []*shp {
	if y.k == sLit && y.s == "" {
		return out
	}
	if n := len(out); n > 0 && out[n-1].k == sLit && y.k == sLit {
		out[n-1] = lit(out[n-1].s + y.s)
		return out
	}
	return append(out, y)
}

func plus(l ...*shp) *shp {
	var out []*shp
	for _, x := range l {
		switch {
		case x.k == sPlus:
			for _, y := range x.sub {
				out = appendPlus(out, y)
			}
		case x.k == sNil || x.k == sList && len(x.sub) == 0:
		default:
			out = appendPlus(out, x)
		}
	}
	switch len(out) {
	case 0:
		return &shp{k: sList}
	case 1:
		return out[0]
	}
	return &shp{k: sPlus, sub: out}
}

func appendPlus(out []*shp, y *shp) []*shp {
	if n := len(out); n > 0 && out[n-1].k == sList && y.k == sList {
		out[n-1] = &shp{k: sList, sub: append(append([]*shp(nil), out[n-1].sub...), y.sub...)}
		return out
	}
	return append(out, y)
}

// String gives a canonical rendering.
func (x *shp) String() string {
	if x == nil {
		return "<nil>"
	}
	subs := func(sep string) string {
		var l []string
		for _, y := range x.sub {
			l = append(l, y.String())
		}
		return strings.Join(l, sep)
	}
	switch x.k {
	case sLit:
		return strconv.Quote(x.s)
	case sConst, sHole:
		return x.s
	case sNil:
		return "nil"
	case sCat:
		return "(" + subs("+") + ")"
	case sAlt:
		var l []string
		for _, a := range x.alts {
			l = append(l, dnfString(a.dnf)+"=>"+a.v.String())
		}
		return "{" + strings.Join(l, " | ") + "}"
	case sQuote:
		return "quote(" + subs("") + ")"
	case sJoin:
		return "join(" + strconv.Quote(x.s) + "," + subs(",") + ")"
	case sLen:
		return "len(" + subs("") + ")"
	case sStmts:
		return "stmts(" + subs(",") + ")"
	case sList:
		return "[" + subs(",") + "]"
	case sMap:
		return "map(" + x.bad + " " + x.sub[0].String() + ":" + x.sub[1].String() + ")"
	case sPlus:
		return "(" + subs("++") + ")"
	case sStruct:
		var ks []string
		for f := range x.flds {
			ks = append(ks, f)
		}
		sort.Strings(ks)
		for i, f := range ks {
			ks[i] = f + ":" + x.flds[f].String()
		}
		return "struct{" + strings.Join(ks, ",") + "}"
	case sBin:
		return "(" + subs(x.s) + ")"
	case sBase:
		return "base:" + x.s
	}
	return "?" + x.s
}

func dnfString(d [][]gatom) string {
	var l []string
	for _, c := range d {
		var m []string
		for _, a := range c {
			if a.pol {
				m = append(m, a.key)
			} else {
				m = append(m, "!"+a.key)
			}
		}
		l = append(l, strings.Join(m, "&"))
	}
	return strings.Join(l, "||")
}

func (sh *shaper) eval(v ssa.Value, fr *sframe) *shp {
	if b, ok := fr.base[v]; ok {
		return b
	}
	if s, ok := fr.memo[v]; ok {
		return s
	}
	if fr.busy[v] {
		return bad("cycle at %s", v.Name())
	}
	sh.steps++
	if sh.steps > 400000 {
		return bad("too large")
	}
	fr.busy[v] = true
	s := sh.eval1(v, fr)
	delete(fr.busy, v)
	if len(fr.base) == 0 && len(fr.fbase) == 0 {
		fr.memo[v] = s
	}
	return s
}

func zeroShape(t types.Type) *shp {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return lit("")
		case u.Info()&types.IsBoolean != 0:
			return &shp{k: sConst, s: "false"}
		}
		return &shp{k: sConst, s: "0"}
	case *types.Slice:
		return &shp{k: sList}
	case *types.Struct:
		f := map[string]*shp{}
		for i := 0; i < u.NumFields(); i++ {
			f[u.Field(i).Name()] = zeroShape(u.Field(i).Type())
		}
		return &shp{k: sStruct, flds: f, typ: t}
	}
	return &shp{k: sNil}
}

func (sh *shaper) eval1(v ssa.Value, fr *sframe) *shp {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroShape(v.Type())
		}
		if v.Value.Kind() == constant.String {
			return lit(constant.StringVal(v.Value))
		}
		return &shp{k: sConst, s: v.Value.ExactString()}
	case *ssa.Parameter:
		for i, q := range fr.fn.Params {
			if q == v && i < len(fr.args) {
				return fr.args[i]
			}
		}
		return bad("parameter %s", v.Name())
	case *ssa.FreeVar:
		if b, bf := sh.binding(v, fr); b != nil {
			return sh.eval(b, bf)
		}
		return bad("captured %s", v.Name())
	case *ssa.Phi:
		return sh.evalPhi(v, fr)
	case *ssa.BinOp:
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return boolAlt(sh.compare(v, true, fr), sh.compare(v, false, fr))
		}
		x, y := sh.eval(v.X, fr), sh.eval(v.Y, fr)
		if v.Op == token.ADD {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return cat(x, y)
			}
		}
		if x.k == sConst && y.k == sConst {
			a, e1 := strconv.ParseInt(x.s, 10, 64)
			b, e2 := strconv.ParseInt(y.s, 10, 64)
			if e1 == nil && e2 == nil {
				switch v.Op {
				case token.ADD:
					return &shp{k: sConst, s: strconv.FormatInt(a+b, 10)}
				case token.SUB:
					return &shp{k: sConst, s: strconv.FormatInt(a-b, 10)}
				}
			}
		}
		return &shp{k: sBin, s: v.Op.String(), sub: []*shp{x, y}, typ: v.Type()}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			return sh.load(v.X, fr, v)
		case token.NOT:
			return boolAlt(sh.cond(v, true, fr), sh.cond(v, false, fr))
		case token.SUB:
			return &shp{k: sBin, s: v.Op.String(), sub: []*shp{sh.eval(v.X, fr)}}
		}
		return bad("operation %s", v.Op)
	case *ssa.MakeInterface:
		return sh.eval(v.X, fr)
	case *ssa.ChangeInterface:
		return sh.eval(v.X, fr)
	case *ssa.ChangeType:
		return sh.eval(v.X, fr)
	case *ssa.Convert:
		return sh.eval(v.X, fr)
	case *ssa.SliceToArrayPointer:
		return bad("slice conversion")
	case *ssa.TypeAssert:
		return sh.eval(v.X, fr)
	case *ssa.Alloc:
		return sh.object(v, fr)
	case *ssa.FieldAddr:
		// a field's address stands for the field
		return sh.fieldOf(sh.eval(v.X, fr), fieldName(v.X.Type(), v.Field), v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.IndexAddr:
		return sh.index(v.X, v.Index, fr, v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Index:
		return sh.index(v.X, v.Index, fr, v.Type())
	case *ssa.Field:
		return sh.fieldOf(sh.eval(v.X, fr), fieldName(v.X.Type(), v.Field), v.Type())
	case *ssa.Global:
		return sh.global(v)
	case *ssa.MakeSlice:
		return sh.made(v, fr)
	case *ssa.Slice:
		return sh.sliced(v, fr)
	case *ssa.Lookup:
		x, i := sh.eval(v.X, fr), sh.eval(v.Index, fr)
		return hole(x.String()+"["+i.String()+"]", v.Type())
	case *ssa.Extract:
		return sh.extract(v, fr)
	case *ssa.Call:
		return sh.call(v, fr, 0)
	case *ssa.Function, *ssa.MakeClosure:
		return hole("func:"+v.Name(), v.Type())
	case *ssa.MakeMap:
		return hole("map:"+v.Name(), v.Type())
	}
	return bad("%T", v)
}

// boolAlt: a truth value by what it depends on.
func boolAlt(yes, no [][]gatom) *shp {
	t, f := &shp{k: sConst, s: "true"}, &shp{k: sConst, s: "false"}
	switch {
	case len(no) == 0:
		return t
	case len(yes) == 0:
		return f
	}
	return &shp{k: sAlt, alts: []galt{{yes, t}, {no, f}}}
}

func fieldName(t types.Type, i int) string {
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	return u.(*types.Struct).Field(i).Name()
}

// binding finds what a captured variable is bound to.
func (sh *shaper) binding(fv *ssa.FreeVar, fr *sframe) (ssa.Value, *sframe) {
	mc, mf := fr.clo, fr.cloFr
	if mc == nil {
		if l := sh.p.closures[fr.fn]; len(l) == 1 {
			mc = l[0]
			for f := fr.parent; f != nil; f = f.parent {
				if f.fn == mc.Parent() {
					mf = f
					break
				}
			}
		}
	}
	if mc == nil || mf == nil {
		return nil, nil
	}
	for j, q := range fr.fn.FreeVars {
		if q == fv {
			return mc.Bindings[j], mf
		}
	}
	return nil, nil
}

// fieldOf reads a field.
func (sh *shaper) fieldOf(x *shp, name string, t types.Type) *shp {
	switch x.k {
	case sStruct:
		if f, ok := x.flds[name]; ok {
			return f
		}
		return zeroShape(t)
	case sHole:
		return hole(x.s+"."+name, t)
	case sAlt:
		out := &shp{k: sAlt}
		for _, a := range x.alts {
			if a.v.k == sNil {
				// not reached with nil
				continue
			}
			out.alts = append(out.alts, galt{a.dnf, sh.fieldOf(a.v, name, t)})
		}
		return simplAlt(out)
	case sBad:
		return x
	}
	return bad("field %s of %s", name, x)
}

func simplAlt(x *shp) *shp {
	if len(x.alts) == 0 {
		return bad("no alternative")
	}
	same := true
	s0 := x.alts[0].v.String()
	for _, a := range x.alts[1:] {
		if a.v.String() != s0 {
			same = false
		}
	}
	if same {
		return x.alts[0].v
	}
	// nothing for an empty list, else one for each element: one for each
	// element
	if len(x.alts) == 2 {
		for i := 0; i < 2; i++ {
			e, m := x.alts[i], x.alts[1-i]
			if e.v.k == sList && len(e.v.sub) == 0 && m.v.k == sMap && dnfString(e.dnf) == "empty:"+m.v.sub[0].String() && dnfString(m.dnf) == "!"+dnfString(e.dnf) {
				return m.v
			}
		}
	}
	return x
}

// load reads memory at addr.
func (sh *shaper) load(addr ssa.Value, fr *sframe, at ssa.Instruction) *shp {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return sh.cell(a, fr, fr)
	case *ssa.FreeVar:
		b, bf := sh.binding(a, fr)
		if b == nil {
			return bad("captured %s", a.Name())
		}
		if al, ok := b.(*ssa.Alloc); ok {
			return sh.cell(al, bf, fr)
		}
		return sh.load(b, bf, at)
	case *ssa.FieldAddr:
		if al := sh.p.localCell(a.X); al != nil {
			for f := fr; f != nil; f = f.parent {
				if b, ok := f.fbase[fieldKey{al, a.Field}]; ok {
					return b
				}
			}
		}
		return sh.eval(a, fr)
	case *ssa.IndexAddr:
		return sh.eval(a, fr)
	case *ssa.Global:
		return sh.global(a)
	}
	// *p: the pointer stands for what it points to
	return sh.eval(addr, fr)
}

// cell: the value of a local variable kept in memory.
func (sh *shaper) cell(a *ssa.Alloc, fr, cur *sframe) *shp {
	if b, ok := fr.base[a]; ok {
		return b
	}
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
		return sh.eval(a, fr)
	}
	stores := sh.p.cellStoreInstrs(a)
	var init *ssa.Store
	var upd []*ssa.Store
	for _, s := range stores {
		if usesCell(s.Val, a, sh.p, 0) {
			upd = append(upd, s)
			continue
		}
		if init != nil {
			return bad("variable %s set in several places", a.Comment)
		}
		init = s
	}
	var v *shp
	if init == nil {
		v = zeroShape(a.Type().Underlying().(*types.Pointer).Elem())
	} else {
		if init.Parent() != fr.fn {
			return bad("variable %s set in a closure", a.Comment)
		}
		v = sh.eval(init.Val, fr)
	}
	if len(upd) == 0 {
		return v
	}
	// accumulation: in the order the updating statements stand
	type ev struct {
		at ssa.Instruction
		d  *shp
	}
	var evs []ev
	for _, s := range upd {
		if s.Parent() == fr.fn {
			f2 := fr.withBase(a, sh)
			evs = append(evs, ev{s, sh.eval(s.Val, f2)})
			continue
		}
		// in a closure: one update for each call
		mcs := sh.p.closures[s.Parent()]
		if len(mcs) != 1 || mcs[0].Parent() != fr.fn {
			return bad("variable %s updated out of sight", a.Comment)
		}
		sites, complete := sh.p.CallSitesOf(s.Parent())
		if !complete || len(sites) == 0 {
			return bad("calls of the closure updating %s not known", a.Comment)
		}
		if len(liveBlocks(s.Parent())) > 1 && !onEveryPath(s) {
			return bad("closure updates %s on some paths only", a.Comment)
		}
		for _, cs := range sites {
			if cs.ins.Parent() != fr.fn {
				return bad("closure updating %s called elsewhere", a.Comment)
			}
			f2 := fr.withBase(a, sh)
			f3 := sh.enter(s.Parent(), cs.ins, f2)
			if f3 == nil {
				return bad("closure call")
			}
			f3.clo, f3.cloFr = mcs[0], f2
			evs = append(evs, ev{cs.ins, sh.eval(s.Val, f3)})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool {
		return evs[i].at.Block().Index < evs[j].at.Block().Index && !mayPrecede(evs[j].at, evs[i].at) || mayPrecede(evs[i].at, evs[j].at)
	})
	for _, e := range evs {
		d, ok := stripBase(e.d, "cell")
		if !ok {
			return bad("update of %s is no extension: %s", a.Comment, e.d)
		}
		d = sh.wrapLoops(e.at, d, fr, nil)
		v = sh.extend(v, d, a.Type().Underlying().(*types.Pointer).Elem())
	}
	return v
}

// mayPrecede: a comes before b on straight-line order (b reachable from a,
// not the other way round, or both).
func mayPrecede(a, b ssa.Instruction) bool {
	if a == b {
		return false
	}
	return mayFollow(a, b) && !mayFollow(b, a)
}

func onEveryPath(s ssa.Instruction) bool {
	for _, r := range returnsOf(s.Parent()) {
		if !alwaysBefore(r, func(i ssa.Instruction) bool { return i == s }) {
			return false
		}
	}
	return true
}

func usesCell(v ssa.Value, a *ssa.Alloc, p *Prog, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return p.localCell(x.X) == a
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return usesCell(x.Call.Args[0], a, p, d+1)
		}
	case *ssa.BinOp:
		return usesCell(x.X, a, p, d+1) || usesCell(x.Y, a, p, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if usesCell(e, a, p, d+1) {
				return true
			}
		}
	}
	return false
}

func (fr *sframe) withBase(v ssa.Value, sh *shaper) *sframe {
	f := *fr
	f.memo = map[ssa.Value]*shp{}
	f.busy = map[ssa.Value]bool{}
	f.base = map[ssa.Value]*shp{}
	f.gmemo = nil
	for k, b := range fr.base {
		f.base[k] = b
	}
	name := "phi"
	if _, ok := v.(*ssa.Alloc); ok {
		name = "cell"
	}
	f.base[v] = &shp{k: sBase, s: name + ":" + v.Name() + "@" + v.Parent().Name()}
	return &f
}

// stripBase removes the leading base from an extended list or text.
func stripBase(x *shp, _ string) (*shp, bool) {
	switch x.k {
	case sBase:
		return &shp{k: sList}, true
	case sPlus:
		if len(x.sub) > 0 && x.sub[0].k == sBase {
			return plus(x.sub[1:]...), true
		}
		if len(x.sub) > 0 && x.sub[0].k == sAlt {
			if d, ok := stripBase(x.sub[0], ""); ok {
				return plus(append([]*shp{d}, x.sub[1:]...)...), true
			}
		}
	case sCat:
		if len(x.sub) > 0 && x.sub[0].k == sBase {
			return cat(x.sub[1:]...), true
		}
	case sAlt:
		out := &shp{k: sAlt}
		for _, a := range x.alts {
			d, ok := stripBase(a.v, "")
			if !ok {
				return nil, false
			}
			out.alts = append(out.alts, galt{a.dnf, d})
		}
		return simplAlt(out), true
	}
	return nil, false
}

func (sh *shaper) extend(v, d *shp, t types.Type) *shp {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if d.k == sList && len(d.sub) == 0 {
			return v
		}
		if d.k == sMap {
			d = &shp{k: sJoin, sub: []*shp{textList(d)}}
		}
		return cat(v, d)
	}
	return plus(v, d)
}

// textList: texts as lists of one.
func textList(d *shp) *shp {
	switch d.k {
	case sList, sPlus, sBad:
		return d
	case sMap:
		y := *d
		y.sub = []*shp{d.sub[0], textList(d.sub[1])}
		return &y
	case sAlt:
		y := *d
		y.alts = nil
		for _, a := range d.alts {
			y.alts = append(y.alts, galt{a.dnf, textList(a.v)})
		}
		return &y
	}
	return &shp{k: sList, sub: []*shp{d}}
}

// wrapLoops: what happens at ins happens for each element of the loops
// around it (inside until).
func (sh *shaper) wrapLoops(at ssa.Instruction, d *shp, fr *sframe, until *ssa.BasicBlock) *shp {
	for h := loopOf(at.Block()); h != nil && h != until; h = outerLoop(h) {
		d = sh.mapOver(h, d, fr)
		if skipsIteration(at) && d.k == sMap {
			d.bad = "some elements left out"
		}
	}
	return d
}

// mapOver: the loop with header h does d for each element of its list.
func (sh *shaper) mapOver(h *ssa.BasicBlock, d *shp, fr *sframe) *shp {
	if d.k == sList && len(d.sub) == 0 {
		return d
	}
	idx, list, why := sh.loopList(h)
	if list == nil {
		return bad("loop in %s not over a list", h.Parent().Name())
	}
	_ = idx
	l := sh.eval(list, fr)
	return &shp{k: sMap, s: "[*]", sub: []*shp{l, d}, bad: why}
}

// loopList finds the list a loop runs over.
func (sh *shaper) loopList(h *ssa.BasicBlock) (idx ssa.Value, list ssa.Value, why string) {
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		// the value indexed with: the phi or phi+1 (range)
		cands := []ssa.Value{ph}
		for _, r := range *ph.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD {
				cands = append(cands, b)
			}
		}
		for _, c := range cands {
			dir, l, _ := loopRangeTest(sh.p, c)
			if dir == 0 {
				continue
			}
			if whole, _ := loopWhole(sh.p, c, nil); !whole {
				return c, l, "left early"
			}
			if dir < 0 {
				return c, l, "backwards"
			}
			return c, l, ""
		}
	}
	return nil, nil, ""
}

// index reads an element of a list.
func (sh *shaper) index(list, idx ssa.Value, fr *sframe, t types.Type) *shp {
	x := sh.eval(list, fr)
	if c, ok := constInt(idx); ok {
		switch x.k {
		case sList:
			if int(c) < len(x.sub) {
				return x.sub[c]
			}
		case sHole:
			return hole(fmt.Sprintf("%s[%d]", x.s, c), t)
		}
		if r := sh.elemAt(x, int(c), t); r != nil {
			return r
		}
		return bad("element %d of %s", c, x)
	}
	if dir, l := loopRangeDir(sh.p, idx); dir != 0 {
		y := sh.eval(l, fr)
		if y.String() == x.String() || sameLen(x, y) {
			return sh.elem(x, t)
		}
		return bad("element of %s at a position of %s", x, y)
	}
	i := sh.eval(idx, fr)
	if x.k == sHole {
		return hole(x.s+"["+i.String()+"]", t)
	}
	return bad("element %s of %s", i, x)
}

// elemAt: a numbered element of a list that has one (nil: unknown which).
// Lists without it do not come this far.
func (sh *shaper) elemAt(x *shp, c int, t types.Type) *shp {
	switch x.k {
	case sList:
		if c < len(x.sub) {
			return x.sub[c]
		}
	case sHole:
		return hole(fmt.Sprintf("%s[%d]", x.s, c), t)
	case sMap:
		if x.bad != "" || x.sub[0].k != sHole {
			return nil
		}
		r := x.sub[0].s
		body := x.sub[1]
		if !(body.k == sList && len(body.sub) == 1) && (c != 0 || !neverEmpty(body, r)) {
			return nil
		}
		y := substShape(body, r+"[*]", fmt.Sprintf("%s[%d]", r, c))
		return sh.elemAt(y, 0, t)
	case sPlus:
		// the first of a part that has elements
		if c != 0 || len(x.sub) == 0 {
			return nil
		}
		a := sh.elemAt(x.sub[0], 0, t)
		e := emptyCond(x.sub[0], true)
		if a == nil {
			if x.sub[0].k == sList && len(x.sub[0].sub) == 0 {
				return sh.elemAt(plus(x.sub[1:]...), 0, t)
			}
			return nil
		}
		if len(e) == 0 || len(x.sub) == 1 {
			return a
		}
		b := sh.elemAt(plus(x.sub[1:]...), 0, t)
		if b == nil {
			return nil
		}
		return simplAlt(&shp{k: sAlt, alts: []galt{{emptyCond(x.sub[0], false), a}, {e, b}}})
	case sAlt:
		out := &shp{k: sAlt}
		for _, a := range x.alts {
			if a.v.k == sNil || a.v.k == sList && len(a.v.sub) <= c {
				continue
			}
			e := sh.elemAt(a.v, c, t)
			if e == nil {
				return nil
			}
			out.alts = append(out.alts, galt{a.dnf, e})
		}
		if len(out.alts) == 0 {
			return nil
		}
		return simplAlt(out)
	}
	return nil
}

// neverEmpty: the list has elements (every alternative, under its guard).
func neverEmpty(x *shp, root string) bool {
	return len(emptyCond(x, true)) == 0
}

// substShape replaces an input by another throughout.
func substShape(x *shp, from, to string) *shp {
	memo := map[*shp]*shp{}
	var walk func(x *shp) *shp
	walk = func(x *shp) *shp {
		if x == nil {
			return nil
		}
		if y, ok := memo[x]; ok {
			return y
		}
		y := *x
		y.mark = ""
		memo[x] = &y
		y.s = strings.ReplaceAll(x.s, from, to)
		y.sub, y.alts, y.flds = nil, nil, nil
		for _, z := range x.sub {
			y.sub = append(y.sub, walk(z))
		}
		for _, a := range x.alts {
			var d [][]gatom
			for _, c := range a.dnf {
				var e []gatom
				for _, g := range c {
					k := strings.ReplaceAll(g.key, from, to)
					if z := composed[g.key]; z != nil && composed[k] == nil {
						composed[k] = walk(z)
					}
					e = append(e, gatom{k, g.pol})
				}
				d = append(d, e)
			}
			y.alts = append(y.alts, galt{d, walk(a.v)})
		}
		if x.flds != nil {
			y.flds = map[string]*shp{}
			for k, z := range x.flds {
				y.flds[k] = walk(z)
			}
		}
		return &y
	}
	return walk(x)
}

// sameLen: the lists have one element for each element of the same list.
func sameLen(x, y *shp) bool {
	root := func(z *shp) string {
		for z.k == sMap && z.bad == "" && z.sub[1].k == sList && len(z.sub[1].sub) == 1 {
			z = z.sub[0]
		}
		return z.String()
	}
	return root(x) == root(y)
}

// elem: the generic element of a list.
func (sh *shaper) elem(x *shp, t types.Type) *shp {
	if !simpleList(x) && containsBad(x) == "" {
		// instantiated together with the list
		return hole(elemMark(x), t)
	}
	switch x.k {
	case sHole:
		return hole(x.s+"[*]", t)
	case sMap:
		if x.sub[1].k == sList && len(x.sub[1].sub) == 1 {
			return x.sub[1].sub[0]
		}
	case sAlt:
		out := &shp{k: sAlt}
		for _, a := range x.alts {
			if a.v.k == sList && len(a.v.sub) == 0 {
				continue
			}
			out.alts = append(out.alts, galt{a.dnf, sh.elem(a.v, t)})
		}
		return simplAlt(out)
	}
	return bad("an element of %s", x)
}

// simpleList: one element for each element of an input list.
func simpleList(x *shp) bool {
	switch x.k {
	case sHole, sNil:
		return true
	case sList:
		return len(x.sub) == 0
	case sMap:
		return x.sub[1].k == sList && len(x.sub[1].sub) == 1 && simpleList(x.sub[0])
	case sAlt:
		for _, a := range x.alts {
			if !simpleList(a.v) {
				return false
			}
		}
		return true
	}
	return false
}

// elemMark stands for the element of a list put together some other way.
func elemMark(x *shp) string {
	if x.mark != "" {
		return x.mark
	}
	x.mark = elemMark1(x)
	return x.mark
}

func elemMark1(x *shp) string {
	h := fnv.New64a()
	h.Write([]byte(x.String()))
	return fmt.Sprintf("element#%x", h.Sum64())
}

// global: a package variable set once, when initialised.
func (sh *shaper) global(g *ssa.Global) *shp {
	init := g.Pkg.Func("init")
	var val ssa.Value
	n := 0
	for _, s := range sh.p.globStores[g] {
		n++
		if s.Parent() == init {
			val = s.Val
		}
	}
	if n == 1 && val != nil {
		return sh.eval(val, &sframe{fn: init, memo: map[ssa.Value]*shp{}, busy: map[ssa.Value]bool{}})
	}
	return hole("var:"+g.Pkg.Pkg.Path()+"."+g.Name(), g.Type())
}

// object: a struct built in this function.
func (sh *shaper) object(a *ssa.Alloc, fr *sframe) *shp {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		if _, isArr := t.Underlying().(*types.Array); isArr {
			return sh.array(a, fr)
		}
		return sh.cell(a, fr, fr)
	}
	out := &shp{k: sStruct, flds: map[string]*shp{}, typ: t}
	var whole []*ssa.Store
	sets := map[int][]*ssa.Store{}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				whole = append(whole, x)
			}
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == x {
					sets[x.Field] = append(sets[x.Field], s)
				}
			}
		}
	}
	if len(whole) > 1 {
		return bad("struct %s set several times", a.Comment)
	}
	var w *shp
	if len(whole) == 1 {
		w = sh.eval(whole[0].Val, fr)
		if len(sets) == 0 {
			return w
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		ss := sets[i]
		switch {
		case len(ss) == 0 && w != nil:
			out.flds[n] = sh.fieldOf(w, n, st.Field(i).Type())
		case len(ss) == 0 && sh.setElsewhere(a, st.Field(i)):
			out.flds[n] = hole(a.Comment+"@"+a.Parent().Name()+"."+n, st.Field(i).Type())
		case len(ss) == 0:
			out.flds[n] = zeroShape(st.Field(i).Type())
		case len(ss) == 1 && usesField(ss[0].Val, a, i, sh.p, 0):
			out.flds[n] = sh.fieldCell(a, i, ss, w, fr)
		case len(ss) == 1:
			before := zeroShape(st.Field(i).Type())
			if w != nil {
				before = sh.fieldOf(w, n, st.Field(i).Type())
			}
			val := sh.eval(ss[0].Val, fr)
			if d := sh.guards(a.Block(), ss[0].Block(), nil, fr); ss[0].Block() != a.Block() && len(d) > 0 && !alwaysTrue(d) {
				out.flds[n] = &shp{k: sAlt, alts: []galt{{d, val}, {negDNF(d), before}}}
			} else {
				out.flds[n] = val
			}
		default:
			out.flds[n] = sh.fieldCell(a, i, ss, w, fr)
		}
	}
	return out
}

// setElsewhere: the struct is handed to a call and functions other than the
// one building it set the field.
func (sh *shaper) setElsewhere(a *ssa.Alloc, f *types.Var) bool {
	passed := false
	for _, r := range *a.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			for _, x := range c.Common().Args {
				passed = passed || x == ssa.Value(a)
			}
		}
	}
	if !passed {
		return false
	}
	for _, s := range sh.p.fieldStores[f] {
		if s.Parent() != a.Parent() {
			return true
		}
	}
	return false
}

func usesField(v ssa.Value, a *ssa.Alloc, i int, p *Prog, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fa.Field == i {
			return p.localCell(fa.X) == a
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return usesField(x.Call.Args[0], a, i, p, d+1)
		}
	case *ssa.BinOp:
		return usesField(x.X, a, i, p, d+1) || usesField(x.Y, a, i, p, d+1)
	}
	return false
}

// fieldCell: a field that is accumulated into.
func (sh *shaper) fieldCell(a *ssa.Alloc, i int, stores []*ssa.Store, w *shp, fr *sframe) *shp {
	st := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	name, t := st.Field(i).Name(), st.Field(i).Type()
	v := zeroShape(t)
	if w != nil {
		v = sh.fieldOf(w, name, t)
	}
	var upd []*ssa.Store
	n := 0
	for _, s := range stores {
		if s.Parent() != fr.fn {
			return bad("field %s set elsewhere", name)
		}
		if usesField(s.Val, a, i, sh.p, 0) {
			upd = append(upd, s)
			continue
		}
		if n++; n > 1 || !s.Block().Dominates(s.Block()) {
			return bad("field %s set several times", name)
		}
		v = sh.eval(s.Val, fr)
	}
	sort.SliceStable(upd, func(i, j int) bool { return mayPrecede(upd[i], upd[j]) })
	for _, s := range upd {
		f2 := fr.withBase(a, sh)
		delete(f2.base, a)
		if f2.fbase == nil {
			f2.fbase = map[fieldKey]*shp{}
		}
		f2.fbase[fieldKey{a, i}] = &shp{k: sBase, s: "field:" + name}
		d, ok := stripBase(sh.eval(s.Val, f2), "")
		if !ok {
			return bad("update of field %s is no extension", name)
		}
		v = sh.extend(v, sh.wrapLoops(s, d, fr, nil), t)
	}
	return v
}

func alwaysTrue(d [][]gatom) bool {
	for _, c := range d {
		if len(c) == 0 {
			return true
		}
	}
	return false
}

// negDNF: the negation of a condition, as alternatives.
func andDNF(a, b [][]gatom) [][]gatom {
	var out [][]gatom
	for _, x := range a {
		for _, y := range b {
			if m, ok := conjAll(x, y); ok {
				out = append(out, m)
			}
		}
	}
	return simplDNF(out)
}

func negDNF(d [][]gatom) [][]gatom {
	out := [][]gatom{{}}
	for _, c := range d {
		var next [][]gatom
		for _, o := range out {
			for _, a := range c {
				if m, ok := conj(o, gatom{a.key, !a.pol}); ok {
					next = append(next, m)
				}
			}
		}
		out = next
		if len(out) > 64 {
			out = out[:64]
		}
	}
	return out
}

func conj(c []gatom, a gatom) ([]gatom, bool) {
	for _, b := range c {
		if b.key == a.key {
			return c, b.pol == a.pol
		}
	}
	return append(append([]gatom(nil), c...), a), true
}

// array: an array literal as list.
func (sh *shaper) array(a *ssa.Alloc, fr *sframe) *shp {
	t := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if t.Len() > 200 {
		return bad("large array")
	}
	l := make([]*shp, t.Len())
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		var stores []*ssa.Store
		obj := false
		for _, r2 := range *ia.Referrers() {
			switch x := r2.(type) {
			case *ssa.Store:
				if x.Addr == ia {
					stores = append(stores, x)
				}
			case *ssa.FieldAddr:
				obj = true
			}
		}
		if len(stores) == 0 && !obj {
			continue
		}
		i, ok := constInt(ia.Index)
		if !ok || i < 0 || i >= t.Len() || len(stores) != 1 || l[i] != nil {
			return bad("array filled in an unknown way")
		}
		l[i] = sh.eval(stores[0].Val, fr)
	}
	for i := range l {
		if l[i] == nil {
			l[i] = zeroShape(t.Elem())
		}
	}
	return &shp{k: sList, sub: l}
}

// made: a list made with a length and filled by position.
func (sh *shaper) made(m *ssa.MakeSlice, fr *sframe) *shp {
	if n, ok := constInt(m.Len); ok && n == 0 {
		return &shp{k: sList}
	}
	var stores []*ssa.Store
	var idx ssa.Value
	for _, r := range *m.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
				stores = append(stores, s)
				idx = ia.Index
			}
		}
	}
	if len(stores) != 1 {
		return bad("list made with a length, filled in %d places", len(stores))
	}
	h := loopOf(stores[0].Block())
	if h == nil {
		return bad("list filled outside a loop")
	}
	whole, l := loopWhole(sh.p, idx, nil)
	if l == nil {
		return bad("list filled in an unknown loop")
	}
	for _, b := range h.Parent().Blocks {
		if loopOf(b) != h {
			continue
		}
		for _, ins := range b.Instrs {
			var i2 ssa.Value
			switch x := ins.(type) {
			case *ssa.IndexAddr:
				i2 = x.Index
			case *ssa.Index:
				i2 = x.Index
			default:
				continue
			}
			if _, l2, _ := loopRangeTest(sh.p, i2); l2 == nil {
				continue
			}
			x := &linCtx{p: sh.p}
			if !x.form(i2, 0).add(x.form(idx, 0), -1).isConst(0) {
				return bad("list filled in another order than read")
			}
		}
	}
	// the length is the list's
	la := lenArg(m.Len)
	if la == nil || sh.eval(la, fr).String() != sh.eval(l, fr).String() {
		return bad("list of another length than filled")
	}
	d := &shp{k: sMap, s: "[*]", sub: []*shp{sh.eval(l, fr), {k: sList, sub: []*shp{sh.eval(stores[0].Val, fr)}}}}
	if !whole {
		d.bad = "left early"
	} else if skipsIteration(stores[0]) {
		d.bad = "some elements left out"
	}
	return d
}

func (sh *shaper) sliced(v *ssa.Slice, fr *sframe) *shp {
	x := sh.eval(v.X, fr)
	low := v.Low == nil
	if c, ok := v.Low.(*ssa.Const); ok && c != nil {
		if n, ok := constInt(c); ok && n == 0 {
			low = true
		}
	}
	if low && v.High == nil {
		return x
	}
	if n, ok := constInt(v.High); low && ok && n == 0 {
		return &shp{k: sList}
	}
	part := func(w ssa.Value) string {
		if w == nil {
			return ""
		}
		return sh.eval(w, fr).String()
	}
	return hole(x.String()+"["+part(v.Low)+":"+part(v.High)+"]", v.Type())
}

func (sh *shaper) extract(v *ssa.Extract, fr *sframe) *shp {
	switch t := v.Tuple.(type) {
	case *ssa.Call:
		return sh.call(t, fr, v.Index)
	case *ssa.TypeAssert:
		x := sh.eval(t.X, fr)
		if v.Index == 0 {
			return x
		}
		return hole("is("+x.String()+","+types.TypeString(t.AssertedType, nil)+")", v.Type())
	case *ssa.Lookup:
		x, i := sh.eval(t.X, fr), sh.eval(t.Index, fr)
		s := x.String() + "[" + i.String() + "]"
		if v.Index == 1 {
			s = "has(" + s + ")"
		}
		return hole(s, v.Type())
	case *ssa.Next:
		x := "?"
		if r, ok := t.Iter.(*ssa.Range); ok {
			x = sh.eval(r.X, fr).String()
		}
		return hole(fmt.Sprintf("%s{%d}", x, v.Index), v.Type())
	}
	return bad("result of %T", v.Tuple)
}

func (sh *shaper) enter(f *ssa.Function, site ssa.CallInstruction, fr *sframe) *sframe {
	n := &sframe{fn: f, parent: fr, site: site, memo: map[ssa.Value]*shp{}, busy: map[ssa.Value]bool{}, depth: fr.depth + 1}
	if n.depth > 24 {
		return nil
	}
	c := site.Common()
	if c.IsInvoke() {
		return nil
	}
	for _, a := range c.Args {
		n.args = append(n.args, sh.eval(a, fr))
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		n.clo, n.cloFr = mc, fr
	}
	return n
}

func (sh *shaper) call(v *ssa.Call, fr *sframe, res int) *shp {
	c := v.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			x, y := sh.eval(c.Args[0], fr), sh.eval(c.Args[1], fr)
			return plus(x, y)
		case "len":
			if ph, ok := c.Args[0].(*ssa.Phi); ok && loopOf(ph.Block()) == ph.Block() && inLoop(v.Block(), ph.Block()) {
				// what has been collected so far
				return hole("counter:len:"+types.TypeString(ph.Type(), nil)+":"+ph.Name()+"@"+ph.Parent().Name(), v.Type())
			}
			x := sh.eval(c.Args[0], fr)
			if x.k == sList {
				return &shp{k: sConst, s: strconv.Itoa(len(x.sub))}
			}
			return &shp{k: sLen, sub: []*shp{x}, typ: v.Type()}
		}
		return bad("builtin %s", b.Name())
	}
	f := c.StaticCallee()
	if f == nil && !c.IsInvoke() {
		if cs := sh.p.Callees(v); len(cs) == 1 {
			f = cs[0]
		}
	}
	args := func() []*shp {
		var l []*shp
		if c.IsInvoke() {
			l = append(l, sh.eval(c.Value, fr))
		}
		for _, a := range c.Args {
			l = append(l, sh.eval(a, fr))
		}
		return l
	}
	name := calleeName(v)
	switch name {
	case "fmt.Sprintf":
		return sh.sprintf(args())
	case "fmt.Sprint":
		a := args()
		if a[0].k == sList && len(a[0].sub) == 1 {
			return a[0].sub[0]
		}
	case "strings.Join":
		a := args()
		if a[1].k != sLit {
			return bad("strings.Join with %s", a[1])
		}
		return joined(a[0], a[1].s)
	case "strconv.Quote":
		return &shp{k: sQuote, sub: args()}
	case "strconv.Itoa", "strconv.FormatInt":
		return args()[0]
	case "strings.TrimSpace":
		return args()[0]
	}
	if f != nil && sh.stmtJoin[f] {
		return &shp{k: sStmts, sub: args()}
	}
	if f != nil && sh.tag != nil {
		if t := sh.tag(f); t != "" {
			if a := args(); len(a) == 1 {
				return tagged(t, a[0])
			}
		}
	}
	if f != nil && len(f.Blocks) > 0 && sh.p.inRepo[f] && (sh.opaque == nil || !sh.opaque(f)) && !sh.onStack(f, fr) {
		if n := sh.enter(f, v, fr); n != nil {
			return sh.result(n, res)
		}
	}
	var l []string
	for _, a := range args() {
		l = append(l, a.String())
	}
	if name == "" {
		name = c.Value.Name()
	}
	s := name + "(" + strings.Join(l, ",") + ")"
	if res > 0 {
		s += "#" + strconv.Itoa(res)
	}
	t := v.Type()
	if tp, ok := t.(*types.Tuple); ok {
		t = tp.At(res).Type()
	}
	return hole(s, t)
}

// tagged marks every input a text may be.
func tagged(t string, x *shp) *shp {
	switch x.k {
	case sHole:
		return hole(t+"("+x.s+")", x.typ)
	case sLit:
		return x
	case sAlt:
		out := &shp{k: sAlt}
		for _, a := range x.alts {
			out.alts = append(out.alts, galt{a.dnf, tagged(t, a.v)})
		}
		return out
	}
	return hole(t+"("+x.String()+")", types.Typ[types.String])
}

func (sh *shaper) onStack(f *ssa.Function, fr *sframe) bool {
	for x := fr; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return false
}

func joined(l *shp, sep string) *shp {
	if l.k == sList {
		var parts []*shp
		for i, x := range l.sub {
			if i > 0 {
				parts = append(parts, lit(sep))
			}
			parts = append(parts, x)
		}
		return cat(parts...)
	}
	return &shp{k: sJoin, s: sep, sub: []*shp{l}}
}

// result: what function n returns at position res.
func (sh *shaper) result(n *sframe, res int) *shp {
	rets := returnsOf(n.fn)
	live := liveBlocks(n.fn)
	out := &shp{k: sAlt}
	for _, r := range rets {
		if !live[r.Block()] || res >= len(r.Results) {
			continue
		}
		v := sh.eval(r.Results[res], n)
		out.alts = append(out.alts, galt{nil, v})
		if len(rets) > 1 {
			out.alts[len(out.alts)-1].dnf = sh.guards(n.fn.Blocks[0], r.Block(), nil, n)
		}
	}
	if len(out.alts) == 1 {
		return out.alts[0].v
	}
	return simplAlt(pruneAlt(out))
}

// pruneAlt drops alternatives that cannot be.
func pruneAlt(x *shp) *shp {
	out := &shp{k: sAlt}
	for _, a := range x.alts {
		if len(a.dnf) > 0 {
			out.alts = append(out.alts, a)
		}
	}
	return out
}

func (sh *shaper) evalPhi(v *ssa.Phi, fr *sframe) *shp {
	b := v.Block()
	header := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			header = true
		}
	}
	if !header {
		out := &shp{k: sAlt}
		dom := b.Idom()
		for i, e := range v.Edges {
			d := sh.guards(dom, b.Preds[i], b, fr)
			if len(d) == 0 {
				continue
			}
			out.alts = append(out.alts, galt{d, sh.eval(e, fr)})
		}
		return simplAlt(out)
	}
	// carried by a loop
	var init *shp
	f2 := fr.withBase(v, sh)
	var deltas []*shp
	t := v.Type().Underlying()
	if bt, ok := t.(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		return hole("counter:"+v.Name()+"@"+v.Parent().Name(), v.Type())
	}
	for i, e := range v.Edges {
		if !b.Dominates(b.Preds[i]) {
			x := sh.eval(e, fr)
			if init != nil && init.String() != x.String() {
				return bad("loop with several starts")
			}
			init = x
			continue
		}
		x := sh.eval(e, f2)
		d, ok := stripBase(x, "phi")
		if !ok {
			return bad("value carried by a loop: %s", x)
		}
		deltas = append(deltas, d)
	}
	if init == nil || len(deltas) == 0 {
		return bad("loop value")
	}
	d := deltas[0]
	for _, o := range deltas[1:] {
		if o.String() != d.String() {
			// several ways back to the start of the loop
			alt := &shp{k: sAlt}
			k := 0
			for i := range v.Edges {
				if b.Dominates(b.Preds[i]) {
					g := sh.guards(b, b.Preds[i], b, fr)
					alt.alts = append(alt.alts, galt{g, deltas[k]})
					k++
				}
			}
			d = simplAlt(pruneAlt(alt))
			break
		}
	}
	m := sh.mapOver(b, d, fr)
	if _, isStr := t.(*types.Basic); isStr {
		return sh.extend(init, m, v.Type())
	}
	return plus(init, m)
}

// guards: under which conditions control gets from block from to block to
// (and on to next), not going round a loop.
func (sh *shaper) guards(from, to, next *ssa.BasicBlock, fr *sframe) [][]gatom {
	key := guardKey{from, to, next}
	if d, ok := fr.gmemo[key]; ok {
		return d
	}
	if fr.gmemo == nil {
		fr.gmemo = map[guardKey][][]gatom{}
	}
	fr.gmemo[key] = [][]gatom{{{fmt.Sprintf("path:%s:%d-%d", from.Parent().Name(), from.Index, to.Index), true}}}
	d := sh.guards1(from, to, next, fr)
	fr.gmemo[key] = d
	return d
}

type guardKey struct{ from, to, next *ssa.BasicBlock }

func (sh *shaper) guards1(from, to, next *ssa.BasicBlock, fr *sframe) [][]gatom {
	if sh.fwd == nil {
		sh.fwd = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	ord := sh.fwd[from.Parent()]
	if ord == nil {
		// reverse postorder: every edge not going back goes up
		ord = map[*ssa.BasicBlock]int{}
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			seen[b] = true
			for _, s := range liveSuccs(b) {
				if !seen[s] {
					dfs(s)
				}
			}
			post = append(post, b)
		}
		dfs(from.Parent().Blocks[0])
		for i, b := range post {
			ord[b] = len(post) - i
		}
		sh.fwd[from.Parent()] = ord
	}
	// the blocks between from and to
	between := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if between[b] {
			return
		}
		between[b] = true
		if b == from {
			return
		}
		for _, q := range b.Preds {
			if oq, ok := ord[q]; ok && oq < ord[b] && oq >= ord[from] && (q != next || q == from) {
				back(q)
			}
		}
	}
	back(to)
	var list []*ssa.BasicBlock
	for b := range between {
		list = append(list, b)
	}
	sort.Slice(list, func(i, j int) bool { return ord[list[i]] < ord[list[j]] })
	in := map[*ssa.BasicBlock][][]gatom{from: {{}}}
	edge := func(b, s *ssa.BasicBlock) [][]gatom {
		iff, ok := lastIf(b)
		if !ok || b.Succs[0] == b.Succs[1] {
			return [][]gatom{{}}
		}
		if sh.loopTest(b) {
			// leaving a loop at its end: no element left it before
			h := loopOf(b)
			if inLoop(s, h) || inLoop(to, h) {
				return [][]gatom{{}}
			}
			out := [][]gatom{{}}
			for _, e := range sh.breaks(h) {
				d := negDNF(sh.guards(h, e[0], e[1], fr))
				var next [][]gatom
				for _, x := range out {
					for _, y := range d {
						if m, ok := conjAll(x, y); ok {
							next = append(next, m)
						}
					}
				}
				out = simplDNF(next)
			}
			return out
		}
		return sh.cond(iff.Cond, b.Succs[0] == s, fr)
	}
	and := func(a, b [][]gatom) [][]gatom {
		var out [][]gatom
		for _, x := range a {
			for _, y := range b {
				if m, ok := conjAll(x, y); ok {
					out = append(out, m)
				}
			}
		}
		out = simplDNF(out)
		if len(out) > 24 {
			return [][]gatom{{{fmt.Sprintf("path:%s:%d-%d@%d", from.Parent().Name(), from.Index, to.Index, len(out)), true}}}
		}
		return out
	}
	for _, b := range list {
		d := simplDNF(in[b])
		if len(d) > 24 {
			d = [][]gatom{{{fmt.Sprintf("path:%s:%d-%d", from.Parent().Name(), from.Index, b.Index), true}}}
		}
		in[b] = d
		if b == to {
			break
		}
		for _, s := range liveSuccs(b) {
			if between[s] && ord[s] > ord[b] {
				in[s] = append(in[s], and(d, edge(b, s))...)
			}
		}
	}
	out := in[to]
	if next != nil {
		out = and(out, edge(to, next))
	}
	return out
}

// loopTest: b tests for the end of a loop over a list.
func (sh *shaper) loopTest(b *ssa.BasicBlock) bool {
	h := loopOf(b)
	if h == nil {
		return false
	}
	if _, ok := lastIf(b); !ok {
		return false
	}
	return inLoop(b.Succs[0], h) != inLoop(b.Succs[1], h) && (b == h || loopTestBlock(sh.p, h) == b)
}

// breaks lists the edges leaving a loop other than at its end. Conditions on
// them speak of some element of the list.
func (sh *shaper) breaks(h *ssa.BasicBlock) [][2]*ssa.BasicBlock {
	var out [][2]*ssa.BasicBlock
	for _, b := range h.Parent().Blocks {
		if !inLoop(b, h) || sh.loopTest(b) && loopOf(b) == h {
			continue
		}
		for _, s := range liveSuccs(b) {
			if !inLoop(s, h) {
				out = append(out, [2]*ssa.BasicBlock{b, s})
			}
		}
	}
	return out
}

func loopTestBlock(p *Prog, h *ssa.BasicBlock) *ssa.BasicBlock {
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, _, t := loopRangeTest(p, ph); t != nil {
			return t
		}
	}
	return nil
}

func conjAll(c, d []gatom) ([]gatom, bool) {
	ok := true
	for _, a := range d {
		if c, ok = conj(c, a); !ok {
			return nil, false
		}
	}
	return c, true
}

// simplDNF merges x&a || x&!a and drops repeated and absorbed cases.
func simplDNF(d [][]gatom) [][]gatom {
	norm := func(c []gatom) []gatom {
		c = append([]gatom(nil), c...)
		sort.Slice(c, func(i, j int) bool { return c[i].key < c[j].key })
		return c
	}
	for i := range d {
		d[i] = norm(d[i])
	}
	sub := func(a, b []gatom) bool { // a within b
		for _, x := range a {
			f := false
			for _, y := range b {
				if x == y {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	}
	for again := true; again; {
		again = false
	outer:
		for i := 0; i < len(d); i++ {
			for j := 0; j < len(d); j++ {
				if i == j {
					continue
				}
				if sub(d[i], d[j]) {
					d = append(d[:j:j], d[j+1:]...)
					again = true
					break outer
				}
				if len(d[i]) == len(d[j]) {
					diff := -1
					n := 0
					for k := range d[i] {
						if d[i][k] != d[j][k] {
							n++
							if d[i][k].key == d[j][k].key {
								diff = k
							} else {
								n = 99
							}
						}
					}
					if n == 1 && diff >= 0 {
						m := append(append([]gatom(nil), d[i][:diff]...), d[i][diff+1:]...)
						d[i] = m
						d = append(d[:j:j], d[j+1:]...)
						again = true
						break outer
					}
				}
			}
		}
	}
	return d
}

// cond: when a condition is pol.
func (sh *shaper) cond(v ssa.Value, pol bool, fr *sframe) [][]gatom {
	switch x := v.(type) {
	case *ssa.Const:
		if b, ok := constBool(x); ok {
			if b == pol {
				return [][]gatom{{}}
			}
			return nil
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return sh.cond(x.X, !pol, fr)
		}
	case *ssa.BinOp:
		return sh.compare(x, pol, fr)
	case *ssa.Phi:
		var out [][]gatom
		if isLoopHeader(x.Block()) {
			break
		}
		for i, e := range x.Edges {
			for _, g := range sh.guards(x.Block().Idom(), x.Block().Preds[i], x.Block(), fr) {
				for _, h := range sh.cond(e, pol, fr) {
					if m, ok := conjAll(g, h); ok {
						out = append(out, m)
					}
				}
			}
		}
		return simplDNF(out)
	}
	return shapeCond(sh.eval(v, fr), pol)
}

func shapeCond(s *shp, pol bool) [][]gatom {
	switch s.k {
	case sConst:
		if (s.s == "true") == pol {
			return [][]gatom{{}}
		}
		return nil
	case sBin:
		if s.s == "!" {
			return shapeCond(s.sub[0], !pol)
		}
	case sAlt:
		var out [][]gatom
		for _, a := range s.alts {
			for _, h := range shapeCond(a.v, pol) {
				for _, g := range a.dnf {
					if m, ok := conjAll(g, h); ok {
						out = append(out, m)
					}
				}
			}
		}
		return simplDNF(out)
	}
	return [][]gatom{{{"is:" + s.String(), pol}}}
}

func (sh *shaper) compare(x *ssa.BinOp, pol bool, fr *sframe) [][]gatom {
	a, b := sh.eval(x.X, fr), sh.eval(x.Y, fr)
	return cmpShapes(x.Op, a, b, pol)
}

func cmpShapes(op token.Token, a, b *shp, pol bool) [][]gatom {
	// alternatives: each under its own condition
	if a.k == sAlt {
		var out [][]gatom
		for _, y := range a.alts {
			for _, h := range cmpShapes(op, y.v, b, pol) {
				for _, g := range y.dnf {
					if m, ok := conjAll(g, h); ok {
						out = append(out, m)
					}
				}
			}
		}
		return simplDNF(out)
	}
	yes := func(v bool) [][]gatom {
		if v == pol {
			return [][]gatom{{}}
		}
		return nil
	}
	if op == token.NEQ {
		return cmpShapes(token.EQL, a, b, !pol)
	}
	if a.k == sLen && b.k == sConst {
		n, _ := strconv.Atoi(b.s)
		o := op
		if !pol {
			o = negCmp(op)
		}
		if impliesEmpty(o, int64(n)) {
			return emptyCond(a.sub[0], true)
		}
		if impliesNonEmpty(o, int64(n)) && n <= 1 {
			return emptyCond(a.sub[0], false)
		}
	}
	switch op {
	case token.EQL:
		if b.k != sNil && a.k == sNil || b.k != sLit && a.k == sLit {
			a, b = b, a
		}
		if b.k == sNil || b.k == sList && len(b.sub) == 0 {
			switch a.k {
			case sNil:
				return yes(true)
			case sStruct:
				return yes(false)
			}
			return [][]gatom{{{"nil:" + a.String(), pol}}}
		}
		if b.k == sLit {
			if a.k == sLit {
				return yes(a.s == b.s)
			}
			if a.k == sCat && b.s == "" {
				for _, y := range a.sub {
					if y.k == sLit && y.s != "" {
						return yes(false)
					}
				}
			}
			if a.k == sQuote {
				return yes(false)
			}
			if b.s == "" {
				return emptyCond(a, pol)
			}
		}
		if a.k == sConst && b.k == sConst {
			return yes(a.s == b.s)
		}
		return [][]gatom{{{"eq:" + a.String() + "==" + b.String(), pol}}}
	case token.LSS, token.GEQ, token.GTR, token.LEQ:
		if op == token.GEQ || op == token.LEQ {
			op, pol = negCmp(op), !pol
		}
		if op == token.GTR {
			a, b = b, a
		}
		if a.k == sConst && b.k == sConst {
			x, e1 := strconv.ParseInt(a.s, 10, 64)
			y, e2 := strconv.ParseInt(b.s, 10, 64)
			if e1 == nil && e2 == nil {
				return yes(x < y)
			}
		}
		return [][]gatom{{{"lt:" + a.String() + "<" + b.String(), pol}}}
	}
	return [][]gatom{{{"op:" + a.String() + op.String() + b.String(), pol}}}
}

// emptyCond: when a list or text is (not) empty.
func emptyCond(x *shp, pol bool) [][]gatom {
	yes := func(v bool) [][]gatom {
		if v == pol {
			return [][]gatom{{}}
		}
		return nil
	}
	switch x.k {
	case sList:
		return yes(len(x.sub) == 0)
	case sNil:
		return yes(true)
	case sLit:
		return yes(x.s == "")
	case sMap:
		if x.sub[1].k == sList && len(x.sub[1].sub) > 0 && x.bad != "some elements left out" {
			return emptyCond(x.sub[0], pol)
		}
		if x.sub[0].k == sHole && x.bad == "" && neverEmpty(x.sub[1], x.sub[0].s) {
			return emptyCond(x.sub[0], pol)
		}
	case sPlus:
		out := [][]gatom{{}}
		if !pol {
			return negDNF(emptyCond(x, true))
		}
		for _, y := range x.sub {
			var next [][]gatom
			for _, c := range out {
				for _, d := range emptyCond(y, true) {
					if m, ok := conjAll(c, d); ok {
						next = append(next, m)
					}
				}
			}
			out = next
		}
		return simplDNF(out)
	case sAlt:
		var out [][]gatom
		for _, a := range x.alts {
			for _, h := range emptyCond(a.v, pol) {
				for _, g := range a.dnf {
					if m, ok := conjAll(g, h); ok {
						out = append(out, m)
					}
				}
			}
		}
		return simplDNF(out)
	}
	key := "empty:" + x.String()
	switch x.k {
	case sQuote:
		return yes(false)
	case sCat:
		for _, y := range x.sub {
			if y.k == sLit && y.s != "" || y.k == sQuote {
				return yes(false)
			}
		}
		composed[key] = x
	case sStmts, sJoin, sMap:
		composed[key] = x
	}
	return [][]gatom{{{key, pol}}}
}

// composed are the texts and lists whose emptiness is a condition, which
// follows from the other conditions.
var composed = map[string]*shp{}

// sprintf: the text of a format with its operands.
func (sh *shaper) sprintf(a []*shp) *shp {
	if a[0].k != sLit {
		return bad("format %s", a[0])
	}
	var ops []*shp
	switch {
	case len(a) < 2 || a[1].k == sNil:
	case a[1].k == sList:
		ops = a[1].sub
	default:
		return bad("operands %s", a[1])
	}
	var out []*shp
	f := a[0].s
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, lit(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) {
			return bad("format %q", f)
		}
		if f[i] == '%' {
			out = append(out, lit("%"))
			continue
		}
		if n >= len(ops) {
			return bad("format %q has more verbs than operands", f)
		}
		x := ops[n]
		n++
		switch f[i] {
		case 's', 'v', 'd', 't':
			if x.k == sConst || x.k == sLit {
				x = lit(x.s)
			}
			out = append(out, x)
		case 'q':
			if x.k == sLit {
				out = append(out, lit(strconv.Quote(x.s)))
			} else {
				out = append(out, &shp{k: sQuote, sub: []*shp{x}})
			}
		default:
			return bad("verb %%%c in %q", f[i], f)
		}
	}
	if n != len(ops) {
		return bad("format %q has fewer verbs than operands", f)
	}
	return cat(out...)
}
