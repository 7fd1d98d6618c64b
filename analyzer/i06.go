package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is instrumented: never what must not be, always what a mock names.

const (
	cfgPath  = "github.com/xhd2015/xgo/instrument/config"
	infoPath = "github.com/xhd2015/xgo/support/goinfo"
	ifnPath  = "github.com/xhd2015/xgo/instrument/instrument_func"
	resvPath = "github.com/xhd2015/xgo/instrument/resolve"
	xgoRT    = "github.com/xhd2015/xgo/runtime"
)

type gateModel struct {
	c *Ctx
	p *Prog
}

func runI06(c *Ctx) {
	c.Rule("never", "packages that must not be instrumented never are, and no others are kept out")
	c.Rule("module", "a package is within a module when its path is the module's, or continues it after a slash")
	c.Rule("mode", "how much of a package is trapped follows from what it is: all of main and initial packages")
	c.Rule("flags", "a package counts as allowed, or as xgo's own, exactly when its path says so")
	c.Rule("function", "a function is left out only for a reason that counts, and only what qualifies is trapped")
	c.Rule("mocked", "what a mock names is recorded, under its package and name, and trapped whatever the mode")
	c.Rule("driver", "every file of every allowed package is handed over, with the settings of this package")
	p := c.Root()
	m := &gateModel{c: c, p: p}
	m.within()
	m.check()
	m.mode()
	m.flags()
	m.functions()
	m.recordTrap()
	m.recordMock()
	m.recorded()
	m.driver()
	m.variables()
	c.Floor("never", 4)
	c.Floor("function", 6)
	c.Floor("mocked", 6)
}

// outcomes splits a path by the value of a boolean result.
func outcomes(t *ptrace, v ssa.Value) map[bool]*ptrace {
	v = t.resolve(v)
	out := map[bool]*ptrace{}
	for _, k := range []bool{false, true} {
		if n := t.with(v, k); n != nil {
			out[k] = n
		}
	}
	return out
}

// withinOf: cond==pol says that x is within the module (or not, by want).
func withinOf(x func(ssa.Value) bool, module string, want bool) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		if pol != want {
			return false
		}
		e, ok := cond.(*ssa.Extract)
		if !ok || e.Index != 1 {
			return false
		}
		call, ok := e.Tuple.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().Name() != "PkgWithinModule" || len(call.Common().Args) != 2 {
			return false
		}
		k, ok := constStr(call.Common().Args[1])
		return ok && k == module && x(call.Common().Args[0])
	}
}

func (m *gateModel) within() {
	c, p := m.c, m.p
	f := p.Func(infoPath, "PkgWithinModule")
	if f == nil {
		c.Viol("module", infoPath, "PkgWithinModule", "PkgWithinModule is gone")
		return
	}
	c.Obl("module", "PkgWithinModule")
	pkg, mod := ssa.Value(f.Params[0]), ssa.Value(f.Params[1])
	// the loop comparing byte by byte
	var loop *ssa.If
	byteOf := func(v, of ssa.Value) (ssa.Value, bool) {
		switch x := v.(type) {
		case *ssa.Lookup:
			return x.Index, x.X == of
		case *ssa.Index:
			return x.Index, x.X == of
		}
		return nil, false
	}
	eachInstr(f, func(ins ssa.Instruction) {
		iff, ok := ins.(*ssa.If)
		if !ok {
			return
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return
		}
		for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			i, ok1 := byteOf(q[0], pkg)
			j, ok2 := byteOf(q[1], mod)
			if !ok1 || !ok2 || i != j {
				continue
			}
			differ := iff.Block().Succs[0]
			if b.Op == token.EQL {
				differ = iff.Block().Succs[1]
			}
			r, ok := differ.Instrs[len(differ.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if k, ok := constBool(r.Results[1]); !ok || k {
				continue
			}
			if whole, l := loopWhole(p, i, func(b *ssa.BasicBlock, s int) bool { return b == iff.Block() && b.Succs[s] == differ }); whole && (l == mod || lenArg(l) == mod) {
				loop = iff
			}
		}
	})
	lenIs := func(v ssa.Value, of ssa.Value) bool { return lenArg(v) == of }
	// what follows as many bytes as the module has
	isRest := func(v ssa.Value) bool {
		sl, ok := v.(*ssa.Slice)
		return ok && sl.X == pkg && sl.High == nil && sl.Low != nil && lenIs(sl.Low, mod)
	}
	prefix := func(t *ptrace, want bool) bool {
		if t.knows(p, func(cond ssa.Value, pol bool) bool {
			if pol != want {
				return false
			}
			switch x := cond.(type) {
			case *ssa.Call:
				return calleeName(x) == "strings.HasPrefix" && x.Common().Args[0] == pkg && (x.Common().Args[1] == mod || want && t.derives(x.Common().Args[1], func(v ssa.Value) bool { return v == mod }))
			}
			return false
		}) {
			return true
		}
		// the slice that long is the module
		if t.knows(p, func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || ((b.Op == token.EQL) == pol) != want {
				return false
			}
			for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if sl, ok := q[0].(*ssa.Slice); ok && sl.X == pkg && sl.Low == nil && lenIs(sl.High, mod) && q[1] == mod {
					return true
				}
				if q[0] == pkg && q[1] == mod && want {
					return true
				}
			}
			return false
		}) {
			return true
		}
		if loop != nil {
			passed := false
			for _, b := range t.blocks {
				if b == loopOf(loop.Block()) {
					passed = true
				}
			}
			differs := t.knows(p, func(cond ssa.Value, pol bool) bool {
				b, ok := cond.(*ssa.BinOp)
				return ok && cond == loop.Cond && (b.Op == token.EQL) != pol
			})
			if want {
				return passed && !differs
			}
			return differs
		}
		return false
	}
	// the lengths compared
	lens := func(t *ptrace, ok func(op token.Token) bool) bool {
		return t.knows(p, func(cond ssa.Value, pol bool) bool {
			b, is := cond.(*ssa.BinOp)
			if !is {
				return false
			}
			op := b.Op
			if !pol {
				op = negOp(op)
			}
			if lenIs(b.X, pkg) && lenIs(b.Y, mod) {
				return ok(op)
			}
			if lenIs(b.Y, pkg) && lenIs(b.X, mod) {
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
				return ok(op)
			}
			return false
		})
	}
	same := func(t *ptrace, want bool) bool {
		if lens(t, func(op token.Token) bool { return want && op == token.EQL || !want && op == token.NEQ }) {
			return true
		}
		return t.knows(p, func(cond ssa.Value, pol bool) bool {
			if want && emptyStringOf(cond, pol, isRest) || !want && emptyStringOf(cond, !pol, isRest) {
				return true
			}
			b, ok := cond.(*ssa.BinOp)
			return ok && (b.Op == token.EQL || b.Op == token.NEQ) && ((b.Op == token.EQL) == pol) == want && (b.X == pkg && b.Y == mod || b.Y == pkg && b.X == mod)
		})
	}
	slash := func(t *ptrace, want bool) bool {
		return t.knows(p, func(cond ssa.Value, pol bool) bool {
			if k, ok := cond.(*ssa.Call); ok && calleeName(k) == "strings.HasPrefix" && pol == want {
				b, ok := k.Common().Args[1].(*ssa.BinOp)
				if ok && b.Op == token.ADD && b.X == mod {
					s, ok := constStr(b.Y)
					return ok && s == "/"
				}
				return false
			}
			b, ok := cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || ((b.Op == token.EQL) == pol) != want {
				return false
			}
			for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				i, ok := byteOf(q[0], pkg)
				k, isK := constInt(q[1])
				if ok && isK && k == '/' && lenIs(i, mod) {
					return true
				}
				var of, at ssa.Value
				switch x := q[0].(type) {
				case *ssa.Lookup:
					of, at = x.X, x.Index
				case *ssa.Index:
					of, at = x.X, x.Index
				default:
					continue
				}
				if n, ok := constInt(at); ok && n == 0 && isK && k == '/' && isRest(of) {
					return true
				}
			}
			return false
		})
	}
	paths, ok := enumPaths(f, 500)
	if !ok || len(paths) == 0 {
		c.Viol("module", c.Pos(p, f.Pos()), "PkgWithinModule", "too many paths")
		return
	}
	for _, t := range paths {
		for k, t := range outcomes(t, t.ret.Results[1]) {
			where := c.Pos(p, t.ret.Pos())
			c.Obl("module", "PkgWithinModule path")
			if !k {
				short := lens(t, func(op token.Token) bool { return op == token.LSS }) ||
					lens(t, func(op token.Token) bool { return op == token.LEQ || op == token.EQL }) && same(t, false)
				if !short && !prefix(t, false) && !slash(t, false) {
					c.Viol("module", where, "PkgWithinModule not", "a package within the module can count as outside")
				}
				continue
			}
			if !(prefix(t, true) && (same(t, true) || slash(t, true))) {
				c.Viol("module", where, "PkgWithinModule is", "a package counts as within a module although its path does not continue the module's after a slash")
				continue
			}
			// what follows
			s := t.resolve(t.ret.Results[0])
			if lit, ok := constStr(s); ok {
				if lit != "" || !same(t, true) {
					c.Viol("module", where, "PkgWithinModule rest", "what follows the module in the path is lost")
				}
				continue
			}
			good := false
			switch x := s.(type) {
			case *ssa.Slice:
				if b, ok := x.Low.(*ssa.BinOp); ok && b.Op == token.ADD && x.X == pkg && x.High == nil {
					k, isK := constInt(b.Y)
					good = isK && k == 1 && lenIs(b.X, mod)
				}
				if n, ok := constInt(x.Low); ok && n == 1 && x.High == nil && isRest(x.X) {
					good = true
				}
				if lenArg(x.Low) != nil {
					if b, ok := lenArg(x.Low).(*ssa.BinOp); ok && b.Op == token.ADD && b.X == mod {
						good = true
					}
				}
			case *ssa.Call:
				good = calleeName(x) == "strings.TrimPrefix" && x.Common().Args[0] == pkg
			}
			if !good {
				c.Viol("module", where, "PkgWithinModule rest", "what follows the module in the path is not what is answered")
			}
		}
	}
}

// own: the path of xgo's own runtime, its tests aside.
func (m *gateModel) own(t *ptrace, pkg ssa.Value, want bool) bool {
	p := m.p
	isPkg := func(v ssa.Value) bool { return t.resolve(v) == pkg }
	rest := func(v ssa.Value) bool {
		e, ok := t.resolve(v).(*ssa.Extract)
		if !ok || e.Index != 0 {
			return false
		}
		call, ok := e.Tuple.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().Name() != "PkgWithinModule" {
			return false
		}
		k, ok := constStr(call.Common().Args[1])
		return ok && k == xgoRT && isPkg(call.Common().Args[0])
	}
	if want {
		return t.knows(p, withinOf(isPkg, xgoRT, true)) && (t.knows(p, withinOf(rest, "test", false)) || t.knows(p, withinOf(isPkg, xgoRT+"/test", false)))
	}
	return t.knows(p, withinOf(isPkg, xgoRT, false)) || t.knows(p, withinOf(rest, "test", true)) || t.knows(p, withinOf(isPkg, xgoRT+"/test", true))
}

// ownCall: cond==pol is a call of a function that tells xgo's own packages.
func (m *gateModel) ownCall(pkg ssa.Value, want bool) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		call, ok := cond.(*ssa.Call)
		if !ok || pol != want || len(call.Common().Args) != 1 || call.Common().Args[0] != pkg {
			return false
		}
		g := call.Common().StaticCallee()
		if g == nil || !isRepoFn(g) {
			return false
		}
		paths, ok := enumPaths(g, 100)
		if !ok || len(paths) == 0 {
			return false
		}
		for _, t := range paths {
			for k, t := range outcomes(t, t.ret.Results[0]) {
				if !m.own(t, g.Params[0], k) {
					m.c.Viol("never", m.c.Pos(m.p, t.ret.Pos()), shortFn(g)+" own", "xgo's own packages, its tests aside, are not told by their path")
					return false
				}
			}
		}
		return true
	}
}

// globalMap: the constant keys a package-level map is made with, true values
// only.
func globalMap(p *Prog, g *ssa.Global) map[string]bool {
	if g == nil || g.Pkg == nil {
		return nil
	}
	out := map[string]bool{}
	init := g.Pkg.Func("init")
	var mk ssa.Value
	eachInstr(init, func(ins ssa.Instruction) {
		if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
			mk = st.Val
		}
	})
	if mk == nil {
		return nil
	}
	eachInstr(init, func(ins ssa.Instruction) {
		if u, ok := ins.(*ssa.MapUpdate); ok && u.Map == mk {
			k, ok := constStr(u.Key)
			if v, isB := constBool(u.Value); ok && (!isB || v) {
				out[k] = true
			}
		}
	})
	return out
}

var neverPkgs = []string{"reflect", "sync", "sync/atomic", "syscall", "testing", "unsafe"}

func (m *gateModel) check() {
	c, p := m.c, m.p
	f := p.Func(cfgPath, "CheckInstrument")
	if f == nil {
		c.Viol("never", cfgPath, "CheckInstrument", "CheckInstrument is gone")
		return
	}
	pkg := ssa.Value(f.Params[0])
	isPkg := func(v ssa.Value) bool { return v == pkg }
	paths, ok := enumPaths(f, 3000)
	if !ok || len(paths) == 0 {
		c.Viol("never", c.Pos(p, f.Pos()), "CheckInstrument", "too many paths")
		return
	}
	// the packages a condition excludes, when it holds
	inSet := func(cond ssa.Value, pol, want bool) map[string]bool {
		l, ok := cond.(*ssa.Lookup)
		if e, isE := cond.(*ssa.Extract); isE {
			l, ok = e.Tuple.(*ssa.Lookup)
		}
		if ok && pol == want && l.Index == pkg {
			if u, ok := l.X.(*ssa.UnOp); ok {
				g, _ := u.X.(*ssa.Global)
				return globalMap(p, g)
			}
		}
		b, ok := cond.(*ssa.BinOp)
		if ok && (b.Op == token.EQL || b.Op == token.NEQ) && ((b.Op == token.EQL) == pol) == want {
			for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := constStr(q[1]); ok && q[0] == pkg {
					return map[string]bool{k: true}
				}
			}
		}
		return nil
	}
	allowed, denied := 0, 0
	for _, t0 := range paths {
		for isXgo, t1 := range outcomes(t0, t0.ret.Results[0]) {
			for allow, t := range outcomes(t1, t0.ret.Results[1]) {
				where := c.Pos(p, t.ret.Pos())
				own := m.own(t, pkg, true) || t.knows(p, m.ownCall(pkg, true))
				notOwn := m.own(t, pkg, false) || t.knows(p, m.ownCall(pkg, false))
				c.Obl("never", "CheckInstrument path")
				if isXgo && (!own || allow) {
					c.Viol("never", where, "xgo", "a package counts as xgo's own although its path does not say so, or is to be instrumented besides")
				}
				if allow {
					allowed++
					for _, d := range []string{"runtime", "internal", "vendor"} {
						if !t.knows(p, withinOf(isPkg, d, false)) {
							c.Viol("never", where, "below "+d, "packages at or below %q can be instrumented", d)
						}
					}
					if !notOwn {
						c.Viol("never", where, "own", "xgo's own runtime can be instrumented")
					}
					no := map[string]bool{}
					for _, cd := range t.conds {
						for k := range inSet(cd.v, cd.pol, false) {
							no[k] = true
						}
					}
					for _, n := range neverPkgs {
						if !no[n] {
							c.Viol("never", where, "package "+n, "package %s can be instrumented", n)
						}
					}
					continue
				}
				denied++
				reason := own && isXgo
				for _, d := range []string{"runtime", "internal", "vendor"} {
					reason = reason || t.knows(p, withinOf(isPkg, d, true))
				}
				for _, cd := range t.conds {
					s := inSet(cd.v, cd.pol, true)
					std := len(s) > 0
					for k := range s {
						if i := strings.Index(k+"/", "/"); strings.Contains(k[:i], ".") {
							std = false
						}
					}
					reason = reason || std
				}
				if !reason {
					c.Viol("never", where, "others", "a package other than those that must not be is kept from being instrumented")
				}
				if own && !isXgo {
					c.Viol("never", where, "xgo not told", "a package of xgo's runtime does not count as xgo's own")
				}
			}
		}
	}
	if allowed == 0 || denied == 0 {
		c.Viol("never", c.Pos(p, f.Pos()), "CheckInstrument", "all packages are treated alike")
	}
}

// mode: the table, for all settings of the flags.
func (m *gateModel) mode() {
	c, p := m.c, m.p
	f := p.Func(cfgPath, "CheckInstrumentMode")
	if f == nil || len(f.Params) != 4 {
		c.Viol("mode", cfgPath, "CheckInstrumentMode", "CheckInstrumentMode is gone")
		return
	}
	val := func(name string) int64 {
		sp := p.pkg(cfgPath)
		if k, ok := sp.Members[name].(*ssa.NamedConst); ok {
			v, _ := constInt(k.Value)
			return v
		}
		return -1
	}
	all, none, exp := val("InstrumentMode_All"), val("InstrumentMode_None"), val("InstrumentMode_Exported")
	paths, ok := enumPaths(f, 1000)
	if !ok || len(paths) == 0 {
		c.Viol("mode", c.Pos(p, f.Pos()), "CheckInstrumentMode", "too many paths")
		return
	}
	for bits := 0; bits < 16; bits++ {
		on := func(i int) bool { return bits&(1<<uint(i)) != 0 }
		want := none
		switch {
		case on(1) || on(2):
			want = all
		case on(0):
			want = none
		case on(3):
			want = exp
		}
		c.Obl("mode", "setting")
		hit := 0
		for _, t := range paths {
			consistent := true
			for _, cd := range t.conds {
				known := false
				for i, pr := range f.Params {
					if cd.v == ssa.Value(pr) {
						known = true
						if cd.pol != on(i) {
							consistent = false
						}
					}
				}
				if !known {
					c.Viol("mode", c.Pos(p, f.Pos()), "condition", "the mode depends on something other than the four flags")
					return
				}
			}
			if !consistent {
				continue
			}
			hit++
			if k, ok := constInt(t.resolve(t.ret.Results[0])); !ok || k != want {
				c.Viol("mode", c.Pos(p, t.ret.Pos()), "setting", "stdlib=%v main=%v initial=%v trapAll=%v: the mode is not the one that follows", on(0), on(1), on(2), on(3))
			}
		}
		if hit == 0 {
			c.Viol("mode", c.Pos(p, f.Pos()), "setting", "no answer for a setting of the flags")
		}
	}
}

// flags: AllowInstrument and Xgo are set from CheckInstrument.
func (m *gateModel) flags() {
	c, p := m.c, m.p
	check := p.Func(cfgPath, "CheckInstrument")
	n := 0
	for _, f := range p.Funcs {
		if !isRepoFn(f) {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !ptrTo(fa.X.Type(), editPkg, "Package") {
				return
			}
			name := fieldVar(fa.X.Type(), fa.Field).Name()
			idx := -1
			switch name {
			case "AllowInstrument":
				idx = 1
			case "Xgo":
				idx = 0
			case "Initial", "Main":
				m.marked(f, st, fa, name)
				return
			default:
				return
			}
			n++
			c.Obl("flags", shortFn(f)+" "+name)
			says := func(v ssa.Value) bool {
				e, ok := v.(*ssa.Extract)
				if !ok || e.Index != idx {
					return false
				}
				call, ok := e.Tuple.(*ssa.Call)
				if !ok || call.Common().StaticCallee() != check {
					return false
				}
				arg := call.Common().Args[0]
				return fieldNamed(arg, "ImportPath") && baseOf(arg, fa.X)
			}
			where := c.Pos(p, st.Pos())
			if says(st.Val) {
				return
			}
			k, ok := constBool(st.Val)
			switch {
			case ok && k:
				if !p.Guarded(st, func(cond ssa.Value, pol bool) bool { return pol && says(cond) }) {
					c.Viol("flags", where, shortFn(f)+" "+name, "%s of a package is set without its path having been found to say so", name)
				}
				// and set whenever it says so
				if iff := controlling(st.Block()); iff != nil && !says(iff.Cond) {
					c.Viol("flags", where, shortFn(f)+" "+name+" when", "%s of a package is set on a further condition", name)
				}
			case ok:
				if !p.Guarded(st, func(cond ssa.Value, pol bool) bool { return !pol && says(cond) }) {
					c.Viol("flags", where, shortFn(f)+" "+name, "%s of a package is cleared", name)
				}
			default:
				c.Viol("flags", where, shortFn(f)+" "+name, "%s of a package does not come from its path", name)
			}
		})
	}
	if n < 2 {
		c.Viol("flags", editPkg, "flags", "where packages are marked was not found (%d)", n)
	}
	// every package added is marked
	add := p.Func(editPkg, "Packages.Add")
	if add == nil {
		c.Viol("flags", editPkg, "Add", "Packages.Add is gone")
		return
	}
	c.Obl("flags", "every package added")
	good := false
	eachInstr(add, func(ins ssa.Instruction) {
		call, ok := isBuiltinCall(ins, "append")
		if !ok {
			return
		}
		for _, e := range variadicArgs(call.Common().Args[1]) {
			if !ptrTo(e.Type(), editPkg, "Package") || skipsIteration(ins) {
				continue
			}
			marked := func(i ssa.Instruction) bool {
				k, ok := i.(*ssa.Call)
				if ok && k.Common().StaticCallee() != nil && isRepoFn(k.Common().StaticCallee()) && len(k.Common().Args) == 1 && k.Common().Args[0] == e {
					sets := false
					eachInstr(k.Common().StaticCallee(), func(j ssa.Instruction) {
						if st, ok := j.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "AllowInstrument" {
								sets = true
							}
						}
					})
					return sets
				}
				k2, ok := i.(*ssa.Call)
				return ok && k2.Common().StaticCallee() == check
			}
			eachInstr(add, func(i ssa.Instruction) {
				if marked(i) && !skipsIteration(i) {
					good = true
				}
			})
		}
	})
	if !good {
		c.Viol("flags", c.Pos(p, add.Pos()), "every package added", "a package loaded later is not marked: what a mock names in it is not trapped, or what must not be is")
	}
}

// marked: a package counts as named on the command line, or as the module's
// own, when it is.
func (m *gateModel) marked(f *ssa.Function, st *ssa.Store, fa *ssa.FieldAddr, name string) {
	c, p := m.c, m.p
	c.Obl("flags", shortFn(f)+" "+name)
	where := c.Pos(p, st.Pos())
	// a copy of another package's mark, or of one asked of the caller
	if fieldNamed(st.Val, name) {
		return
	}
	says := func(cond ssa.Value, pol bool) bool {
		if name == "Initial" {
			return !pol && fieldNamed(cond, "DepOnly") && baseOf(cond, fa.X)
		}
		call, ok := cond.(*ssa.Call)
		if !ok || !pol || call.Common().StaticCallee() == nil || !isRepoFn(call.Common().StaticCallee()) {
			return false
		}
		for _, a := range call.Common().Args {
			if fieldNamed(a, "ImportPath") && baseOf(a, fa.X) {
				return true
			}
		}
		return false
	}
	if k, ok := constBool(st.Val); ok {
		if !k {
			c.Viol("flags", where, shortFn(f)+" "+name, "%s of a package is cleared", name)
			return
		}
		if !p.Guarded(st, says) {
			c.Viol("flags", where, shortFn(f)+" "+name, "%s of a package is set though it is not so", name)
		}
		if iff := controlling(st.Block()); iff != nil {
			i := 1
			if iff.Block().Succs[0] == st.Block() {
				i = 0
			}
			if !p.implies(iff.Cond, i == 0, says, 0) {
				c.Viol("flags", where, shortFn(f)+" "+name+" when", "%s of a package is set on a further condition", name)
			}
		}
		return
	}
	if !p.implies(st.Val, true, says, 0) || !p.implies(st.Val, false, func(cond ssa.Value, pol bool) bool { return says(cond, !pol) }, 0) {
		c.Viol("flags", where, shortFn(f)+" "+name, "%s of a package is set though it is not so", name)
	}
}

// controlling is the nearest test that decides whether b runs.
func controlling(b *ssa.BasicBlock) *ssa.If {
	if len(b.Preds) != 1 {
		return nil
	}
	iff, _ := lastIf(b.Preds[0])
	return iff
}

// baseOf: v is read from the object base, through any fields.
func baseOf(v, base ssa.Value) bool {
	for d := 0; d < 10; d++ {
		if v == base || sameLoad(v, base) {
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func isAstField(v ssa.Value, typ, name string) bool { return fieldOfType(v, "go/ast", typ, name) }

func appendsPtr(ins ssa.Instruction, pkg, name string) bool {
	call, ok := isBuiltinCall(ins, "append")
	if !ok {
		return false
	}
	s, ok := call.Common().Args[0].Type().Underlying().(*types.Slice)
	return ok && ptrTo(s.Elem(), pkg, name)
}
