package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R11"] = propDef{run: checkR11, assumptions: []string{
		"functions are registered by package initialisers, one at a time",
		"two functions registered in one program do not share a program counter, full name or identity name within a package",
		"core.ParseFuncName splits a full name as its tests describe",
	}}
}

const rtFunctab = rtMod + "/functab"

// tabKey is one level of a lookup table.
type table struct {
	root  *ssa.Global
	depth int // 1: the map itself, 2: the map found under a first key
}

func (t table) String() string {
	return t.root.Name() + strings.Repeat("[]", t.depth-1)
}

type tabWrite struct {
	ins  *ssa.MapUpdate
	tab  table
	keys []string // kind of each key, outermost first
	info ssa.Value
}

type functabModel struct {
	p        *Prog
	fns      []*ssa.Function
	register *ssa.Function
	writes   []tabWrite
	api      map[string][]string // function -> kinds of its parameters
}

// what the exported functions promise about their parameters
var functabAPI = map[string][]string{
	"InfoPC":            {"PC"},
	"InfoFunc":          {"Func"},
	"InfoVar":           {"Var"},
	"InfoVarAddr":       {"VarAddr"},
	"Info":              {"Pkg", "IdentityName"},
	"GetFuncByPkg":      {"Pkg", "IdentityName"},
	"GetFuncByFullName": {"FullName"},
	"GetTypeMethods":    {"RecvType()"},
}

func isInfoPtr(t types.Type) bool { return isPtrToNamed(t, rtMod+"/core", "FuncInfo") }

func checkR11(c *Ctx) {
	p := c.RT()
	m := &functabModel{p: p, api: functabAPI}
	m.fns = p.FuncsIn(func(s string) bool { return s == rtFunctab })
	m.register = p.Func(rtFunctab, "RegisterFunc")
	c.Rule("R11.key", "a table entry is written under a key taken from the very info that is entered, all writers of one table using the same part of it")
	c.Rule("R11.lookup", "a lookup by program counter, name, variable address or receiver type reads the table written under that key, with the caller's own values")
	c.Rule("R11.all", "registering reaches the write of every table on all paths, except where the info has no such key")
	c.Rule("R11.late", "a table built on demand takes in everything registered up to each lookup")
	c.Rule("R11.ctx", "whether a function takes a context first or returns an error last is read off its own type, past the receiver exactly when it has one")
	c.Rule("R11.set", "registering gives an info the program counter of its own function, and the full name the runtime has for it (for a variable or a closure: its package and identity name)")
	c.Rule("R11.fallback", "a name with no entry of its own is looked for as a pointer method, an interface or a generic's instance before giving up")
	c.Rule("R11.hook", "what the linked runtime hands over is registered, unconverted")
	if m.register == nil {
		c.Viol("R11.key", "-", "RegisterFunc", "functab.RegisterFunc not found")
		return
	}
	m.collect(c)
	c.Floor("R11.key", 5)
	m.lookups(c)
	c.Floor("R11.lookup", 8)
	m.complete(c)
	c.Floor("R11.all", 5)
	m.brief(c)
	c.Floor("R11.ctx", 2)
	m.sets(c)
	c.Floor("R11.set", 2)
	m.fallback(c)
	c.Floor("R11.fallback", 3)
	m.hooked(c)
	c.Floor("R11.hook", 1)
}

// tables the map value v may be, with the kinds of the keys so far.
func (m *functabModel) tables(v ssa.Value, seen map[ssa.Value]bool) (out []struct {
	t    table
	keys []ssa.Value
}, ok bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	type tk = struct {
		t    table
		keys []ssa.Value
	}
	ok = true
	for _, or := range m.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		x := or.Val
		if ex, isEx := x.(*ssa.Extract); isEx && ex.Index == 0 {
			x = ex.Tuple
		}
		switch x := x.(type) {
		case *ssa.UnOp:
			g, isG := x.X.(*ssa.Global)
			if !isG {
				return nil, false
			}
			out = append(out, tk{table{g, 1}, nil})
		case *ssa.Lookup:
			up, good := m.tables(x.X, seen)
			if !good {
				return nil, false
			}
			for _, u := range up {
				out = append(out, tk{table{u.t.root, u.t.depth + 1}, append(append([]ssa.Value{}, u.keys...), x.Index)})
			}
		case *ssa.MakeMap:
			if x.Referrers() == nil {
				return nil, false
			}
			n := 0
			for _, r := range *x.Referrers() {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					if r.Value == x {
						up, good := m.tables(r.Map, seen)
						if !good {
							return nil, false
						}
						n++
						for _, u := range up {
							out = append(out, tk{table{u.t.root, u.t.depth + 1}, append(append([]ssa.Value{}, u.keys...), r.Key)})
						}
					}
				case *ssa.Store:
					if g, isG := r.Addr.(*ssa.Global); isG {
						n++
						out = append(out, tk{table{g, 1}, nil})
					}
				}
			}
			if n == 0 {
				return nil, false
			}
		case *ssa.Const:
			// reading a missing map; harmless
		default:
			return nil, false
		}
	}
	return out, ok
}

// infoPart names the part of a FuncInfo v is; base is the info.
func (m *functabModel) infoPart(v ssa.Value) (part string, base ssa.Value) {
	v = unwrapIface(v)
	parts := map[string]bool{}
	for _, or := range m.p.Origins(v, originOpts{noParams: true, keep: func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		return ok && c.Call.StaticCallee() != nil && m.isPCOf(c)
	}}) {
		x := unwrapIface(or.Val)
		one, b := "", ssa.Value(nil)
		switch x := x.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isInfoPtr(fa.X.Type()) {
				one, b = fieldVar(fa.X.Type(), fa.Field).Name(), fa.X
			}
		case *ssa.Call:
			if m.isPCOf(x) {
				if f, bb := m.infoPart(x.Call.Args[0]); f == "Func" {
					one, b = "PC", bb
				}
				break
			}
			if x.Call.IsInvoke() && x.Call.Method.Name() == "In" && isReflectType(x.Call.Value.Type()) {
				if k, ok := constInt(x.Call.Args[0]); ok && k == 0 {
					if f, bb := m.typeOf(x.Call.Value); f == "Func" {
						one, b = "RecvType()", bb
					}
				}
				break
			}
			if f := x.Call.StaticCallee(); f != nil && fnPkg(f) != nil && fnPkg(f).Path() == "reflect" && (f.Name() == "Pointer" || f.Name() == "UnsafePointer") {
				if a := m.valueOf(x.Call.Args[0]); a != nil {
					f, bb := m.infoPart(a)
					one, b = map[string]string{"Var": "VarAddr", "Func": "PC"}[f], bb
				}
			}
		case *ssa.Const:
			// an absent key: never looked up
			if isNilConst(x) || x.Value != nil && (x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" || x.Value.Kind() == constant.Int && constant.Sign(x.Value) == 0) {
				continue
			}
		}
		if one == "" {
			return "", nil
		}
		if base != nil && b != nil && !sameSource(m.p, base, b) {
			return "", nil
		}
		parts[one] = true
		base = b
	}
	if len(parts) != 1 {
		return "", nil
	}
	for k := range parts {
		part = k
	}
	return part, base
}

// isPCOf: a local function turning a function value into its program counter:
// one empty interface in, one uintptr out.
func (m *functabModel) isPCOf(x *ssa.Call) bool {
	f := x.Call.StaticCallee()
	if f == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 || fnPkg(f) == nil || fnPkg(f).Path() != rtFunctab {
		return false
	}
	b, ok := f.Signature.Results().At(0).Type().(*types.Basic)
	return ok && b.Kind() == types.Uintptr && isEmptyIface(f.Params[0].Type())
}

func (m *functabModel) reflectArg(v ssa.Value, name string) ssa.Value {
	for _, or := range m.p.Origins(v, originOpts{noParams: true, noCalls: true}) {
		if c, ok := or.Val.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && fnName(f) == "reflect."+name {
				return c.Call.Args[0]
			}
		}
	}
	return nil
}

func (m *functabModel) valueOf(v ssa.Value) ssa.Value { return m.reflectArg(v, "ValueOf") }

// typeOf: v is the type of a part of an info.
func (m *functabModel) typeOf(v ssa.Value) (string, ssa.Value) {
	a := m.reflectArg(v, "TypeOf")
	if a == nil {
		for _, or := range m.p.Origins(v, originOpts{noParams: true, noCalls: true}) {
			if c, ok := or.Val.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && fnName(f) == "(reflect.Value).Type" {
					a = m.valueOf(c.Call.Args[0])
				}
			}
		}
	}
	if a == nil {
		return "", nil
	}
	return m.infoPart(a)
}

func (m *functabModel) collect(c *Ctx) {
	byTab := map[table][]tabWrite{}
	for _, fn := range m.fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			mu, ok := ins.(*ssa.MapUpdate)
			if !ok || !isInfoPtr(mu.Value.Type()) {
				return
			}
			ts, good := m.tables(mu.Map, map[ssa.Value]bool{})
			name := shortFn(fn) + " enters a function into a table"
			c.Obl("R11.key", name)
			if !good || len(ts) == 0 {
				c.Viol("R11.key", c.Pos(m.p, ins.Pos()), name, "which table is written is not clear")
				return
			}
			var keys []string
			for _, t := range ts {
				var ks []string
				for _, k := range append(append([]ssa.Value{}, t.keys...), mu.Key) {
					part, base := m.infoPart(k)
					if part == "" || !sameSource(m.p, base, mu.Value) {
						c.Viol("R11.key", c.Pos(m.p, ins.Pos()), name, "the key is not a part of the info entered: it will be found under a foreign name, or not at all")
						return
					}
					ks = append(ks, part)
				}
				if keys != nil && strings.Join(keys, ",") != strings.Join(ks, ",") {
					c.Viol("R11.key", c.Pos(m.p, ins.Pos()), name, "the outer key is %v when the inner table exists and %v when it is made", keys, ks)
					return
				}
				keys = ks
			}
			w := tabWrite{mu, ts[0].t, keys, mu.Value}
			for _, o := range byTab[w.tab] {
				if strings.Join(o.keys, ",") != strings.Join(keys, ",") {
					c.Viol("R11.key", c.Pos(m.p, ins.Pos()), name, "%s is written under %v here and under %v elsewhere", w.tab, keys, o.keys)
				}
			}
			byTab[w.tab] = append(byTab[w.tab], w)
			m.writes = append(m.writes, w)
		})
	}
}

func (m *functabModel) keysOf(t table) []string {
	for _, w := range m.writes {
		if w.tab == t {
			return w.keys
		}
	}
	// a prefix: the inner map itself
	for _, w := range m.writes {
		if w.tab.root == t.root && w.tab.depth > t.depth {
			return w.keys[:t.depth]
		}
	}
	return nil
}

// given names what a key of a lookup stands for, by the promises of the
// exported functions about their parameters.
func (m *functabModel) given(v ssa.Value, depth int, seen map[ssa.Value]bool) map[string]bool {
	out := map[string]bool{}
	if depth > 30 || seen[v] {
		return out
	}
	seen[v] = true
	add := func(s map[string]bool) {
		for k := range s {
			out[k] = true
		}
	}
	for _, or := range m.p.Origins(v, originOpts{noParams: true, noCalls: true}) {
		switch x := unwrapIface(or.Val).(type) {
		case *ssa.Parameter:
			fn := x.Parent()
			idx := -1
			for i, q := range fn.Params {
				if q == x {
					idx = i
				}
			}
			if ks, ok := m.api[fn.Name()]; ok && fnPkg(fn).Path() == rtFunctab && fn.Parent() == nil {
				if idx < len(ks) {
					out[ks[idx]] = true
				}
				continue
			}
			args, complete := m.p.paramArgs(fn, idx)
			if !complete || len(args) == 0 {
				out["?"] = true
			}
			for _, a := range args {
				add(m.given(a, depth+1, seen))
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				out["?"] = true
				continue
			}
			if fnPkg(f) != nil && fnPkg(f).Path() == "reflect" && (f.Name() == "Pointer" || f.Name() == "UnsafePointer") {
				a := m.valueOf(x.Call.Args[0])
				if a == nil {
					out["?"] = true
					continue
				}
				for k := range m.given(a, depth+1, seen) {
					if k2 := map[string]string{"Var": "VarAddr", "Func": "PC"}[k]; k2 != "" {
						out[k2] = true
					} else {
						out["?"] = true
					}
				}
				continue
			}
			if fnPkg(f) != nil && fnPkg(f).Path() == "strings" {
				add(m.given(x.Call.Args[0], depth+1, seen))
				continue
			}
			out["?"] = true
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				f := cl.Call.StaticCallee()
				if f != nil && fnName(f) == rtMod+"/core.ParseFuncName" {
					src := m.given(cl.Call.Args[0], depth+1, map[ssa.Value]bool{})
					if !src["FullName"] || len(src) != 1 {
						out["?"] = true
						continue
					}
					names := []string{"Pkg", "RecvType", "?", "?", "?", "Name"}
					if r := f.Signature.Results(); r.Len() == len(names) && x.Index < len(names) {
						out[names[x.Index]] = true
						continue
					}
				}
			}
			out["?"] = true
		case *ssa.Slice:
			add(m.given(x.X, depth+1, seen))
		case *ssa.BinOp:
			if x.Op != token.ADD {
				out["?"] = true
				continue
			}
			for _, y := range []ssa.Value{x.X, x.Y} {
				if _, isC := y.(*ssa.Const); !isC {
					add(m.given(y, depth+1, seen))
				}
			}
		case *ssa.Const:
			// nothing
		default:
			out["?"] = true
		}
	}
	// RecvType and Name put together make an identity name
	if out["Name"] || out["IdentityName"] {
		delete(out, "Name")
		delete(out, "RecvType")
		out["IdentityName"] = true
	}
	return out
}

func (m *functabModel) lookups(c *Ctx) {
	p := m.p
	var names []string
	for n := range m.api {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn := p.Func(rtFunctab, n)
		name := "functab." + n
		c.Obl("R11.lookup", name)
		if fn == nil {
			c.Viol("R11.lookup", "-", name, "not found")
			continue
		}
		found := 0
		var sites []ssa.Instruction
		// the tables this function has to read: those written under what it is given
		for _, r := range returnsOf(fn) {
			for _, or := range p.Origins(r.Results[0], originOpts{noParams: true, keep: func(v ssa.Value) bool {
				cl, ok := v.(*ssa.Call)
				if !ok || cl.Call.StaticCallee() == nil {
					return false
				}
				f := cl.Call.StaticCallee()
				_, api := m.api[f.Name()]
				return api && f != fn && fnPkg(f) != nil && fnPkg(f).Path() == rtFunctab
			}}) {
				x := or.Val
				if ex, ok := x.(*ssa.Extract); ok && ex.Index == 0 {
					x = ex.Tuple
				}
				switch x := x.(type) {
				case *ssa.Const:
					if isNilConst(x) {
						continue
					}
				case *ssa.Call:
					// another exported lookup, with arguments of its kind
					f := x.Call.StaticCallee()
					for i, k := range m.api[f.Name()] {
						if g := m.given(x.Call.Args[i], 0, map[ssa.Value]bool{}); len(g) != 1 || !g[k] {
							c.Viol("R11.lookup", c.Pos(p, x.Pos()), name, "%s is asked with %v where it wants a %s", f.Name(), sortedKeys(g), k)
						}
						if k == "IdentityName" && m.dropsReceiver(x.Call.Args[i], x) {
							c.Viol("R11.lookup", c.Pos(p, x.Pos()), name, "%s is asked with a method's bare name, without its receiver", f.Name())
						}
					}
					found++
					sites = append(sites, x)
					continue
				case *ssa.Lookup:
					ts, good := m.tables(x.X, map[ssa.Value]bool{})
					if !good || len(ts) == 0 {
						c.Viol("R11.lookup", c.Pos(p, x.Pos()), name, "which table is read is not clear")
						continue
					}
					for _, t := range ts {
						want := m.keysOf(t.t)
						keys := append(append([]ssa.Value{}, t.keys...), x.Index)
						if len(want) != len(keys) {
							c.Viol("R11.lookup", c.Pos(p, x.Pos()), name, "reads %s, which nothing is entered into", t.t)
							continue
						}
						for i, k := range keys {
							if g := m.given(k, 0, map[ssa.Value]bool{}); len(g) != 1 || !g[want[i]] {
								c.Viol("R11.lookup", c.Pos(p, x.Pos()), name, "%s is written under %v, but read with %v at level %d", t.t, want, sortedKeys(g), i+1)
							}
						}
					}
					found++
					sites = append(sites, x)
					continue
				}
				c.Viol("R11.lookup", c.Pos(p, r.Pos()), name, "returns something that was not looked up")
			}
		}
		if found == 0 {
			c.Viol("R11.lookup", c.Pos(p, fn.Pos()), name, "no table is read")
			continue
		}
		if m.skipsAll(fn, sites, m.nothingThere, map[*ssa.Function]bool{}) {
			c.Viol("R11.lookup", c.Pos(p, fn.Pos()), name, "can give up without reading any table")
		}
	}
	// the list of all functions
	if fn := p.Func(rtFunctab, "GetFuncs"); fn != nil {
		c.Obl("R11.lookup", "functab.GetFuncs")
		for _, r := range returnsOf(fn) {
			for _, or := range p.Origins(r.Results[0], originOpts{noParams: true}) {
				if u, ok := or.Val.(*ssa.UnOp); !ok || !m.isInfoList(u.X) {
					c.Viol("R11.lookup", c.Pos(p, r.Pos()), "functab.GetFuncs", "does not return the list of registered functions")
				}
			}
		}
	}
}

// dropsReceiver: v can be the bare name ParseFuncName found although there is
// a receiver.
func (m *functabModel) dropsReceiver(v ssa.Value, use ssa.Instruction) bool {
	part := func(v ssa.Value) int {
		if ex, ok := v.(*ssa.Extract); ok {
			if cl, ok := ex.Tuple.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && fnName(cl.Call.StaticCallee()) == rtMod+"/core.ParseFuncName" {
				return ex.Index
			}
		}
		return -1
	}
	return m.p.badValueReaches(v, use, func(cond ssa.Value, pol bool) bool {
		x, ok := cond.(*ssa.BinOp)
		if !ok || x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		s, isS := constStr(x.Y)
		return isS && s == "" && part(x.X) == 1 && (x.Op == token.EQL) == pol
	}, func(v ssa.Value) bool { return part(v) == 5 })
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (m *functabModel) isInfoList(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	if !ok {
		return false
	}
	s, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice)
	return ok && isInfoPtr(s.Elem())
}

// absent: cond==pol tells that the info has no key of the given part.
func (m *functabModel) absent(keys []string) atomMatch {
	want := map[string]bool{}
	for _, k := range keys {
		switch k {
		case "PC", "RecvType()":
			want["PC"], want["Func"] = true, true
			want["Generic+"], want["Interface+"] = true, true
		case "VarAddr":
			want["Var"] = true
			want["Kind!=Var"] = true
		}
		want[k] = true
	}
	if len(keys) == 2 && keys[1] == "RecvType" {
		want["Interface-"] = true
	}
	if keys[0] == "RecvType()" {
		want["RecvType"], want["Name"], want["Kind!=Func"] = true, true, true
	}
	return func(cond ssa.Value, pol bool) bool {
		if x, ok := cond.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			v, k := x.X, x.Y
			if _, isC := v.(*ssa.Const); isC {
				v, k = k, v
			}
			kc, isC := k.(*ssa.Const)
			if !isC {
				return false
			}
			part, _ := m.infoPart(v)
			eq := (x.Op == token.EQL) == pol
			if part == "Kind" {
				n, ok := constInt(kc)
				if !ok {
					return false
				}
				for _, kind := range []string{"Func", "Var"} {
					is := m.kindConst("Kind_" + kind)
					if want["Kind!="+kind] && (n == is && !eq || n != is && eq) {
						return true
					}
				}
				return false
			}
			empty := kc.IsNil() || kc.Value != nil && (kc.Value.Kind() == constant.String && constant.StringVal(kc.Value) == "" || kc.Value.Kind() == constant.Int && constant.Sign(kc.Value) == 0)
			return eq && empty && want[part]
		}
		part, _ := m.infoPart(cond)
		return pol && want[part+"+"] || !pol && want[part+"-"]
	}
}

func (m *functabModel) kindConst(name string) int64 {
	o := m.p.pkg(rtMod + "/core").Pkg.Scope().Lookup(name)
	if k, ok := o.(*types.Const); ok {
		n, _ := constant.Int64Val(k.Val())
		return n
	}
	return -1
}

// skips: fn can return without executing target (directly or in a callee)
// although the info has the key.
func (m *functabModel) skips(fn *ssa.Function, target ssa.Instruction, absent atomMatch, busy map[*ssa.Function]bool) bool {
	return m.skipsAll(fn, []ssa.Instruction{target}, absent, busy)
}

// skipsAll: fn can return without executing any of the targets.
func (m *functabModel) skipsAll(fn *ssa.Function, targets []ssa.Instruction, absent atomMatch, busy map[*ssa.Function]bool) bool {
	if fn == nil || len(fn.Blocks) == 0 || busy[fn] {
		return true
	}
	busy[fn] = true
	defer delete(busy, fn)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, ins := range b.Instrs {
			for _, target := range targets {
				if ins == target {
					return false
				}
			}
			if cl, ok := ins.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && fnPkg(f) != nil && fnPkg(f).Path() == rtFunctab {
					r := m.p.Reach([]*ssa.Function{f}, nil)
					any := false
					for _, target := range targets {
						any = any || r[target.Parent()]
					}
					if any && !m.skipsAll(f, targets, absent, busy) {
						return false
					}
				}
			}
			if isReturn(ins) {
				return true
			}
		}
		for i, s := range b.Succs {
			if m.p.edgeHolds(b, i, absent, 0) {
				continue
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(fn.Blocks[0])
}

func (m *functabModel) complete(c *Ctx) {
	p := m.p
	// the list of all functions
	name := "RegisterFunc appends to the list of functions"
	c.Obl("R11.all", name)
	okList := false
	eachFn := func(f func(ins ssa.Instruction)) {
		for fn := range p.Reach([]*ssa.Function{m.register}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtFunctab }) {
			eachInstr(fn, f)
		}
	}
	never := func(ssa.Value, bool) bool { return false }
	eachFn(func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || !m.isInfoList(st.Addr) {
			return
		}
		ap, ok := st.Val.(*ssa.Call)
		if !ok {
			return
		}
		b, ok := ap.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return
		}
		if u, ok := ap.Call.Args[0].(*ssa.UnOp); !ok || u.X != st.Addr {
			return
		}
		if !m.skips(m.register, st, never, map[*ssa.Function]bool{}) {
			okList = true
		}
	})
	if !okList {
		c.Viol("R11.all", c.Pos(p, m.register.Pos()), name, "a registered function can be left out of the list of functions")
	}
	done := map[table]bool{}
	for _, w := range m.writes {
		if done[w.tab] {
			continue
		}
		done[w.tab] = true
		name := fmt.Sprintf("registering enters %s under %v", w.tab, w.keys)
		ab := m.absent(w.keys)
		good := false
		lazy := true
		for _, w2 := range m.writes {
			if w2.tab != w.tab {
				continue
			}
			if p.Reach([]*ssa.Function{m.register}, nil)[w2.ins.Parent()] {
				lazy = false
				if !m.skips(m.register, w2.ins, ab, map[*ssa.Function]bool{}) {
					good = true
				}
			}
		}
		if !lazy {
			c.Obl("R11.all", name)
			if !good {
				c.Viol("R11.all", c.Pos(p, w.ins.Pos()), name, "an info that has this key can be registered without being entered: looking it up finds nothing")
			}
			continue
		}
		m.lazy(c, w, ab)
	}
}

// lazy: a table filled on lookups.
func (m *functabModel) lazy(c *Ctx, w tabWrite, ab atomMatch) {
	p := m.p
	name := fmt.Sprintf("%s is filled on demand", w.tab)
	c.Obl("R11.late", name)
	fill := w.ins.Parent()
	// the filling loop: over the list of functions
	bad := func(pos token.Pos, f string, a ...interface{}) { c.Viol("R11.late", c.Pos(p, pos), name, f, a...) }
	type site struct {
		fn  *ssa.Function
		ins ssa.Instruction
		arg ssa.Value
	}
	var sites []site
	if len(fill.Params) > 0 {
		for i, pr := range fill.Params {
			if !isInfoPtr(pr.Type()) {
				continue
			}
			cs, complete := p.CallSitesOf(fill)
			if !complete {
				bad(fill.Pos(), "not all callers are known")
				return
			}
			for _, s := range cs {
				if i < len(s.args) {
					sites = append(sites, site{s.ins.Parent(), s.ins, s.args[i]})
				}
			}
		}
		if m.skips(fill, w.ins, ab, map[*ssa.Function]bool{}) {
			bad(w.ins.Pos(), "an info that has this key is not entered")
		}
	} else {
		sites = append(sites, site{fill, w.ins, w.info})
	}
	if len(sites) == 0 {
		bad(w.ins.Pos(), "nothing fills the table")
		return
	}
	for _, s := range sites {
		var idx, part ssa.Value
		for _, or := range p.Origins(s.arg, originOpts{noCalls: true, noParams: true}) {
			if u, ok := or.Val.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					if l, _ := m.listPart(ia.X); l != nil {
						idx, part = ia.Index, ia.X
					}
				}
			}
		}
		if idx == nil {
			bad(s.ins.Pos(), "the table is not filled from the list of registered functions")
			continue
		}
		h := loopOf(s.ins.Block())
		if h == nil {
			bad(s.ins.Pos(), "the table is not filled in a loop over the list of registered functions")
			continue
		}
		if s.fn == fill {
			if skipsIterationUnless(s.ins, func(b *ssa.BasicBlock, i int) bool { return p.edgeHolds(b, i, ab, 0) }) {
				bad(s.ins.Pos(), "an info that has this key is not entered")
			}
		} else if skipsIteration(s.ins) {
			bad(s.ins.Pos(), "some registered functions are left out")
		}
		if !m.upToEnd(h, idx) {
			bad(s.ins.Pos(), "the loop does not run to the end of the list of registered functions")
		}
		if !m.fromStart(h, idx, part, s.ins) {
			bad(s.ins.Pos(), "the loop does not start at the beginning, or where the last one ended")
		}
		// every lookup runs the loop first
		for _, fn := range m.fns {
			eachInstr(fn, func(ins ssa.Instruction) {
				lk, ok := ins.(*ssa.Lookup)
				if !ok {
					return
				}
				ts, _ := m.tables(lk.X, map[ssa.Value]bool{})
				hit := false
				for _, t := range ts {
					if t.t.root == w.tab.root && t.t.depth == 1 {
						hit = true
					}
				}
				if !hit || fn == fill || p.Reach([]*ssa.Function{s.fn}, nil)[fn] && fn != s.fn {
					return
				}
				if fn == s.fn && inLoop(ins.Block(), h) {
					return
				}
				if !m.ranBefore(ins, s.fn, h, map[*ssa.Function]bool{}) {
					bad(ins.Pos(), "the table can be read without taking in what was registered since it was filled: %s", shortFn(fn))
				}
			})
		}
	}
}

// upToEnd: the loop is only left when idx has reached the length of the list,
// read anew.
func (m *functabModel) upToEnd(h *ssa.BasicBlock, idx ssa.Value) bool {
	if ok, l := loopWhole(m.p, idx, nil); ok {
		for _, or := range m.p.Origins(l, originOpts{noCalls: true, noParams: true}) {
			if l, _ := m.listPart(or.Val); l == nil {
				return false
			}
		}
		return true
	}
	// a counter kept in a variable
	n := 0
	for _, b := range h.Parent().Blocks {
		iff, ok := lastIf(b)
		if !ok || !inLoop(b, h) || inLoop(b.Succs[0], h) == inLoop(b.Succs[1], h) {
			continue
		}
		x, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		op := x.Op
		if !inLoop(b.Succs[0], h) {
			op = negCmp(op)
		}
		l := lenArg(x.Y)
		if l == nil || op != token.LSS && op != token.NEQ {
			return false
		}
		u, ok := l.(*ssa.UnOp)
		if !ok || !m.isInfoList(u.X) {
			return false
		}
		if g := globalOf(x.X); g == nil || g != globalOf(idx) {
			return false
		}
		n++
	}
	return n > 0
}

// listPart: v is the list of infos, or the part of it from low on.
func (m *functabModel) listPart(v ssa.Value) (list, low ssa.Value) {
	if s, ok := v.(*ssa.Slice); ok && s.High == nil && s.Max == nil {
		v, low = s.X, s.Low
	}
	if u, ok := v.(*ssa.UnOp); ok && m.isInfoList(u.X) {
		return u, low
	}
	return nil, nil
}

func globalOf(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		g, _ := u.X.(*ssa.Global)
		return g
	}
	return nil
}

// fromStart: the index starts at 0, or is a counter which moves on by one
// exactly when an element was entered.
func (m *functabModel) fromStart(h *ssa.BasicBlock, idx, part ssa.Value, enter ssa.Instruction) bool {
	if ok, _ := loopRange(m.p, idx); ok {
		_, low := m.listPart(part)
		if low == nil {
			return true
		}
		if k, ok := constInt(low); ok {
			return k == 0
		}
		g := globalOf(low)
		if g == nil {
			return false
		}
		for _, st := range m.p.globStores[g] {
			if k, ok := constInt(st.Val); ok && k == 0 && st.Parent().Name() == "init" {
				continue
			}
			l := lenArg(st.Val)
			if l == nil || st.Parent() != h.Parent() || inLoop(st.Block(), h) || !h.Dominates(st.Block()) {
				return false
			}
			if u, isU := l.(*ssa.UnOp); !isU || !m.isInfoList(u.X) {
				return false
			}
		}
		return true
	}
	g := globalOf(idx)
	if g == nil {
		return false
	}
	for _, st := range m.p.globStores[g] {
		if k, ok := constInt(st.Val); ok && k == 0 && st.Parent().Name() == "init" {
			continue
		}
		b, ok := st.Val.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || globalOf(b.X) != g || st.Parent() != h.Parent() || !inLoop(st.Block(), h) {
			return false
		}
		if k, ok := constInt(b.Y); !ok || k != 1 {
			return false
		}
		if !alwaysBefore(st, func(i ssa.Instruction) bool { return i == enter }) {
			return false
		}
	}
	return true
}

// ranBefore: the loop with header h in fn has run when ins is reached.
func (m *functabModel) ranBefore(ins ssa.Instruction, fn *ssa.Function, h *ssa.BasicBlock, busy map[*ssa.Function]bool) bool {
	f := ins.Parent()
	if f == fn {
		return h.Dominates(ins.Block())
	}
	if busy[f] {
		return true
	}
	busy[f] = true
	runs := func(i ssa.Instruction) bool {
		cl, ok := i.(*ssa.Call)
		if !ok {
			return false
		}
		g := cl.Call.StaticCallee()
		if g == nil {
			return false
		}
		return m.alwaysRuns(g, fn, h, map[*ssa.Function]bool{})
	}
	if alwaysBefore(ins, runs) {
		return true
	}
	sites, complete := m.p.CallSitesOf(f)
	if !complete || len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		if !m.ranBefore(s.ins, fn, h, busy) {
			return false
		}
	}
	return true
}

func (m *functabModel) alwaysRuns(g, fn *ssa.Function, h *ssa.BasicBlock, busy map[*ssa.Function]bool) bool {
	if len(g.Blocks) == 0 || busy[g] {
		return false
	}
	busy[g] = true
	for _, r := range returnsOf(g) {
		if g == fn {
			if !h.Dominates(r.Block()) {
				return false
			}
			continue
		}
		if !alwaysBefore(r, func(i ssa.Instruction) bool {
			cl, ok := i.(*ssa.Call)
			return ok && cl.Call.StaticCallee() != nil && m.alwaysRuns(cl.Call.StaticCallee(), fn, h, busy)
		}) {
			return false
		}
	}
	return true
}

// brief: the flags read off the function's type.
func (m *functabModel) brief(c *Ctx) {
	p := m.p
	for _, fn := range m.fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isInfoPtr(fa.X.Type()) {
				return
			}
			f := fieldVar(fa.X.Type(), fa.Field).Name()
			var yes func(cond ssa.Value, pol bool) bool
			var no func(cond ssa.Value, pol bool) bool
			noFunc := func(cond ssa.Value, pol bool) bool {
				if x, ok := cond.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) && isNilConst(x.Y) {
					part, _ := m.infoPart(x.X)
					return part == "Func" && (x.Op == token.EQL) == pol
				}
				part, _ := m.infoPart(cond)
				return pol && (part == "Generic" || part == "Interface")
			}
			switch f {
			case "FirstArgCtx":
				yes = func(cond ssa.Value, pol bool) bool {
					cl, ok := cond.(*ssa.Call)
					if !ok || !pol || !cl.Call.IsInvoke() || cl.Call.Method.Name() != "Implements" || !m.typeGlobal(cl.Call.Args[0], "context", "Context") {
						return false
					}
					return m.elem(cl.Call.Value, "In")
				}
				no = func(cond ssa.Value, pol bool) bool {
					if noFunc(cond, pol) {
						return true
					}
					if cl, ok := cond.(*ssa.Call); ok && !pol && cl.Call.IsInvoke() && cl.Call.Method.Name() == "Implements" {
						return yes(cond, true)
					}
					return m.tooFew(cond, pol, "NumIn")
				}
			case "LastResultErr":
				yes = func(cond ssa.Value, pol bool) bool {
					x, ok := cond.(*ssa.BinOp)
					if !ok || x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != pol {
						return false
					}
					a, b := x.X, x.Y
					if !m.typeGlobal(b, "", "error") {
						a, b = b, a
					}
					return m.typeGlobal(b, "", "error") && m.elem(a, "Out")
				}
				no = func(cond ssa.Value, pol bool) bool {
					if noFunc(cond, pol) {
						return true
					}
					if x, ok := cond.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) && (x.Op == token.NEQ) == pol {
						return yes(cond, !pol)
					}
					return m.tooFew(cond, pol, "NumOut")
				}
			default:
				return
			}
			name := shortFn(fn) + " sets " + f
			c.Obl("R11.ctx", name)
			isTest := func(v ssa.Value) bool { return yes(v, true) }
			if p.badValueReaches(st.Val, st, yes, func(v ssa.Value) bool {
				if b, ok := constBool(v); ok {
					return b
				}
				return !isTest(v)
			}) {
				c.Viol("R11.ctx", c.Pos(p, st.Pos()), name, "can be set although the function's own type (past its receiver) does not say so")
			}
			if p.badValueReaches(st.Val, st, no, func(v ssa.Value) bool {
				if b, ok := constBool(v); ok {
					return !b
				}
				return !isTest(v)
			}) {
				c.Viol("R11.ctx", c.Pos(p, st.Pos()), name, "can be left unset although the function's own type says so")
			}
		})
	}
}

// typeGlobal: v is the reflect.Type of the named interface.
func (m *functabModel) typeGlobal(v ssa.Value, pkg, name string) bool {
	var check func(v ssa.Value, d int) bool
	check = func(v ssa.Value, d int) bool {
		if d > 5 {
			return false
		}
		os := m.p.Origins(v, originOpts{noParams: true, noCalls: true})
		for _, or := range os {
			switch x := or.Val.(type) {
			case *ssa.UnOp:
				g, ok := x.X.(*ssa.Global)
				if !ok || len(m.p.globStores[g]) != 1 || !check(m.p.globStores[g][0].Val, d+1) {
					return false
				}
			case *ssa.Call:
				if !x.Call.IsInvoke() || x.Call.Method.Name() != "Elem" {
					return false
				}
				a := m.reflectArg(x.Call.Value, "TypeOf")
				mi, ok := a.(*ssa.MakeInterface)
				if !ok {
					return false
				}
				pt, ok := mi.X.Type().(*types.Pointer)
				if !ok {
					return false
				}
				n, ok := pt.Elem().(*types.Named)
				if !ok || n.Obj().Name() != name || pkg != "" && (n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkg) || pkg == "" && n.Obj().Pkg() != nil {
					return false
				}
			default:
				return false
			}
		}
		return len(os) > 0
	}
	return check(v, 0)
}

// elem: v is the first parameter past the receiver, or the last result, of
// the registered function.
func (m *functabModel) elem(v ssa.Value, kind string) bool {
	os := m.p.Origins(v, originOpts{noParams: true, noCalls: true})
	if len(os) != 1 {
		return false
	}
	cl, ok := os[0].Val.(*ssa.Call)
	if !ok || !cl.Call.IsInvoke() || cl.Call.Method.Name() != kind {
		return false
	}
	if f, _ := m.typeOf(cl.Call.Value); f != "Func" {
		return false
	}
	if kind == "In" {
		return m.pastReceiver(cl.Call.Args[0], cl)
	}
	// NumOut()-1
	lin := &linCtx{p: m.p}
	f := lin.form(cl.Call.Args[0], 0)
	if f.c != -1 || len(f.co) != 1 {
		return false
	}
	for v, k := range f.co {
		q, ok := v.(*ssa.Call)
		if k != 1 || !ok || !q.Call.IsInvoke() || q.Call.Method.Name() != "NumOut" {
			return false
		}
		if f, _ := m.typeOf(q.Call.Value); f != "Func" {
			return false
		}
	}
	return true
}

// pastReceiver: 1 for a function with a receiver, 0 for one without.
func (m *functabModel) pastReceiver(v ssa.Value, use ssa.Instruction) bool {
	has := func(want bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			s, isS := constStr(x.Y)
			if !isS || s != "" {
				return false
			}
			part, _ := m.infoPart(x.X)
			return part == "RecvType" && ((x.Op == token.NEQ) == pol) == want
		}
	}
	is := func(k int64) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			f := (&linCtx{p: m.p}).form(v, 0)
			return len(f.co) != 0 || f.c == k || f.c != 0 && f.c != 1
		}
	}
	return !m.p.badValueReaches(v, use, has(true), is(1)) && !m.p.badValueReaches(v, use, has(false), is(0))
}

// tooFew: cond==pol says there is no such parameter or result.
func (m *functabModel) tooFew(cond ssa.Value, pol bool, count string) bool {
	x, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := x.Op
	if !pol {
		op = negCmp(op)
	}
	a, b := x.X, x.Y
	isCount := func(v ssa.Value) bool {
		q, ok := v.(*ssa.Call)
		if !ok || !q.Call.IsInvoke() || q.Call.Method.Name() != count {
			return false
		}
		f, _ := m.typeOf(q.Call.Value)
		return f == "Func"
	}
	if isCount(b) {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !isCount(a) {
		return false
	}
	if count == "NumIn" {
		return op == token.LEQ && m.pastReceiver(b, x)
	}
	k, isC := constInt(b)
	return isC && (op == token.LEQ && k == 0 || op == token.EQL && k == 0 || op == token.LSS && k == 1)
}

// hooked: the linked runtime's hand-over.
func (m *functabModel) hooked(c *Ctx) {
	p := m.p
	for _, fn := range m.fns {
		eachInstr(fn, func(ins ssa.Instruction) {
			cl, ok := isCallTo(ins, rtLink+".XgoSetupRegisterHandler")
			if !ok {
				return
			}
			name := shortFn(fn) + " hands over the registration function"
			c.Obl("R11.hook", name)
			for _, f := range p.FuncValues(cl.Common().Args[0]) {
				good := false
				eachInstr(f, func(i ssa.Instruction) {
					k, ok := i.(*ssa.Call)
					if !ok || k.Call.StaticCallee() != m.register {
						return
					}
					for _, or := range p.Origins(k.Call.Args[0], originOpts{noCalls: true, noParams: true}) {
						v := or.Val
						if cv, ok := v.(*ssa.Convert); ok {
							v = cv.X
						}
						if v == f.Params[0] && alwaysBeforeReturns(f, k) {
							good = true
						}
					}
				})
				if f == m.register {
					good = true
				}
				if !good {
					c.Viol("R11.hook", c.Pos(p, ins.Pos()), name, "what the runtime hands over is not registered")
				}
			}
		})
	}
}

func alwaysBeforeReturns(f *ssa.Function, k ssa.Instruction) bool {
	for _, r := range returnsOf(f) {
		if !alwaysBefore(r, func(i ssa.Instruction) bool { return i == k }) {
			return false
		}
	}
	return true
}

// leaves of a string concatenation.
func concat(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(concat(b.X), concat(b.Y)...)
	}
	return []ssa.Value{v}
}

// sets: the derived fields of an info.
func (m *functabModel) sets(c *Ctx) {
	p := m.p
	anyOf := func(ms ...atomMatch) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			for _, f := range ms {
				if f(cond, pol) {
					return true
				}
			}
			return false
		}
	}
	special := func(cond ssa.Value, pol bool) bool {
		part, _ := m.infoPart(cond)
		return pol && (part == "Generic" || part == "Interface")
	}
	funcNil := func(isNil bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ || !isNilConst(x.Y) {
				return false
			}
			part, _ := m.infoPart(x.X)
			return part == "Func" && ((x.Op == token.EQL) == pol) == isNil
		}
	}
	empty := func(field string, is bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			if s, ok := constStr(x.Y); !ok || s != "" {
				return false
			}
			part, _ := m.infoPart(x.X)
			return part == field && ((x.Op == token.EQL) == pol) == is
		}
	}
	never := func(ssa.Value, bool) bool { return false }
	isPC := func(v ssa.Value, base ssa.Value) bool {
		part, b := m.infoPart(v)
		return part == "PC" && sameSource(p, b, base)
	}
	reach := p.Reach([]*ssa.Function{m.register}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtFunctab })
	written := map[string]bool{}
	for _, fn := range m.fns {
		if !reach[fn] {
			continue
		}
		eachInstr(fn, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isInfoPtr(fa.X.Type()) {
				return
			}
			f := fieldVar(fa.X.Type(), fa.Field).Name()
			if f != "PC" && f != "FullName" {
				return
			}
			name := shortFn(fn) + " sets " + f
			c.Obl("R11.set", name)
			if f == "PC" {
				if p.badValueReaches(st.Val, st, anyOf(funcNil(true), special), func(v ssa.Value) bool { return !isPC(v, fa.X) }) {
					c.Viol("R11.set", c.Pos(p, st.Pos()), name, "the program counter can be another than that of the info's own function")
				}
				if !m.skips(m.register, st, never, map[*ssa.Function]bool{}) {
					written[f] = true
				}
				return
			}
			named := empty("FullName", false)
			if p.badValueReaches(st.Val, st, anyOf(named, funcNil(true), special), func(v ssa.Value) bool {
				cl, ok := v.(*ssa.Call)
				if !ok || cl.Call.StaticCallee() == nil || fnName(cl.Call.StaticCallee()) != rtLink+".XgoGetFullPCName" {
					return true
				}
				return !isPC(cl.Call.Args[0], fa.X)
			}) {
				c.Viol("R11.set", c.Pos(p, st.Pos()), name, "the full name of a function can be another than the runtime's name for its program counter")
			}
			var kinds = []string{"Kind_Var", "Kind_VarPtr", "Kind_Const", ""}
			for _, k := range kinds {
				contra := func(cond ssa.Value, pol bool) bool {
					if k == "" {
						part, _ := m.infoPart(cond)
						return part == "Closure" && !pol
					}
					x, ok := cond.(*ssa.BinOp)
					if !ok || x.Op != token.EQL && x.Op != token.NEQ {
						return false
					}
					n, ok := constInt(x.Y)
					if part, _ := m.infoPart(x.X); !ok || part != "Kind" {
						return false
					}
					return ((x.Op == token.EQL) == pol) != (n == m.kindConst(k))
				}
				if p.badValueReaches(st.Val, st, anyOf(named, funcNil(false), special, empty("IdentityName", true), contra), func(v ssa.Value) bool {
					l := concat(v)
					if len(l) != 3 {
						return true
					}
					a, _ := m.infoPart(l[0])
					s, _ := constStr(l[1])
					b, _ := m.infoPart(l[2])
					return a != "Pkg" || s != "." || b != "IdentityName"
				}) {
					what := k
					if k == "" {
						what = "closure"
					}
					c.Viol("R11.set", c.Pos(p, st.Pos()), name, "%s without a function can get a full name other than package.identity", what)
				}
			}
			if !m.skips(m.register, st, named, map[*ssa.Function]bool{}) {
				written[f] = true
			}
		})
	}
	for _, f := range []string{"PC", "FullName"} {
		if !written[f] {
			c.Viol("R11.set", c.Pos(p, m.register.Pos()), "RegisterFunc", "can leave %s unset", f)
		}
	}
}

// fallback: the second places a name is looked for.
func (m *functabModel) fallback(c *Ctx) {
	p := m.p
	inTab := func(stop *ssa.Function) map[*ssa.Function]bool {
		return p.Reach([]*ssa.Function{stop}, func(x *ssa.Function) bool { return fnPkg(x) == nil || fnPkg(x).Path() != rtFunctab })
	}
	hit := func(cond ssa.Value, pol bool) bool { // something was found already
		x, ok := cond.(*ssa.BinOp)
		if ok && (x.Op == token.EQL || x.Op == token.NEQ) && isNilConst(x.Y) && isInfoPtr(x.X.Type()) {
			return (x.Op == token.NEQ) == pol
		}
		return false
	}
	parsed := func(v ssa.Value) int {
		if ex, ok := v.(*ssa.Extract); ok {
			if cl, ok := ex.Tuple.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && fnName(cl.Call.StaticCallee()) == rtMod+"/core.ParseFuncName" {
				return ex.Index
			}
		}
		return -1
	}
	emptyPart := func(idx int, is bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			if hit(cond, pol) {
				return true
			}
			x, ok := cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			s, isS := constStr(x.Y)
			return isS && s == "" && parsed(x.X) == idx && ((x.Op == token.EQL) == pol) == is
		}
	}
	full := p.Func(rtFunctab, "GetFuncByFullName")
	if full != nil {
		name := "GetFuncByFullName: instances of a generic"
		c.Obl("R11.fallback", name)
		var sites []ssa.Instruction
		for fn := range inTab(full) {
			eachInstr(fn, func(ins ssa.Instruction) {
				if cl, ok := isCallTo(ins, rtFunctab+".GetFuncByPkg"); ok && fn.Name() != "GetFuncByPkg" {
					sites = append(sites, cl.(ssa.Instruction))
				}
				if lk, ok := ins.(*ssa.Lookup); ok && m.reads(lk, "Pkg", "IdentityName") && fn.Name() != "GetFuncByPkg" {
					sites = append(sites, ins)
				}
			})
		}
		for _, idx := range []int{3, 4} {
			if m.skipsAll(full, sites, emptyPart(idx, true), map[*ssa.Function]bool{}) {
				c.Viol("R11.fallback", c.Pos(p, full.Pos()), name, "the name of an instance (of a generic %s) can be given up without looking for the generic", []string{"type", "function"}[idx-3])
			}
		}
		name = "GetFuncByFullName: interfaces"
		c.Obl("R11.fallback", name)
		var intf []ssa.Instruction
		for fn := range inTab(full) {
			eachInstr(fn, func(ins ssa.Instruction) {
				if lk, ok := ins.(*ssa.Lookup); ok && m.reads(lk, "Pkg", "RecvType") {
					intf = append(intf, ins)
				}
			})
		}
		if m.skipsAll(full, intf, func(cond ssa.Value, pol bool) bool {
			if emptyPart(1, true)(cond, pol) || emptyPart(3, false)(cond, pol) || emptyPart(4, false)(cond, pol) {
				return true
			}
			return parsed(cond) == 2 && pol
		}, map[*ssa.Function]bool{}) {
			c.Viol("R11.fallback", c.Pos(p, full.Pos()), name, "an interface's name can be given up without looking for the interface")
		}
	}
	if fn := p.Func(rtFunctab, "GetFuncByPkg"); fn != nil {
		name := "GetFuncByPkg: methods of pointers"
		c.Obl("R11.fallback", name)
		good := false
		for g := range inTab(fn) {
			eachInstr(g, func(ins ssa.Instruction) {
				lk, ok := ins.(*ssa.Lookup)
				if !ok || !m.reads(lk, "Pkg", "IdentityName") {
					return
				}
				l := concat(lk.Index)
				if len(l) < 4 {
					return
				}
				a, _ := constStr(l[0])
				b, _ := constStr(l[2])
				typ, isT := l[1].(*ssa.Slice)
				met, isM := l[3].(*ssa.Slice)
				if len(l) != 4 || a != "(*" || b != ")." || !isT || !isM || typ.High == nil || met.Low == nil || met.High != nil || !sameSource(p, typ.X, met.X) {
					return
				}
				if typ.Low != nil {
					if k, ok := constInt(typ.Low); !ok || k != 0 {
						return
					}
				}
				lin := &linCtx{p: p}
				d := lin.form(met.Low, 0).add(lin.form(typ.High, 0), -1)
				dot := func(v ssa.Value) bool {
					cl, ok := v.(*ssa.Call)
					if !ok || cl.Call.StaticCallee() == nil || fnPkg(cl.Call.StaticCallee()) == nil || fnPkg(cl.Call.StaticCallee()).Path() != "strings" {
						return false
					}
					s, _ := constStr(cl.Call.Args[1])
					n, _ := constInt(cl.Call.Args[1])
					return strings.HasPrefix(cl.Call.StaticCallee().Name(), "Index") && (s == "." || n == '.') && sameSource(p, cl.Call.Args[0], typ.X)
				}
				if !d.isConst(1) || !dot(typ.High) {
					return
				}
				if !m.skips(fn, ins, func(cond ssa.Value, pol bool) bool {
					if hit(cond, pol) {
						return true
					}
					if x, op, k, ok := normCompare(cond, pol); ok && dot(x) {
						return op == token.LSS && k <= 0 || op == token.EQL && k == -1 || op == token.LEQ && k <= -1
					}
					if cl, ok := cond.(*ssa.Call); ok && pol && cl.Call.StaticCallee() != nil && fnName(cl.Call.StaticCallee()) == "strings.HasPrefix" {
						return true
					}
					return m.nothingThere(cond, pol)
				}, map[*ssa.Function]bool{}) {
					good = true
				}
			})
		}
		if !good {
			c.Viol("R11.fallback", c.Pos(p, fn.Pos()), name, "T.M can be given up without looking for (*T).M")
		}
	}
}

// reads: lk finds an info in a table written under the given keys.
func (m *functabModel) reads(lk *ssa.Lookup, keys ...string) bool {
	ts, ok := m.tables(lk.X, map[ssa.Value]bool{})
	if !ok || len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if strings.Join(m.keysOf(t.t), ",") != strings.Join(keys, ",") {
			return false
		}
	}
	return true
}

// nothingThere: cond==pol says that the key is empty or the package has no
// table.
func (m *functabModel) nothingThere(cond ssa.Value, pol bool) bool {
	if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 1 && !pol {
		lk, ok := ex.Tuple.(*ssa.Lookup)
		return ok && !isInfoPtr(lk.X.Type().Underlying().(*types.Map).Elem())
	}
	x, ok := cond.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != pol {
		return false
	}
	k, ok := x.Y.(*ssa.Const)
	if !ok {
		return false
	}
	if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
		return k.IsNil()
	}
	return k.IsNil() || k.Value != nil && (k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" || k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0)
}
