package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reserver: f reserves a name for an import.
func reserver(f *ssa.Function) bool {
	if f == nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "instrument/instrument_var") {
		return false
	}
	s := f.Signature
	if s.Params().Len() != 2 || s.Results().Len() != 2 {
		return false
	}
	str := func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) }
	return str(s.Params().At(0).Type()) && str(s.Params().At(1).Type()) && str(s.Results().At(0).Type()) && types.Identical(s.Results().At(1).Type(), types.Typ[types.Bool])
}

// i03named: each kind of type is written by its kind.
func (c *Ctx) i03named(p *Prog) {
	tpkg := p.pkg(typesPkg)
	if tpkg == nil {
		panic(typesPkg + " not found")
	}
	iface := tpkg.Pkg.Scope().Lookup("Type").Type().Underlying().(*types.Interface)
	var kinds []string
	for _, n := range tpkg.Pkg.Scope().Names() {
		tn, ok := tpkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if ok && !types.IsInterface(tn.Type()) && types.Implements(tn.Type(), iface) {
			kinds = append(kinds, n)
		}
	}
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if !typeTexter(f) {
			continue
		}
		tests := false
		eachInstr(f, func(i ssa.Instruction) {
			if ta, ok := i.(*ssa.TypeAssert); ok {
				if _, ok := ta.X.(*ssa.Parameter); ok && isNamed(ta.X.Type(), typesPkg, "Type") {
					tests = true
				}
			}
		})
		if tests {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, f := range fs {
		sh := c.newShaper(p)
		sh.opaque = func(g *ssa.Function) bool { return typeTexter(g) || reserver(g) }
		fr := sh.top(f)
		tp := paramOfType(f, func(t types.Type) bool { return isNamed(t, typesPkg, "Type") }).Name()
		x := sh.result(fr, 0)
		at := c.Pos(p, f.Pos())
		if b := containsBad(x); b != "" {
			c.Viol("named", at, shortFn(f), "what is written cannot be decided: %s", shapeErr(b))
			continue
		}
		keys := atomsOf(x)
		isT := func(k string) (string, bool) {
			pre := "is:is(" + tp + ","
			if strings.HasPrefix(k, pre) {
				return strings.TrimSuffix(strings.TrimPrefix(k, pre), ")"), true
			}
			return "", false
		}
		own := "eq:" + tp + ".PkgPath=="
		var free []string
		ownKey, expKey := "", ""
		for _, k := range keys {
			if _, ok := isT(k); ok {
				continue
			}
			free = append(free, k)
			if strings.HasPrefix(k, own) || strings.HasPrefix(k, "eq:") && strings.HasSuffix(k, "=="+tp+".PkgPath") {
				ownKey = k
			}
			if strings.HasPrefix(k, "is:go/") && strings.HasSuffix(k, "IsExported("+tp+".Name)") {
				expKey = k
			}
		}
		if len(free) > 12 {
			c.Viol("named", at, shortFn(f), "too many conditions: %s", strings.Join(free, "; "))
			continue
		}
		var rep = map[string]bool{}
		for _, kind := range kinds {
			if kind == "Tuple" {
				continue // no variable has the type of several results
			}
			c.Obl("named", shortFn(f)+" "+kind)
			some := false
			for m := 0; m < 1<<uint(len(free)); m++ {
				as := map[string]bool{}
				for _, k := range keys {
					if t, ok := isT(k); ok {
						as[k] = t == typesPkg+"."+kind
					}
				}
				for i, k := range free {
					as[k] = m>>uint(i)&1 == 1
				}
				if contradictory(as) || as["empty:"+tp+".InstanceParams"] {
					continue
				}
				in := newInst(as)
				t := in.text(x, nil)
				if in.err == "!no alternative" {
					continue // refused
				}
				if in.err != "" {
					if !strings.HasPrefix(in.err, "!") && !rep[kind] {
						rep[kind] = true
						c.Viol("named", at, shortFn(f)+" "+kind, "%s", in.err)
					}
					continue
				}
				some = true
				rec := func(id, part string) bool {
					s := in.paths[id]
					i := strings.Index(s, "(")
					if strings.HasPrefix(s, "(") {
						i = 1 + strings.Index(s[1:], "(")
					}
					return i > 0 && strings.Contains(s[:i], "instrument_var") && (strings.HasSuffix(s, ","+part+")") || strings.HasPrefix(s[i:], "("+part+",") || strings.HasPrefix(s[i:], "("+part+")"))
				}
				ok := false
				switch kind {
				case "Basic":
					ok = in.paths[t] == tp
				case "NamedType":
					if i := strings.Index(t, "."); i > 0 {
						s := in.paths[t[:i]]
						ok = in.paths[t[i+1:]] == tp+".Name" && !strings.Contains(s, ")#") && strings.Contains(s, "instrument_var") && (strings.Contains(s, ","+tp+".PkgPath,\"__") || strings.Contains(s, ","+tp+".PkgPath,(\"__"))
						if ok && (ownKey == "" || as[ownKey]) {
							ok = false
						}
						if ok && (expKey == "" || !as[expKey]) {
							ok = false
						}
					} else {
						ok = in.paths[t] == tp+".Name" && ownKey != "" && as[ownKey]
					}
				case "PtrType":
					ok = strings.HasPrefix(t, "*") && rec(t[1:], tp+".Elem")
				case "Slice":
					ok = strings.HasPrefix(t, "[]") && rec(t[2:], tp+".Elem")
				case "Map":
					if i := strings.Index(t, "]"); strings.HasPrefix(t, "map[") && i > 0 {
						ok = rec(t[4:i], tp+".Key") && rec(t[i+1:], tp+".Value")
					}
				case "LazyType":
					s := in.paths[t]
					ok = strings.Contains(s, "instrument_var") && strings.Contains(s, tp)
				case "GenericInstanceType":
					if i := strings.Index(t, "["); i > 0 && strings.HasSuffix(t, "]") && rec(t[:i], tp+".Type") {
						l := strings.Split(t[i+1:len(t)-1], ", ")
						ok = len(l) == in.n
						for j, y := range l {
							ok = ok && rec(y, fmt.Sprintf("%s.InstanceParams[%d]", tp, j))
						}
					}
				}
				if !ok && !rep[kind] {
					rep[kind] = true
					c.Viol("named", at, shortFn(f)+" "+kind, "a type of this kind is written as %s (%v) where %s", t, in.paths, condOf(as, free))
				}
			}
			switch kind {
			case "Basic", "NamedType", "PtrType", "Slice", "Map", "LazyType", "GenericInstanceType":
				if !some {
					c.Viol("named", at, shortFn(f)+" "+kind, "types of this kind are always refused")
				}
			}
		}
	}
}

func condOf(as map[string]bool, keys []string) string {
	var l []string
	for _, k := range keys {
		s := k
		if !as[k] {
			s = "!" + k
		}
		l = append(l, s)
	}
	return shapeErr(strings.Join(l, " & "))
}

// i03imports: what a written type needs is imported.
func (c *Ctx) i03imports(p *Prog) {
	var recorder types.Type
	for _, f := range p.Funcs {
		if reserver(f) {
			c.i03reserve(p, f)
			if f.Signature.Recv() != nil {
				recorder = f.Signature.Recv().Type()
			}
		}
		if typeTexter(f) {
			c.i03need(p, f)
		}
	}
	// one recorder per file
	for _, f := range p.Funcs {
		if recorder == nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "instrument/instrument_var") {
			continue
		}
		sh := c.newShaper(p)
		eachInstr(f, func(ins ssa.Instruction) {
			a, ok := ins.(*ssa.Alloc)
			if !ok || !types.Identical(a.Type(), recorder) {
				return
			}
			at := c.Pos(p, a.Pos())
			c.Obl("import", at)
			h := loopOf(a.Block())
			if h == nil || !strings.Contains(loopListType(sh, h), "/edit.File") {
				c.Viol("import", at, "import recorder", "the names of imports are not kept for each file apart: a second file would use the first one's imports")
			}
		})
	}
}

// loopListType: what kind of list a loop goes through.
func loopListType(sh *shaper, h *ssa.BasicBlock) string {
	_, l, _ := sh.loopList(h)
	if l == nil {
		return ""
	}
	return l.Type().String()
}

// i03reserve: reserving a name.
func (c *Ctx) i03reserve(p *Prog, f *ssa.Function) {
	at := c.Pos(p, f.Pos())
	c.Obl("import", at)
	sh := c.newShaper(p)
	fr := sh.top(f)
	n := len(f.Params)
	if n < 3 {
		c.Viol("import", at, shortFn(f), "no recorder it belongs to")
		return
	}
	pkg, ref := f.Params[n-2].Name(), f.Params[n-1].Name()
	type upd struct {
		m, k, v, g *shp
	}
	var ups, ctr []upd
	sh.walkFrames(fr, nil, func(ins ssa.Instruction, fr *sframe, chain []*ssa.Call) {
		g := func() *shp {
			d, _ := sh.chainGuard(fr, nil, ins)
			return &shp{k: sAlt, alts: []galt{{d, lit("")}}}
		}
		switch x := ins.(type) {
		case *ssa.MapUpdate:
			ups = append(ups, upd{sh.eval(x.Map, fr), sh.eval(x.Key, fr), sh.eval(x.Value, fr), g()})
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if b, ok := x.Val.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					ctr = append(ctr, upd{sh.eval(fa, fr), nil, sh.eval(x.Val, fr), g()})
				}
			}
		}
	})
	if len(ups) != 1 || len(ctr) != 1 {
		c.Viol("import", at, shortFn(f), "the name is stored at %d places and counted at %d, want one each", len(ups), len(ctr))
		return
	}
	up, ct := ups[0], ctr[0]
	r0, r1 := sh.result(fr, 0), sh.result(fr, 1)
	if up.k.s != pkg {
		c.Viol("import", at, shortFn(f), "the name is stored for something else than the package: %s", shapeErr(up.k))
	}
	if ct.v.k != sBin || ct.v.String() != "("+ct.m.String()+"+1)" {
		c.Viol("import", at, shortFn(f), "the number of names is not counted up: %s", shapeErr(ct.v))
	}
	has := "is:has(" + up.m.String() + "[" + pkg + "])"
	known := up.m.String() + "[" + pkg + "]"
	seen := false
	rep := map[string]bool{}
	viol := func(f2 string, a ...interface{}) {
		if !rep[f2] {
			rep[f2] = true
			c.Viol("import", at, shortFn(f), f2, a...)
		}
	}
	err := eachCase(10, []*shp{r0, r1, up.v, up.g, ct.g}, nil, func(as map[string]bool) {
		in := newInst(as)
		n0, isNew := in.text(r0, nil), in.text(r1, nil)
		if in.err != "" {
			if !strings.HasPrefix(in.err, "!") {
				viol("%s", in.err)
			}
			return
		}
		seen = true
		old, hasKey := as[has]
		if !hasKey {
			viol("whether the package has a name already is not looked up")
			return
		}
		if old {
			if isNew != "false" || in.paths[n0] != known {
				viol("a package that has a name does not keep it")
			}
			return
		}
		if isNew != "true" {
			viol("a new package's import is not reported as new")
		}
		if !in.holds(up.g.alts[0].dnf) || in.text(up.v, nil) != n0 {
			viol("the name returned for a new package is not the one stored for it")
		}
		if !in.holds(ct.g.alts[0].dnf) {
			viol("a new name is not counted")
		}
		zero := false
		for k, v := range as {
			if k == "lt:0<"+ct.m.String() && !v || k == "eq:"+ct.m.String()+"==0" && v {
				zero = true
			}
		}
		if !strings.Contains(n0, in.place(ref, nil)) || !zero && !strings.Contains(n0, in.place(ct.m.String(), types.Typ[types.Int])) {
			viol("the name is not made of the one asked for and the number of names before: two packages could get one name")
		}
	})
	if err != nil || !seen {
		c.Viol("import", at, shortFn(f), "cannot be decided: %v", err)
	}
}

// i03need: the imports a function writing types asks for.
func (c *Ctx) i03need(p *Prog, f *ssa.Function) {
	sh := c.newShaper(p)
	sh.opaque = func(g *ssa.Function) bool { return typeTexter(g) || reserver(g) }
	fr := sh.top(f)
	at := c.Pos(p, f.Pos())
	var calls []*ssa.Call
	type added struct {
		v *shp
		g [][]gatom
	}
	var adds []added
	sh.walkFrames(fr, nil, func(ins ssa.Instruction, cf *sframe, chain []*ssa.Call) {
		for _, y := range chain {
			if typeTexter(y.Call.StaticCallee()) {
				return
			}
		}
		switch x := ins.(type) {
		case *ssa.Call:
			if g := x.Call.StaticCallee(); reserver(g) {
				calls = append(calls, x)
			}
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.FieldAddr); ok {
				if sl, ok := x.Val.Type().Underlying().(*types.Slice); ok {
					if strings.Contains(sl.Elem().String(), "instrument_var.") {
						g, _ := sh.chainGuard(fr, chain, x)
						adds = append(adds, added{sh.eval(x.Val, cf), g})
					}
				}
			}
		}
	})
	for _, cl := range calls {
		cat := c.Pos(p, cl.Pos())
		c.Obl("import", cat)
		if len(adds) != len(calls) {
			c.Viol("import", cat, shortFn(f), "a reserved name is not noted for importing at one place")
			continue
		}
		if cl.Parent() != f {
			c.Viol("import", cat, shortFn(f), "the name is reserved by another function")
			continue
		}
		pkg := sh.eval(cl.Call.Args[len(cl.Call.Args)-2], fr)
		g, _ := sh.chainGuard(fr, nil, cl)
		name := "" // of the result
		for _, r := range *cl.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
				name = sh.eval(e, fr).String()
			}
		}
		a := adds[0]
		ok := a.v.k == sPlus && len(a.v.sub) == 2 && a.v.sub[1].k == sList && len(a.v.sub[1].sub) == 1 && a.v.sub[1].sub[0].k == sStruct
		if !ok {
			c.Viol("import", cat, shortFn(f), "not one import is added to the ones noted: %s", shapeErr(a.v))
			continue
		}
		e := a.v.sub[1].sub[0]
		var hasPkg, hasName bool
		for k, v := range e.flds {
			switch v.String() {
			case pkg.String():
				hasPkg = k == "pkgPath" || !hasPkg
			case name:
				hasName = true
			}
		}
		if !hasPkg || !hasName || len(e.flds) != 2 {
			c.Viol("import", cat, shortFn(f), "the import noted is not of the package and under the name reserved: %s", shapeErr(e))
		}
		isNew := "is:" + name + "#1"
		gs := &shp{k: sAlt, alts: []galt{{a.g, lit("")}, {g, lit("")}}}
		rep := false
		err := eachCase(14, []*shp{gs}, []string{isNew}, func(as map[string]bool) {
			in := newInst(as)
			if in.holds(a.g) != (in.holds(g) && as[isNew]) && !rep {
				rep = true
				c.Viol("import", cat, shortFn(f), "an import is noted although its name is not new, or is not although it is")
			}
		})
		if err != nil {
			c.Viol("import", cat, shortFn(f), "%v", err)
		}
	}
	// refusing
	entry := false
	for _, g := range p.Funcs {
		if typeTexter(g) {
			continue
		}
		eachInstr(g, func(ins ssa.Instruction) {
			if cl, ok := ins.(ssa.CallInstruction); ok && cl.Common().StaticCallee() == f {
				entry = true
			}
		})
	}
	if !entry {
		return
	}
	c.Obl("import", at)
	var clo *ssa.Function
	var mk *ssa.MakeClosure
	eachInstr(f, func(ins ssa.Instruction) {
		if d, ok := ins.(*ssa.Defer); ok && d.Block() == f.Blocks[0] {
			m, _ := d.Call.Value.(*ssa.MakeClosure)
			if m != nil {
				g := m.Fn.(*ssa.Function)
				eachInstr(g, func(x ssa.Instruction) {
					if cl, ok := x.(*ssa.Call); ok && isBuiltin(cl.Call.Value, "recover") {
						clo, mk = g, m
					}
				})
			}
		}
	})
	if clo == nil {
		c.Viol("import", at, shortFn(f), "a type that cannot be written is not recovered from: xgo stops")
		return
	}
	cf := sh.top(clo)
	cf.clo, cf.cloFr = mk, fr
	removed, emptied := false, false
	rec := func(g [][]gatom) bool { // holds whenever something was recovered
		ok := true
		_ = eachCase(8, []*shp{{k: sAlt, alts: []galt{{g, lit("")}}}}, nil, func(as map[string]bool) {
			for k, v := range as {
				if strings.HasPrefix(k, "nil:") && strings.HasSuffix(k, "builtin recover") && v || strings.HasPrefix(k, "empty:") && v {
					return
				}
				if k == "is:"+XI+"config.DEBUG" {
					continue
				}
			}
			ok = ok && newInst(as).holds(g)
		})
		return ok
	}
	sh.walkFrames(cf, nil, func(ins ssa.Instruction, xf *sframe, chain []*ssa.Call) {
		g, loops := sh.chainGuard(cf, chain, ins)
		switch x := ins.(type) {
		case *ssa.Call:
			if isBuiltin(x.Call.Value, "delete") {
				k := sh.eval(x.Call.Args[1], xf)
				whole := len(loops) == 1
				for _, h := range loops {
					if _, _, why := sh.loopList(h); why == "left early" {
						whole = false
					}
				}
				if whole && rec(g) && strings.HasSuffix(k.s, "[*].pkgPath") {
					removed = true
				}
			}
		case *ssa.Store:
			if fv, ok := x.Addr.(*ssa.FreeVar); ok {
				if types.Identical(fv.Type().(*types.Pointer).Elem(), types.Typ[types.String]) {
					v := sh.eval(x.Val, xf)
					emptied = v.k == sLit && v.s == "" && rec(g)
				}
			}
		}
	})
	if !removed {
		c.Viol("import", at, shortFn(f), "the names reserved for a type that was refused stay reserved: the next type uses a name that is never imported")
	}
	if !emptied {
		c.Viol("import", at, shortFn(f), "a refused type does not become the empty text")
	}
}

// i03noted: what is noted about a reference.
func (c *Ctx) i03noted(p *Prog) {
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != resolvePkg {
			continue
		}
		var st *ssa.Store
		eachInstr(f, func(ins ssa.Instruction) {
			if x, ok := ins.(*ssa.Store); ok {
				if _, ok := x.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(x.Val.Type().String(), "[]*"+editPkg+".VarRef") {
					st = x
				}
			}
		})
		if st == nil {
			continue
		}
		sh := c.newShaper(p)
		sh.opaque = func(*ssa.Function) bool { return true }
		fr := sh.top(f)
		at := c.Pos(p, st.Pos())
		ptrTo := func(n string) string {
			if x := paramOfType(f, func(t types.Type) bool { return isNamedPtr(t, "go/ast", n) }); x != nil {
				return x.Name()
			}
			return "?"
		}
		ex := paramOfType(f, func(t types.Type) bool { return isNamed(t, "go/ast", "Expr") })
		v := sh.eval(st.Val, fr)
		if ex == nil || v.k != sPlus || len(v.sub) != 2 || v.sub[1].k != sList || len(v.sub[1].sub) != 1 || v.sub[1].sub[0].k != sStruct {
			c.Viol("noted", at, shortFn(f), "not one reference is added to those noted")
			continue
		}
		if base := sh.eval(st.Addr, fr); base.String() != v.sub[0].String() {
			c.Viol("noted", at, shortFn(f), "the references noted before are not kept")
		}
		if own := sh.eval(st.Addr, fr).String(); !strings.Contains(own, ".PkgPath") || !strings.Contains(own, ".Name") {
			c.Viol("noted", at, shortFn(f), "not noted for the declaration the name refers to")
		}
		ref := v.sub[1].sub[0]
		fl := func(n string) *shp {
			if x := ref.flds[n]; x != nil {
				return x
			}
			return lit("zero")
		}
		g, _ := sh.chainGuard(fr, nil, st)
		gs := &shp{k: sAlt, alts: []galt{{g, lit("")}}}
		kA, kS := "nil:"+ptrTo("UnaryExpr"), "nil:"+ptrTo("SelectorExpr")
		kP, kI, kX := "", "", ""
		var x string // the expression without parentheses
		if e := fl("NameEnd").String(); strings.Contains(e, "("+ex.Name()+")") || strings.Contains(e, ","+ex.Name()+")") {
			i := strings.Index(e, ")(")
			if j := strings.Index(e, "("); i < 0 || j > 0 {
				i = j - 1
			}
			if strings.HasPrefix(e, "(") {
				i = strings.Index(e, "(") + strings.Index(e[1:], "(")
			}
			if i+2 < len(e) {
				x = e[i+2 : len(e)-1]
			}
		}
		if !isEndOf(fl("NameEnd").s, x) || x == ex.Name() {
			c.Viol("noted", at, "VarRef.NameEnd", "not the end of the expression without its parentheses: %s", shapeErr(fl("NameEnd")))
			continue
		}
		for _, n := range []string{"NeedPtr", "FieldAccess"} {
			if x := ref.flds[n]; x != nil {
				ref.flds[n] = boolAlt(shapeCond(x, true), shapeCond(x, false))
			}
		}
		shapes := []*shp{gs, fl("NameStart"), fl("NeedPtr"), fl("FieldAccess"), fl("Addr"), fl("File")}
		var rest []string
		for _, k := range atomsOf(shapes...) {
			switch {
			case k == kA || k == kS:
			case strings.HasPrefix(k, "is:"+typesPkg+".IsPointer("):
				kP = k
			case strings.HasPrefix(k, "is:is(") && strings.HasSuffix(k, ","+typesPkg+".Pointer)"):
				kI = k
			case k == "is:is("+x+",*go/ast.SelectorExpr)":
				kX = k
			default:
				rest = append(rest, k)
			}
		}
		if kP == "" || kI == "" || kX == "" || len(rest) > 12 {
			c.Viol("noted", at, shortFn(f), "whether the variable holds a pointer, is used by address or is selected from a package is not looked at")
			continue
		}
		rep := map[string]bool{}
		viol := func(f2 string, a ...interface{}) {
			if !rep[f2] {
				rep[f2] = true
				c.Viol("noted", at, shortFn(f), f2, a...)
			}
		}
		for m := 0; m < 32; m++ {
			A, S, P, I, X := m&1 == 0, m&2 == 0, m&4 != 0, m&8 != 0, m&16 != 0
			what := fmt.Sprintf("& before it: %v, of a field: %v, the variable holds a pointer: %v, its use needs the address: %v", !A, !S, P, I)
			c.Obl("noted", shortFn(f)+" "+what+fmt.Sprint(X))
			some := false
			for r := 0; r < 1<<uint(len(rest)); r++ {
				as := map[string]bool{kA: A, kS: S, kP: P, kI: I, kX: X}
				for i, k := range rest {
					as[k] = r>>uint(i)&1 == 1
				}
				if contradictory(as) {
					continue
				}
				in := newInst(as)
				if !in.holds(g) {
					continue
				}
				some = true
				start, need, field := in.text(fl("NameStart"), nil), in.text(fl("NeedPtr"), nil), in.text(fl("FieldAccess"), nil)
				addr, file := in.text(fl("Addr"), nil), in.text(fl("File"), nil)
				if in.err != "" {
					if !strings.HasPrefix(in.err, "!") {
						viol("%s", in.err)
					}
					continue
				}
				tf := func(s string) bool { return s == "true" }
				if tf(field) != (!A && !S) {
					viol("a reference is noted as a field's address: %s, where %s", field, what)
				}
				want := S
				if A {
					want = !P && I
				}
				if tf(need) != want {
					viol("a reference is noted as needing the address: %s, where %s", need, what)
				}
				if s := in.paths[start]; X && !isPosOf(s, x+".Sel") || !X && !isPosOf(s, x) {
					viol("the name's position is %s (selected from a package: %v)", shapeErr(s), X)
				}
				if in.paths[addr] != ptrTo("UnaryExpr") {
					viol("the & noted is %s", shapeErr(addr))
				}
				if s := in.paths[file]; !strings.HasSuffix(s, ".File.File") && !strings.HasSuffix(s, ".File") {
					viol("the file noted is not the one the reference is in: %s", shapeErr(s))
				}
			}
			if want := A || S || P; some != want {
				if some {
					viol("a reference is noted where %s: the address would be a copy's", what)
				} else {
					viol("a reference is never noted where %s", what)
				}
			}
		}
	}
}

// i03receiver: a method with a pointer receiver needs the address.
func (c *Ctx) i03receiver(p *Prog) {
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != resolvePkg {
			continue
		}
		cb := paramOfType(f, func(t types.Type) bool {
			s, ok := t.(*types.Signature)
			return ok && s.Params().Len() == 0 && s.Results().Len() == 0
		})
		visit := paramOfType(f, func(t types.Type) bool {
			s, ok := t.(*types.Signature)
			return ok && s.Params().Len() == 1 && s.Results().Len() == 0 && isNamed(s.Params().At(0).Type(), "go/ast", "Expr")
		})
		if cb != nil {
			c.i03callback(p, f, cb)
		}
		if visit != nil {
			c.i03nested(p, f, visit)
		}
	}
}

// i03callback: when the address is asked for.
func (c *Ctx) i03callback(p *Prog, f *ssa.Function, cb *ssa.Parameter) {
	sh := c.newShaper(p)
	sh.opaque = func(*ssa.Function) bool { return true }
	fr := sh.top(f)
	var calls []*ssa.Call
	eachInstr(f, func(ins ssa.Instruction) {
		if cl, ok := ins.(*ssa.Call); ok && cl.Call.Value == cb {
			calls = append(calls, cl)
		}
	})
	var g [][]gatom
	for _, cl := range calls {
		d, _ := sh.chainGuard(fr, nil, cl)
		g = append(g, d...)
	}
	if len(calls) == 0 {
		return
	}
	at := c.Pos(p, calls[0].Pos())
	c.Obl("receiver", at)
	gs := &shp{k: sAlt, alts: []galt{{g, lit("")}}}
	kR, kP := "", ""
	var rest []string
	for _, k := range atomsOf(gs) {
		switch {
		case strings.HasPrefix(k, "is:") && strings.HasSuffix(k, ".RecvPtr"):
			kR = k
		case strings.HasPrefix(k, "is:is(") && strings.HasSuffix(k, ","+typesPkg+".PtrType)"):
			kP = k
		case k == "nil:"+cb.Name():
		case !strings.HasPrefix(k, "nil:") && !strings.HasPrefix(k, "is:is("):
			c.Viol("receiver", at, shortFn(f), "whether the address is asked for depends on something else: %s", shapeErr(k))
			return
		default:
			rest = append(rest, k)
		}
	}
	if kR == "" || kP == "" || len(rest) > 12 {
		c.Viol("receiver", at, shortFn(f), "whether the method's receiver is a pointer, or the value already is one, is not looked at: %s", shapeErr(dnfString(g)))
		return
	}
	for m := 0; m < 4; m++ {
		R, P := m&1 != 0, m&2 != 0
		some := false
		for r := 0; r < 1<<uint(len(rest)); r++ {
			as := map[string]bool{kR: R, kP: P, "nil:" + cb.Name(): false}
			for i, k := range rest {
				as[k] = r>>uint(i)&1 == 1
			}
			if !contradictory(as) && newInst(as).holds(g) {
				some = true
			}
		}
		if want := R && !P; some != want {
			if want {
				c.Viol("receiver", at, shortFn(f), "a method with a pointer receiver called on a value does not ask for its address: the method would change a copy")
			} else {
				c.Viol("receiver", at, shortFn(f), "the address is asked for where the method has a pointer receiver: %v, the value is a pointer: %v", R, P)
			}
		}
	}
	// what asking does
	for _, h := range p.Funcs {
		if h.Pkg != f.Pkg {
			continue
		}
		eachInstr(h, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() != f {
				return
			}
			for _, a := range cl.Call.Args {
				mc, ok := a.(*ssa.MakeClosure)
				if !ok || !types.Identical(a.Type().Underlying(), cb.Type().Underlying()) {
					continue
				}
				c.i03asked(p, h, mc)
			}
		})
	}
	// passed on through other functions
	for _, h := range p.Funcs {
		if h.Pkg != f.Pkg || h == f {
			continue
		}
		eachInstr(h, func(ins ssa.Instruction) {
			cl, ok := ins.(*ssa.Call)
			if !ok {
				return
			}
			g := cl.Call.StaticCallee()
			if g == nil || g == f || g.Pkg != f.Pkg {
				return
			}
			for i, a := range cl.Call.Args {
				mc, ok := a.(*ssa.MakeClosure)
				if ok && i < len(g.Params) && types.Identical(g.Params[i].Type().Underlying(), cb.Type().Underlying()) && passesOn(g, g.Params[i], f) {
					c.i03asked(p, h, mc)
				}
			}
		})
	}
}

// passesOn: g hands its parameter to f.
func passesOn(g *ssa.Function, q *ssa.Parameter, f *ssa.Function) bool {
	ok := false
	eachInstr(g, func(ins ssa.Instruction) {
		cl, is := ins.(*ssa.Call)
		if !is || cl.Call.StaticCallee() != f {
			return
		}
		for _, a := range cl.Call.Args {
			if a == q {
				ok = true
			}
			if ph, is := a.(*ssa.Phi); is {
				for _, e := range ph.Edges {
					if e == q {
						ok = true
					}
				}
			}
		}
	})
	return ok
}

// i03asked: the expression a method is taken from is marked, and its parts.
func (c *Ctx) i03asked(p *Prog, h *ssa.Function, mc *ssa.MakeClosure) {
	at := c.Pos(p, mc.Pos())
	c.Obl("receiver", at)
	g := mc.Fn.(*ssa.Function)
	marks, base := false, false
	sh := c.newShaper(p)
	sh.opaque = func(*ssa.Function) bool { return true }
	hf := sh.top(h)
	n := sh.top(g)
	n.clo, n.cloFr = mc, hf
	eachInstr(g, func(ins ssa.Instruction) {
		cl, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		gd, _ := sh.chainGuard(n, nil, cl)
		for _, a := range cl.Call.Args {
			if m2, ok := a.(*ssa.MakeClosure); ok && i03marks(m2.Fn.(*ssa.Function)) {
				marks = len(gd) == 1 && len(gd[0]) == 0
			}
			if f2, ok := a.(*ssa.Function); ok && i03marks(f2) {
				marks = len(gd) == 1 && len(gd[0]) == 0
			}
			if strings.HasSuffix(sh.eval(a, n).String(), ".X") {
				base = true
			}
		}
	})
	if !marks || !base {
		c.Viol("receiver", at, shortFn(h), "the expression the method is taken from, and what it is part of, is not marked as needing its address")
	}
}

// i03marks: the function records expressions as pointers.
func i03marks(f *ssa.Function) bool {
	ok := false
	eachInstr(f, func(ins ssa.Instruction) {
		m, is := ins.(*ssa.MapUpdate)
		if !is {
			return
		}
		v := m.Value
		for {
			if x, is := v.(*ssa.MakeInterface); is {
				v = x.X
				continue
			}
			break
		}
		if isNamed(v.Type(), typesPkg, "Pointer") && len(f.Params) > 0 && m.Key == f.Params[len(f.Params)-1] {
			ok = true
		}
	})
	return ok
}

// i03nested: an expression's parts are visited.
func (c *Ctx) i03nested(p *Prog, f *ssa.Function, visit *ssa.Parameter) {
	at := c.Pos(p, f.Pos())
	ex := paramOfType(f, func(t types.Type) bool { return isNamed(t, "go/ast", "Expr") })
	rec := false
	type call struct {
		arg  string
		g    [][]gatom
		self bool
	}
	var calls []call
	if ex == nil {
		return
	}
	sh := c.newShaper(p)
	sh.opaque = func(*ssa.Function) bool { return true }
	fr := sh.top(f)
	eachInstr(f, func(ins ssa.Instruction) {
		cl, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		g, _ := sh.chainGuard(fr, nil, cl)
		switch {
		case cl.Call.Value == visit:
			calls = append(calls, call{sh.eval(cl.Call.Args[0], fr).String(), g, false})
		case cl.Call.StaticCallee() == f:
			rec = true
			for i, q := range f.Params {
				if q == ex {
					calls = append(calls, call{sh.eval(cl.Call.Args[i], fr).String(), g, true})
				}
			}
		}
	})
	if !rec {
		return
	}
	c.Obl("receiver", at)
	visited := func(kind, part string, self bool) bool {
		for _, x := range calls {
			if x.arg != part || self != x.self {
				continue
			}
			as := map[string]bool{}
			for _, k := range atomsOf(&shp{k: sAlt, alts: []galt{{x.g, lit("")}}}) {
				as[k] = kind != "" && k == "is:is("+ex.Name()+",*go/ast."+kind+")"
			}
			if newInst(as).holds(x.g) {
				return true
			}
		}
		return false
	}
	e := ex.Name()
	if !visited("", e, false) {
		c.Viol("receiver", at, shortFn(f), "the expression itself is not visited")
	}
	for _, w := range []struct {
		kind, part string
		self       bool
		what       string
	}{
		{"SelectorExpr", e + ".X", true, "what a field is selected from"},
		{"SelectorExpr", e + ".Sel", false, "the name selected from a package"},
		{"IndexExpr", e + ".X", true, "the array an element is taken from"},
		{"ParenExpr", e + ".X", true, "what is in parentheses"},
	} {
		if !visited(w.kind, w.part, w.self) {
			c.Viol("receiver", at, shortFn(f), "%s is not visited: a method would change a copy of it", w.what)
		}
	}
}

func isBuiltin(v ssa.Value, name string) bool {
	b, ok := v.(*ssa.Builtin)
	return ok && b.Name() == name
}
