package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The overlay: what xgo reads of a file is what the build will compile.

const ovPath = "github.com/xhd2015/xgo/instrument/overlay"

type ovModel struct {
	c *Ctx
	p *Prog
	// the flag telling that an entry holds content, and the one telling that
	// the file is removed (may be nil)
	flag, gone *types.Var
	key        *ssa.Function
}

func isOverlayMap(t types.Type) bool { return isNamed(t, ovPath, "Overlay") }

func (m *ovModel) entryField(v ssa.Value) *types.Var {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !ptrTo(fa.X.Type(), ovPath, "FileOverlay") {
		return nil
	}
	return fieldVar(fa.X.Type(), fa.Field)
}

func ptrTo(t types.Type, pkg, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(pt.Elem(), pkg, name)
}

func runO01(c *Ctx) {
	c.Rule("identity", "every access to an overlay uses the one identity of a file: its clean path with symbolic links resolved")
	c.Rule("entry", "an override replaces what was recorded for the file before, whatever its kind")
	c.Rule("read", "size and content of a file come from the same place: its overriding content, else the file it is redirected to, else itself; a removed file is absent")
	c.Rule("emit", "every entry reaches the overlay given to the go command: content is written out, under a directive naming the file, and mapped; a redirect is mapped")
	c.Rule("compose", "the overlay given to the go command applies xgo's mapping after the caller's, is followed to its end, and names every spelling the caller used")
	c.Rule("same", "what is read and instrumented is what the composed overlay says: both come from the one canonical mapping")
	c.Rule("order", "nothing depends on the order in which a map is ranged over")
	c.Rule("used", "the overlay composed is the one written and given to the go command")
	p := c.Root()
	m := &ovModel{c: c, p: p}
	m.roles()
	if m.flag == nil {
		c.Viol("entry", ovPath, "content flag", "no field of an overlay entry tells that it holds content")
		return
	}
	m.identity()
	m.entries()
	m.readers()
	m.emit()
	m.mapping()
	m.resolveFile()
	m.compose()
	m.parsed()
	m.used()
	c.Floor("identity", 3)
	c.Floor("read", 6)
	c.Floor("emit", 3)
	c.Floor("compose", 6)
}

// roles finds the fields by what the methods recording entries do.
func (m *ovModel) roles() {
	for _, f := range m.p.FuncsIn(func(path string) bool { return path == ovPath }) {
		byAlloc := map[ssa.Value][]*ssa.Store{}
		eachInstr(f, func(ins ssa.Instruction) {
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && ptrTo(fa.X.Type(), ovPath, "FileOverlay") {
					byAlloc[fa.X] = append(byAlloc[fa.X], st)
				}
			}
		})
		for _, l := range byAlloc {
			var flag *types.Var
			content := false
			for _, st := range l {
				fa := st.Addr.(*ssa.FieldAddr)
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv.Name() == "Content" {
					content = true
				}
				if k, ok := constBool(st.Val); ok && k {
					flag = fv
				}
			}
			if flag != nil && content {
				m.flag = flag
			} else if flag != nil {
				m.gone = flag
			}
		}
	}
}

// keyOf: the function whose result the key is.
func (m *ovModel) keyCall(v ssa.Value) *ssa.Function {
	var got *ssa.Function
	for _, o := range m.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		call, ok := o.Val.(*ssa.Call)
		if !ok {
			return nil
		}
		f := call.Common().StaticCallee()
		if f == nil || got != nil && got != f {
			return nil
		}
		got = f
	}
	return got
}

func (m *ovModel) identity() {
	c, p := m.c, m.p
	if g := p.Func(ovPath, "Overlay.Get"); g != nil {
		eachInstr(g, func(ins ssa.Instruction) {
			if l, ok := ins.(*ssa.Lookup); ok && isOverlayMap(l.X.Type()) {
				m.key = m.keyCall(l.Index)
			}
		})
	}
	if m.key == nil {
		c.Viol("identity", ovPath, "Get", "an entry is not looked up under an identity computed from the path")
		return
	}
	// the identity itself
	c.Obl("identity", shortFn(m.key))
	clean, eval := false, false
	paths, _ := enumPaths(m.key, 200)
	evalOK := func(cond ssa.Value, pol bool) bool {
		v, isnil, ok := nilTest(cond, pol)
		if !ok || !isnil {
			return false
		}
		e, ok := v.(*ssa.Extract)
		if !ok {
			return false
		}
		k, ok := e.Tuple.(*ssa.Call)
		return ok && calleeName(k) == "path/filepath.EvalSymlinks"
	}
	clean = len(paths) > 0
	for _, t := range paths {
		isClean := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Call)
			return ok && (calleeName(k) == "path/filepath.Clean" || calleeName(k) == "path/filepath.EvalSymlinks" || calleeName(k) == "path/filepath.Abs")
		}
		isEval := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Call)
			return ok && calleeName(k) == "path/filepath.EvalSymlinks"
		}
		if k, ok := constStr(t.resolve(t.ret.Results[0])); ok && k == "" {
			continue
		}
		if !t.derives(t.ret.Results[0], isClean) || !t.derives(t.ret.Results[0], func(v ssa.Value) bool { return v == ssa.Value(m.key.Params[0]) }) {
			clean = false
		}
		if t.knows(p, evalOK) {
			eval = true
			if !t.derives(t.ret.Results[0], isEval) {
				c.Viol("identity", c.Pos(p, m.key.Pos()), shortFn(m.key)+" links", "the identity of a file ignores the symbolic links on its path: two spellings of one file are two entries")
			}
		}
	}
	if !clean {
		c.Viol("identity", c.Pos(p, m.key.Pos()), shortFn(m.key)+" clean", "the identity of a file is not its clean path on every path")
	}
	if !eval {
		c.Viol("identity", c.Pos(p, m.key.Pos()), shortFn(m.key)+" links", "the identity of a file ignores the symbolic links on its path: two spellings of one file are two entries")
	}
	for _, f := range p.Funcs {
		if !isRepoFn(f) {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			var key ssa.Value
			switch x := ins.(type) {
			case *ssa.Lookup:
				if isOverlayMap(x.X.Type()) {
					key = x.Index
				}
			case *ssa.MapUpdate:
				if isOverlayMap(x.Map.Type()) {
					key = x.Key
				}
			case *ssa.Call:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" && isOverlayMap(x.Common().Args[0].Type()) {
					key = x.Common().Args[1]
				}
			}
			if key == nil {
				return
			}
			c.Obl("identity", shortFn(f))
			if m.entryKey(key) {
				return
			}
			if m.keyCall(key) != m.key {
				c.Viol("identity", c.Pos(p, ins.Pos()), shortFn(f)+" key", "an overlay entry is looked for or recorded under a path that is not the file's identity: another spelling of the path misses it")
			}
		})
	}
}

// entryKey: v is the key of an entry: one of the keys of the map, taken from
// it directly or from a list of them.
func (m *ovModel) entryKey(v ssa.Value) bool {
	if rangeKey(v) {
		return true
	}
	return directPath(v, func(x ssa.Value) bool {
		if rangeKey(x) {
			return true
		}
		ia := unloadElem(x)
		if ia == nil {
			return false
		}
		if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
			return false
		}
		if ok, _ := loopWhole(m.p, ia.Index, func(b *ssa.BasicBlock, i int) bool { return returnsError(b.Succs[i]) }); !ok {
			return false
		}
		var over ssa.Value
		eachInstr(x.Parent(), func(ins ssa.Instruction) {
			if rg, ok := ins.(*ssa.Range); ok && isOverlayMap(rg.X.Type()) {
				over = rg.X
			}
		})
		return over != nil && allKeys(m.p, x.Parent(), ia.X, over)
	})
}

// rangeKey: v is the key of a range over a map.
func rangeKey(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return false
	}
	_, ok = e.Tuple.(*ssa.Next)
	return ok
}

func (m *ovModel) entries() {
	c, p := m.c, m.p
	for _, name := range []string{"OverrideContent", "OverrideFile"} {
		f := p.Func(ovPath, "Overlay."+name)
		if f == nil {
			c.Viol("entry", ovPath, name, "Overlay.%s is gone", name)
			continue
		}
		paths, ok := enumPaths(f, 200)
		c.Obl("entry", name)
		if !ok || len(paths) == 0 {
			c.Viol("entry", c.Pos(p, f.Pos()), name, "too many paths")
			continue
		}
		for _, t := range paths {
			var ups []*ssa.MapUpdate
			t.each(func(ins ssa.Instruction) {
				if u, ok := ins.(*ssa.MapUpdate); ok && isOverlayMap(u.Map.Type()) {
					ups = append(ups, u)
				}
			})
			if len(ups) != 1 {
				c.Viol("entry", c.Pos(p, f.Pos()), name+" records", "an override is not recorded exactly once on every path")
				continue
			}
			u := ups[0]
			if k, ok := u.Key.(*ssa.Call); !ok || t.resolve(k.Common().Args[0]) != ssa.Value(f.Params[1]) {
				c.Viol("entry", c.Pos(p, u.Pos()), name+" file", "the override is not recorded for the file given")
			}
			al, ok := t.resolve(u.Value).(*ssa.Alloc)
			if !ok {
				c.Viol("entry", c.Pos(p, u.Pos()), name+" fresh", "the override is not a new entry: what was recorded before may stay in force")
				continue
			}
			got := map[*types.Var]ssa.Value{}
			t.each(func(ins ssa.Instruction) {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(al) {
						got[fieldVar(fa.X.Type(), fa.Field)] = st.Val
					}
				}
			})
			byName := func(n string) ssa.Value {
				for fv, v := range got {
					if fv.Name() == n {
						return t.resolve(v)
					}
				}
				return nil
			}
			set := func(fv *types.Var) bool {
				if fv == nil {
					return false
				}
				k, ok := constBool(got[fv])
				return ok && k
			}
			where := c.Pos(p, u.Pos())
			switch name {
			case "OverrideContent":
				if byName("Content") != ssa.Value(f.Params[2]) || !set(m.flag) || set(m.gone) {
					c.Viol("entry", where, name, "the content given is not what is recorded, or the entry does not say that it holds content")
				}
			case "OverrideFile":
				if set(m.flag) {
					c.Viol("entry", where, name, "a redirect is recorded as content")
				}
				empty := t.knows(p, func(cond ssa.Value, pol bool) bool { return emptyString(cond, pol, f.Params[2]) })
				if empty {
					if !set(m.gone) {
						c.Viol("entry", where, name+" removed", "an empty target is not recorded as a removed file")
					}
					continue
				}
				if !t.knows(p, func(cond ssa.Value, pol bool) bool {
					return nonEmptyString(cond, pol, func(v ssa.Value) bool { return sameLoad(v, f.Params[2]) })
				}) {
					c.Viol("entry", where, name+" removed", "an empty target is not recorded as a removed file")
				}
				to := byName("AbsFile")
				if to == nil || set(m.gone) || !t.derives(to, func(v ssa.Value) bool { return v == ssa.Value(f.Params[2]) }) {
					c.Viol("entry", where, name+" target", "the redirect does not lead to the target given")
				}
			}
		}
	}
}

// emptyString: the condition says that x is "".
func emptyString(cond ssa.Value, pol bool, x ssa.Value) bool {
	return emptyStringOf(cond, pol, func(v ssa.Value) bool { return sameLoad(v, x) })
}

func emptyStringOf(cond ssa.Value, pol bool, x func(ssa.Value) bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.Op == token.EQL) == pol {
		for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if s, ok := constStr(q[1]); ok && s == "" && x(q[0]) {
				return true
			}
		}
	}
	if l, op, k, ok := lenCompare(cond, pol); ok && impliesEmpty(op, k) && x(l) {
		return true
	}
	return false
}

func nonEmptyString(cond ssa.Value, pol bool, x func(ssa.Value) bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.Op == token.NEQ) == pol {
		for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if s, ok := constStr(q[1]); ok && s == "" && x(q[0]) {
				return true
			}
		}
	}
	if l, op, k, ok := lenCompare(cond, pol); ok && impliesNonEmpty(op, k) && x(l) {
		return true
	}
	return false
}

// sameLoad: equal values, or two reads of one field of one object.
func sameLoad(a, b ssa.Value) bool {
	for {
		if x, ok := a.(*ssa.ChangeType); ok {
			a = x.X
			continue
		}
		break
	}
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
		return false
	}
	fa, ok1 := la.X.(*ssa.FieldAddr)
	fb, ok2 := lb.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
}

func (m *ovModel) readers() {
	c, p := m.c, m.p
	n := 0
	for _, f := range p.FuncsIn(func(path string) bool { return path == ovPath }) {
		if f.Signature.Recv() == nil || !isOverlayMap(f.Signature.Recv().Type()) || len(f.Params) != 2 {
			continue
		}
		osCall := func(ins ssa.Instruction) (*ssa.Call, bool) {
			call, ok := ins.(*ssa.Call)
			if !ok {
				return nil, false
			}
			switch calleeName(call) {
			case "os.Stat", "os.Lstat", "os.ReadFile", "os.Open", "io/ioutil.ReadFile":
				return call, true
			}
			return nil, false
		}
		reads := false
		eachInstr(f, func(ins ssa.Instruction) {
			if _, ok := osCall(ins); ok {
				reads = true
			}
		})
		if !reads {
			continue
		}
		n++
		paths, ok := enumPaths(f, 500)
		if !ok {
			c.Viol("read", c.Pos(p, f.Pos()), shortFn(f), "too many paths")
			continue
		}
		field := func(fv *types.Var) func(ssa.Value) bool {
			return func(v ssa.Value) bool { return fv != nil && m.entryField(v) == fv }
		}
		byName := func(n string) func(ssa.Value) bool {
			return func(v ssa.Value) bool { fv := m.entryField(v); return fv != nil && fv.Name() == n }
		}
		bool2 := func(fv *types.Var, want bool) atomMatch {
			return func(cond ssa.Value, pol bool) bool { return field(fv)(cond) && pol == want }
		}
		noEntry := func(cond ssa.Value, pol bool) bool {
			v, isnil, ok := nilTest(cond, pol)
			if ok && isnil && ptrTo(v.Type(), ovPath, "FileOverlay") {
				return true
			}
			e, ok := cond.(*ssa.Extract)
			if !ok || pol || e.Index != 1 {
				return false
			}
			l, ok := e.Tuple.(*ssa.Lookup)
			return ok && isOverlayMap(l.X.Type())
		}
		isEntry := func(v ssa.Value) bool { return ptrTo(v.Type(), ovPath, "FileOverlay") }
		_ = isEntry
		for _, t := range paths {
			c.Obl("read", shortFn(f))
			where := c.Pos(p, t.ret.Pos())
			var calls []*ssa.Call
			t.each(func(ins ssa.Instruction) {
				if k, ok := osCall(ins); ok {
					calls = append(calls, k)
				}
				if fa, ok := ins.(*ssa.FieldAddr); ok && ptrTo(fa.X.Type(), ovPath, "FileOverlay") && t.knows(p, noEntry) {
					c.Viol("read", where, shortFn(f)+" nil", "the entry is looked into although there is none")
				}
				// the entry is that of the file asked for
				var key ssa.Value
				switch x := ins.(type) {
				case *ssa.Lookup:
					if isOverlayMap(x.X.Type()) {
						key = x.Index
						if k, ok := key.(*ssa.Call); ok && k.Common().StaticCallee() == m.key {
							key = k.Common().Args[0]
						}
					}
				case *ssa.Call:
					if g := x.Common().StaticCallee(); g != nil && fnPkgPath(g) == ovPath && g.Signature.Recv() != nil && isOverlayMap(g.Signature.Recv().Type()) && len(x.Common().Args) == 2 {
						key = x.Common().Args[1]
					}
				}
				if key != nil && t.resolve(key) != ssa.Value(f.Params[1]) {
					c.Viol("read", c.Pos(p, ins.Pos()), shortFn(f)+" entry", "the entry looked at is not that of the file asked for")
				}
			})
			last := t.resolve(t.ret.Results[len(t.ret.Results)-1])
			val := t.resolve(t.ret.Results[len(t.ret.Results)-2])
			has := t.knows(p, bool2(m.flag, true))
			gone := m.gone != nil && t.knows(p, bool2(m.gone, true))
			switch {
			case has && !gone:
				if len(calls) > 0 || !isNilConst(last) || !t.derives(val, byName("Content")) {
					c.Viol("read", where, shortFn(f)+" content", "the overriding content of a file is not what is answered")
				}
				continue
			case gone:
				if len(calls) > 0 || isNilConst(last) {
					c.Viol("read", where, shortFn(f)+" removed", "a removed file is still there")
				}
				continue
			}
			none := t.knows(p, noEntry)
			if !none && !t.knows(p, bool2(m.flag, false)) {
				c.Viol("read", where, shortFn(f)+" decided", "whether there is overriding content is not asked")
				continue
			}
			if !none && m.gone != nil && !t.knows(p, bool2(m.gone, false)) {
				c.Viol("read", where, shortFn(f)+" decided", "whether the file is removed is not asked")
				continue
			}
			if len(calls) == 0 {
				c.Viol("read", where, shortFn(f)+" nothing", "the file is answered for without being looked at")
				continue
			}
			for _, k := range calls {
				arg := k.Common().Args[0]
				own := t.derives(arg, func(v ssa.Value) bool { return v == ssa.Value(f.Params[1]) }) && !t.derives(arg, byName("AbsFile"))
				to := t.derives(arg, byName("AbsFile"))
				redirected := !none && t.knows(p, func(cond ssa.Value, pol bool) bool { return nonEmptyString(cond, pol, byName("AbsFile")) })
				plain := none || t.knows(p, func(cond ssa.Value, pol bool) bool { return emptyStringOf(cond, pol, byName("AbsFile")) })
				// an entry that holds no content is a redirect
				if !none && !plain && !redirected {
					redirected = true
				}
				if redirected && !to || plain && !own {
					c.Viol("read", c.Pos(p, k.Pos()), shortFn(f)+" place", "the file read is not the one the entry leads to")
				}
			}
			if isNilConst(last) && !t.derives(val, func(v ssa.Value) bool {
				k, ok := v.(*ssa.Call)
				if !ok {
					return false
				}
				_, is := osCall(k)
				return is
			}) {
				c.Viol("read", where, shortFn(f)+" value", "what is answered does not come from the file read")
			}
			if len(t.ret.Results) == 3 {
				if k, ok := constBool(t.resolve(t.ret.Results[0])); !ok || k {
					c.Viol("read", where, shortFn(f)+" hit", "a file that was read counts as overriding content")
				}
			}
		}
	}
	if n < 2 {
		c.Viol("read", ovPath, "readers", "the methods reading through the overlay were not found (%d)", n)
	}
}

func (m *ovModel) emit() {
	c, p := m.c, m.p
	f := p.Func(ovPath, "Overlay.MakeGoOverlay")
	if f == nil {
		c.Viol("emit", ovPath, "MakeGoOverlay", "Overlay.MakeGoOverlay is gone")
		return
	}
	isFlag := func(cond ssa.Value, pol bool) bool { return m.entryField(cond) == m.flag && pol }
	noFlag := func(cond ssa.Value, pol bool) bool { return m.entryField(cond) == m.flag && !pol }
	noTarget := func(cond ssa.Value, pol bool) bool {
		return emptyStringOf(cond, pol, func(v ssa.Value) bool {
			fv := m.entryField(v)
			return fv != nil && fv.Name() == "AbsFile"
		})
	}
	goneM := func(cond ssa.Value, pol bool) bool { return m.gone != nil && m.entryField(cond) == m.gone && pol }
	var ups []*ssa.MapUpdate
	var writes []*ssa.Call
	eachInstr(f, func(ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.MapUpdate:
			if isNamed(x.Map.Type(), ovPath, "Replace") {
				ups = append(ups, x)
			}
		case *ssa.Call:
			if n := calleeName(x); n == "os.WriteFile" || n == "io/ioutil.WriteFile" {
				writes = append(writes, x)
			}
		}
	})
	isUp := func(b *ssa.BasicBlock) bool {
		for _, u := range ups {
			if u.Block() == b {
				return true
			}
		}
		return false
	}
	if len(ups) == 0 {
		c.Viol("emit", c.Pos(p, f.Pos()), "mapped", "no entry is mapped")
		return
	}
	// a way round all of them
	h := loopOf(ups[0].Block())
	c.Obl("emit", "every entry")
	if h == nil {
		c.Viol("emit", c.Pos(p, f.Pos()), "loop", "the entries are not gone through")
		return
	}
	if mapLoopLeft(p, h) {
		c.Viol("emit", c.Pos(p, f.Pos()), "all", "entries can be left out: the loop over them can end early")
	}
	if skipsAll(h, isUp, func(b *ssa.BasicBlock, i int) bool {
		iff, ok := lastIf(b)
		return ok && (p.implies(iff.Cond, i == 0, noTarget, 0) && p.blockGuarded(b, noFlag, 0) || p.implies(iff.Cond, i == 0, goneM, 0))
	}) {
		c.Viol("emit", c.Pos(p, ups[0].Pos()), "all", "an entry can be left out of the overlay")
	}
	fromKey := func(v ssa.Value) bool {
		return mentions(v, m.entryKey, nil)
	}
	for _, u := range ups {
		where := c.Pos(p, u.Pos())
		c.Obl("emit", "mapping")
		if !m.entryKey(u.Key) {
			c.Viol("emit", where, "key", "the mapping's source is not the file the entry is for")
		}
		content := p.Guarded(u, isFlag)
		redirect := p.Guarded(u, noFlag)
		switch {
		case content:
			// the same file as written, before
			okW := false
			for _, w := range writes {
				if dominatesIns(w, u) && sameOrigin(u.Value, w.Common().Args[0]) {
					okW = true
					m.written(f, w, isFlag, fromKey)
				}
			}
			if !okW {
				c.Viol("emit", where, "written", "the file mapped to is not the one the content was written to")
			}
		case redirect:
			if !directPath(u.Value, func(v ssa.Value) bool { fv := m.entryField(v); return fv != nil && fv.Name() == "AbsFile" }) {
				c.Viol("emit", where, "redirect", "a redirect is not mapped to its target")
			}
		default:
			c.Viol("emit", where, "kind", "an entry is mapped without asking whether it holds content")
		}
	}
}

// written: what is written for an entry holding content.
func (m *ovModel) written(f *ssa.Function, w *ssa.Call, isFlag atomMatch, fromKey func(ssa.Value) bool) {
	c, p := m.c, m.p
	where := c.Pos(p, w.Pos())
	c.Obl("emit", "content")
	isContent := func(v ssa.Value) bool { fv := m.entryField(v); return fv != nil && fv.Name() == "Content" }
	noDirective := func(cond ssa.Value, pol bool) bool { return pol && fieldNamed(cond, "NoLineDirective") }
	var check func(v ssa.Value, at *ssa.BasicBlock, d int)
	check = func(v ssa.Value, at *ssa.BasicBlock, d int) {
		switch x := v.(type) {
		case *ssa.Convert:
			check(x.X, at, d+1)
			return
		case *ssa.ChangeType:
			check(x.X, at, d+1)
			return
		case *ssa.Phi:
			if d < 6 {
				for i, e := range x.Edges {
					if isContent(e) {
						// the plain content: only when no directive is wanted
						pred := x.Block().Preds[i]
						if !p.edgeGuarded(pred, x.Block(), noDirective, 0) {
							c.Viol("emit", where, "directive", "content is written without the directive naming the original file: positions point into a generated file")
						}
						continue
					}
					check(e, x.Block().Preds[i], d+1)
				}
			}
			return
		case *ssa.BinOp:
			if x.Op == token.ADD {
				parts := catParts(v)
				// directive, newline, content
				if len(parts) >= 3 && isContent(parts[len(parts)-1]) {
					dir, ok := parts[0].(*ssa.Call)
					nl, _ := constStr(parts[1])
					line := int64(-1)
					if ok && len(dir.Common().Args) == 2 {
						line, _ = constInt(dir.Common().Args[1])
					}
					if ok && len(parts) == 3 && nl == "\n" && line == 1 && len(dir.Common().Args) > 0 && m.entryKey(dir.Common().Args[0]) {
						return
					}
				}
			}
		}
		if isContent(v) {
			if !p.blockGuarded(at, noDirective, 0) {
				c.Viol("emit", where, "directive", "content is written without the directive naming the original file: positions point into a generated file")
			}
			return
		}
		c.Viol("emit", where, "content", "what is written is not the entry's content, preceded by a directive that its first line is line 1 of the original file")
	}
	check(w.Common().Args[1], w.Block(), 0)
}

func catParts(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(catParts(b.X), catParts(b.Y)...)
	}
	return []ssa.Value{v}
}

// directPath: v is a value m accepts, converted or with its slashes turned.
func directPath(v ssa.Value, m func(ssa.Value) bool) bool {
	for d := 0; d < 10; d++ {
		if m(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Call:
			n := calleeName(x)
			if n != "path/filepath.ToSlash" && n != "path/filepath.FromSlash" && n != "path/filepath.Clean" {
				return false
			}
			v = x.Common().Args[0]
		default:
			return false
		}
	}
	return false
}

// sameOrigin: a is b, converted or with its slashes turned.
func sameOrigin(a, b ssa.Value) bool {
	return directPath(a, func(v ssa.Value) bool { return v == b })
}

func mentions(v ssa.Value, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if v == nil || seen[v] || len(seen) > 200 {
		return false
	}
	seen[v] = true
	if is(v) {
		return true
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && mentions(*op, is, seen) {
			return true
		}
	}
	return false
}

// mapLoopLeft: the loop with header h can be left before its end, other than
// by returning an error or panicking.
func mapLoopLeft(p *Prog, h *ssa.BasicBlock) bool {
	for _, b := range h.Parent().Blocks {
		if b == h || !inLoop(b, h) {
			continue
		}
		for _, s := range b.Succs {
			if inLoop(s, h) || endsInPanic(s) || returnsError(s) {
				continue
			}
			return true
		}
	}
	return false
}

// returnsError: the block only returns, an error that is not nil.
func returnsError(b *ssa.BasicBlock) bool {
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	return isErrorType(last.Type()) && !isNilConst(last)
}

// skipsAll: an iteration can complete without passing a block stop accepts,
// other than by edges excused accepts.
func skipsAll(h *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool, excused func(*ssa.BasicBlock, int) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{h}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || stop(x) {
			continue
		}
		seen[x] = true
		for i, s := range x.Succs {
			if !inLoop(s, h) || excused(x, i) {
				continue
			}
			if s == h {
				return true
			}
			st = append(st, s)
		}
	}
	return false
}

func (m *ovModel) compose() {
	c, p := m.c, m.p
	f := p.Func(ovPath, "ComposeGoOverlays")
	if f == nil {
		c.Viol("compose", ovPath, "ComposeGoOverlays", "ComposeGoOverlays is gone")
		return
	}
	isReplace := func(t types.Type) bool { return isNamed(t, ovPath, "Replace") }
	// the combined map, filled from the caller's and then from the generated
	var fromCaller, fromGen []*ssa.MapUpdate
	caller, gen := f.Params[0], f.Params[1]
	source := func(u *ssa.MapUpdate) *ssa.Parameter {
		e, ok := u.Key.(*ssa.Extract)
		if !ok {
			return nil
		}
		nx, ok := e.Tuple.(*ssa.Next)
		if !ok {
			return nil
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok {
			return nil
		}
		v, ok2 := u.Value.(*ssa.Extract)
		if !ok2 || v.Tuple != e.Tuple || v.Index != 2 || e.Index != 1 {
			return nil
		}
		call, ok := rg.X.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().Name() != "CanonicalReplace" {
			return nil
		}
		for _, o := range p.Origins(call.Common().Args[0], originOpts{noCalls: true, noParams: true}) {
			if o.Val == ssa.Value(caller) {
				return caller
			}
			k, ok := o.Val.(*ssa.Call)
			if ok && k.Common().StaticCallee() != nil && k.Common().StaticCallee().Name() == "ParseGoOverlay" {
				for _, q := range p.Origins(k.Common().Args[0], originOpts{noCalls: true, noParams: true}) {
					if q.Val == ssa.Value(gen) {
						return gen
					}
				}
			}
		}
		return nil
	}
	var combined ssa.Value
	eachInstr(f, func(ins ssa.Instruction) {
		u, ok := ins.(*ssa.MapUpdate)
		if !ok || !isReplace(u.Map.Type()) {
			return
		}
		switch source(u) {
		case caller:
			fromCaller = append(fromCaller, u)
		case gen:
			fromGen = append(fromGen, u)
		default:
			c.Viol("compose", c.Pos(p, u.Pos()), "filled", "a mapping is added that is neither the caller's nor xgo's canonical one")
			return
		}
		combined = u.Map
	})
	c.Obl("compose", "caller's mappings")
	c.Obl("compose", "generated mappings")
	if len(fromCaller) == 0 || len(fromGen) == 0 {
		c.Viol("compose", c.Pos(p, f.Pos()), "both", "the caller's mappings or xgo's own do not reach the composed overlay")
		return
	}
	for _, l := range [][]*ssa.MapUpdate{fromCaller, fromGen} {
		for _, u := range l {
			if mapLoopLeftEarly(u) || skipsIteration(u) {
				c.Viol("compose", c.Pos(p, u.Pos()), "all", "a mapping can be left out")
			}
			if !sameMap(p, u.Map, combined) {
				c.Viol("compose", c.Pos(p, u.Pos()), "one map", "the mappings are not collected in one map")
			}
		}
	}
	for _, a := range fromGen {
		for _, b := range fromCaller {
			if mayFollow(a, b) || !mayFollow(b, a) {
				c.Viol("compose", c.Pos(p, b.Pos()), "precedence", "the caller's mapping of a file supersedes xgo's: the uninstrumented file would be built")
			}
		}
	}
	// only a missing overlay leaves them out
	for _, u := range append(append([]*ssa.MapUpdate{}, fromCaller...), fromGen...) {
		h := loopOf(u.Block())
		par := source(u)
		if h == nil || blockBypassed(p, f, h, func(cond ssa.Value, pol bool) bool {
			v, isnil, ok := nilTest(cond, pol)
			return ok && isnil && v == ssa.Value(par)
		}) {
			c.Viol("compose", c.Pos(p, u.Pos()), "conditional", "mappings are left out on a condition other than that there are none")
		}
	}
	m.resolve(f, combined)
	m.project()
}

// sameMap: both come from one make.
func sameMap(p *Prog, a, b ssa.Value) bool {
	if a == b {
		return true
	}
	om := func(v ssa.Value) ssa.Value {
		var got ssa.Value
		for _, o := range p.Origins(v, originOpts{keep: func(v ssa.Value) bool { _, ok := v.(*ssa.MakeMap); return ok }}) {
			if got != nil && got != o.Val {
				return nil
			}
			got = o.Val
		}
		return got
	}
	x := om(a)
	return x != nil && x == om(b)
}

// blockBypassed: a return without error is reachable without passing h, other
// than by edges m accepts.
func blockBypassed(p *Prog, f *ssa.Function, h *ssa.BasicBlock, m atomMatch) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x == h {
			continue
		}
		seen[x] = true
		if r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) > 0 && isNilConst(r.Results[len(r.Results)-1]) {
				return true
			}
		}
		for i, s := range x.Succs {
			if iff, ok := lastIf(x); ok && p.implies(iff.Cond, i == 0, m, 0) {
				continue
			}
			st = append(st, s)
		}
	}
	return false
}

// resolve: the function following a mapping to its end.
func (m *ovModel) resolve(f *ssa.Function, combined ssa.Value) {
	c, p := m.c, m.p
	var r *ssa.Function
	for _, g := range p.FuncsIn(func(path string) bool { return path == ovPath }) {
		// it calls itself, and looks into the combined map
		looks, self := false, false
		eachInstr(g, func(ins ssa.Instruction) {
			if l, ok := ins.(*ssa.Lookup); ok && l.CommaOk && sameMap(p, l.X, combined) {
				looks = true
			}
			if call, ok := ins.(*ssa.Call); ok {
				for _, h := range p.Callees(call) {
					self = self || h == g
				}
			}
		})
		if looks && self {
			r = g
		}
	}
	c.Obl("compose", "followed to the end")
	if r == nil {
		c.Viol("compose", c.Pos(p, f.Pos()), "transitive", "a mapping is not followed to its end: the go command does not do so itself")
		return
	}
	paths, ok := enumPaths(r, 500)
	if !ok {
		c.Viol("compose", c.Pos(p, r.Pos()), "paths", "too many paths")
		return
	}
	var src ssa.Value
	for _, q := range r.Params {
		if isNamed(q.Type(), ovPath, "AbsFile") {
			src = q
			break
		}
	}
	lookup := func(v ssa.Value, i int) *ssa.Lookup {
		e, ok := v.(*ssa.Extract)
		if !ok || e.Index != i {
			return nil
		}
		l, _ := e.Tuple.(*ssa.Lookup)
		return l
	}
	isComb := func(l *ssa.Lookup) bool { return l != nil && l.Index == src && sameMap(p, l.X, combined) }
	// the maps of results and of the sources being followed
	isMemo := func(l *ssa.Lookup) bool {
		return l != nil && l.Index == src && isNamed(l.X.Type(), ovPath, "Replace") && !sameMap(p, l.X, combined)
	}
	boolMap := func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		if st, ok := mt.Elem().Underlying().(*types.Struct); ok {
			return st.NumFields() == 0
		}
		return isBoolT(mt.Elem())
	}
	guard := false
	for _, t := range paths {
		where := c.Pos(p, t.ret.Pos())
		v, err := t.resolve(t.ret.Results[0]), t.resolve(t.ret.Results[1])
		c.Obl("compose", "path of "+shortFn(r))
		var rec *ssa.Call
		var marks, unmarks, memo []ssa.Instruction
		t.each(func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Call:
				for _, h := range p.Callees(x) {
					if h == r {
						rec = x
					}
				}
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" && boolMap(x.Common().Args[0].Type()) && x.Common().Args[1] == src {
					unmarks = append(unmarks, x)
				}
			case *ssa.MapUpdate:
				if boolMap(x.Map.Type()) && x.Key == src {
					if k, ok := constBool(x.Value); ok && !k {
						unmarks = append(unmarks, x)
					} else {
						marks = append(marks, x)
					}
				} else if isNamed(x.Map.Type(), ovPath, "Replace") {
					memo = append(memo, x)
					e, ok := t.resolve(x.Value).(*ssa.Extract)
					if x.Key != src || !ok || e.Index != 0 || rec == nil || e.Tuple != ssa.Value(rec) || sameMap(p, x.Map, combined) {
						c.Viol("compose", c.Pos(p, x.Pos()), "result", "what is recorded for a file is not where its mapping ends")
					}
				}
			}
		})
		onWay := t.knows(p, func(cond ssa.Value, pol bool) bool {
			if l, ok := cond.(*ssa.Lookup); ok && pol {
				return boolMap(l.X.Type()) && l.Index == src
			}
			l := lookup(cond, 1)
			return l != nil && pol && boolMap(l.X.Type()) && l.Index == src
		})
		notOnWay := t.knows(p, func(cond ssa.Value, pol bool) bool {
			if l, ok := cond.(*ssa.Lookup); ok && !pol {
				return boolMap(l.X.Type()) && l.Index == src
			}
			l := lookup(cond, 1)
			return l != nil && !pol && boolMap(l.X.Type()) && l.Index == src
		})
		if onWay {
			guard = true
			if isNilConst(err) {
				c.Viol("compose", where, "cycle", "a cycle of mappings is not refused")
			}
			continue
		}
		if rec != nil {
			if !notOnWay || len(marks) == 0 {
				c.Viol("compose", c.Pos(p, rec.Pos()), "guard", "a mapping is followed without noting that it is being followed: a cycle never ends")
			} else {
				before := false
				for _, k := range marks {
					before = before || dominatesIns(k, rec)
				}
				if !before {
					c.Viol("compose", c.Pos(p, rec.Pos()), "guard", "a mapping is followed without noting that it is being followed: a cycle never ends")
				}
			}
			arg := ssa.Value(nil)
			for i, a := range rec.Common().Args {
				if isNamed(a.Type(), ovPath, "AbsFile") {
					arg = rec.Common().Args[i]
				}
			}
			if arg == nil || !isComb(lookup(t.resolve(arg), 0)) {
				c.Viol("compose", c.Pos(p, rec.Pos()), "step", "a mapping is not followed from its target")
			}
			_ = unmarks
		}
		if !isNilConst(err) {
			continue
		}
		switch {
		case rec != nil:
			e, ok := v.(*ssa.Extract)
			if !ok || e.Tuple != ssa.Value(rec) || e.Index != 0 {
				c.Viol("compose", where, "end", "the answer is not where the mapping ends")
			}
			if len(memo) == 0 {
				c.Viol("compose", where, "recorded", "where a mapping ends is not recorded in the result")
			}
		case t.knows(p, func(cond ssa.Value, pol bool) bool { return !pol && isComb(lookup(cond, 1)) }):
			if v != src {
				c.Viol("compose", where, "unmapped", "a file without a mapping does not stand for itself")
			}
		case t.knows(p, func(cond ssa.Value, pol bool) bool { return pol && isMemo(lookup(cond, 1)) }):
			if !isMemo(lookup(v, 0)) {
				c.Viol("compose", where, "memo", "a mapping already followed is answered differently")
			}
		default:
			c.Viol("compose", where, "case", "an answer is given that follows neither from a mapping nor from there being none")
		}
	}
	if !guard {
		c.Viol("compose", c.Pos(p, r.Pos()), "cycle", "a cycle of mappings is not refused")
	}
	// every mapping is followed
	c.Obl("compose", "every mapping is followed")
	done := false
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		is := false
		for _, h := range p.Callees(call) {
			is = is || h == r
		}
		if !is || f == r {
			return
		}
		h := loopOf(ins.Block())
		if h == nil || skipsIteration(ins) || mapLoopLeft(p, h) {
			return
		}
		var arg ssa.Value
		for _, a := range call.Common().Args {
			if isNamed(a.Type(), ovPath, "AbsFile") {
				arg = a
				break
			}
		}
		if arg == nil {
			return
		}
		if rangeKey(arg) && sameMap(p, arg.(*ssa.Extract).Tuple.(*ssa.Next).Iter.(*ssa.Range).X, combined) {
			done = true
			return
		}
		// over a list of all the keys
		var ia *ssa.IndexAddr
		directPath(arg, func(v ssa.Value) bool { ia = unloadElem(v); return ia != nil })
		if ia == nil {
			return
		}
		if ok, _ := loopWhole(p, ia.Index, func(b *ssa.BasicBlock, i int) bool { return returnsError(b.Succs[i]) }); ok {
			if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
				return
			}
			done = allKeys(p, f, ia.X, combined)
		}
	})
	if !done {
		c.Viol("compose", c.Pos(p, f.Pos()), "every mapping", "not every mapping is followed to its end")
	}
}

// allKeys: the list is made of every key of the map.
func allKeys(p *Prog, f *ssa.Function, list, m ssa.Value) bool {
	ok := false
	eachInstr(f, func(ins ssa.Instruction) {
		call, is := isBuiltinCall(ins, "append")
		if !is || !types.Identical(call.Common().Args[0].Type(), list.Type()) {
			return
		}
		for _, v := range variadicArgs(call.Common().Args[1]) {
			var e ssa.Value
			directPath(v, func(x ssa.Value) bool {
				if rangeKey(x) {
					e = x
				}
				return e != nil
			})
			if e == nil {
				continue
			}
			rg := e.(*ssa.Extract).Tuple.(*ssa.Next).Iter.(*ssa.Range)
			if sameMap(p, rg.X, m) && !skipsIteration(ins) && !mapLoopLeftEarly(ins) {
				ok = true
			}
		}
	})
	return ok
}

func (m *ovModel) project() {
	c, p := m.c, m.p
	f := p.Func(ovPath, "ParsedOverlay.ProjectOntoCallerSources")
	if f == nil {
		c.Viol("compose", ovPath, "ProjectOntoCallerSources", "ProjectOntoCallerSources is gone")
		return
	}
	c.Obl("compose", "caller's spellings")
	good := false
	eachInstr(f, func(ins ssa.Instruction) {
		u, ok := ins.(*ssa.MapUpdate)
		if !ok || !isNamed(u.Map.Type(), ovPath, "Replace") {
			return
		}
		e, ok := u.Value.(*ssa.Extract)
		if !ok {
			return
		}
		l, ok := e.Tuple.(*ssa.Lookup)
		if !ok || !fieldNamed(u.Key, "SourceResolved") || !fieldNamed(l.Index, "SourceCanonical") {
			return
		}
		absent := func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.Extract)
			return ok && !pol && x.Tuple == e.Tuple && x.Index == 1
		}
		if skipsIterationUnless(u, func(b *ssa.BasicBlock, i int) bool {
			iff, ok := lastIf(b)
			return ok && p.implies(iff.Cond, i == 0, absent, 0)
		}) {
			return
		}
		h := loopOf(u.Block())
		if h == nil {
			return
		}
		if idx, _ := wholeIndex(p, h); idx == nil {
			return
		}
		good = true
	})
	if !good {
		c.Viol("compose", c.Pos(p, f.Pos()), "spellings", "a spelling the caller used is not mapped to where the file's mapping ends")
	}
}

// parsed: the one canonical mapping.
func (m *ovModel) parsed() {
	c, p := m.c, m.p
	canon := p.Func(ovPath, "ParsedOverlay.CanonicalReplace")
	apply := p.Func(ovPath, "ParsedOverlay.ApplyFileRedirects")
	if canon == nil || apply == nil {
		c.Viol("same", ovPath, "methods", "CanonicalReplace or ApplyFileRedirects is gone")
		return
	}
	c.Obl("same", "redirects")
	good := false
	why := "the redirects registered are not the canonical mapping that is composed: with several spellings of one file they can differ"
	eachInstr(apply, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().Name() != "OverrideFile" {
			return
		}
		a := call.Common().Args
		k, ok := a[1].(*ssa.Extract)
		v, ok2 := a[2].(*ssa.Extract)
		if !ok || !ok2 || k.Tuple != v.Tuple || k.Index != 1 || v.Index != 2 {
			return
		}
		nx, ok := k.Tuple.(*ssa.Next)
		if !ok {
			return
		}
		src, ok := nx.Iter.(*ssa.Range).X.(*ssa.Call)
		if !ok || src.Common().StaticCallee() != canon {
			return
		}
		if skipsIteration(ins) || mapLoopLeftEarly(ins) {
			why = "a redirect of the caller's is left out"
			return
		}
		good = true
	})
	if !good {
		c.Viol("same", c.Pos(p, apply.Pos()), "redirects", "%s", why)
	}
	// the canonical mapping maps canonical sources to canonical targets
	c.Obl("same", "canonical")
	eachInstr(canon, func(ins ssa.Instruction) {
		u, ok := ins.(*ssa.MapUpdate)
		if !ok {
			return
		}
		if !fieldNamed(u.Key, "SourceCanonical") || !fieldNamed(u.Value, "TargetCanonical") {
			c.Viol("same", c.Pos(p, u.Pos()), "canonical", "the canonical mapping does not map canonical sources to canonical targets")
		}
		exists := func(cond ssa.Value, pol bool) bool {
			x, ok := cond.(*ssa.Extract)
			if !ok || !pol || x.Index != 1 {
				return false
			}
			_, ok = x.Tuple.(*ssa.Lookup)
			return ok
		}
		if skipsIterationUnless(u, func(b *ssa.BasicBlock, i int) bool {
			iff, ok := lastIf(b)
			return ok && p.implies(iff.Cond, i == 0, exists, 0) || ok && p.blockGuarded(b, exists, 0)
		}) {
			c.Viol("same", c.Pos(p, u.Pos()), "left out", "a mapping of the caller's can be left out although its file has none yet")
		}
		if h := loopOf(u.Block()); h != nil {
			if idx, _ := wholeIndex(p, h); idx == nil {
				c.Viol("same", c.Pos(p, u.Pos()), "all", "not every mapping of the caller's is looked at")
			}
		}
	})
	// parsing: a list made by ranging over a map has an order of its own
	f := p.Func(ovPath, "ParseGoOverlay")
	if f == nil {
		c.Viol("same", ovPath, "ParseGoOverlay", "ParseGoOverlay is gone")
		return
	}
	c.Obl("order", "entries")
	var app ssa.Instruction
	eachInstr(f, func(ins ssa.Instruction) {
		if call, ok := isBuiltinCall(ins, "append"); ok && fieldOrVarOf(call.Common().Args[0].Type(), "OverlayEntry") {
			app = ins
		}
	})
	if app == nil || skipsIteration(app) || mapLoopLeftEarly(app) {
		c.Viol("same", c.Pos(p, f.Pos()), "entries", "a mapping of the caller's can be left out when its overlay is read")
		return
	}
	// sorted by what tells them apart: the key of the map
	keys := map[string]bool{}
	eachInstr(f, func(ins ssa.Instruction) {
		if st, ok := ins.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && ptrTo(fa.X.Type(), ovPath, "OverlayEntry") && rangeKey(st.Val) {
				keys[fieldVar(fa.X.Type(), fa.Field).Name()] = true
			}
		}
	})
	sorted := func(i ssa.Instruction) bool {
		call, ok := isCallTo(i, "sort.Slice", "sort.SliceStable", "sort.Sort", "slices.SortFunc")
		if !ok || call == nil {
			return false
		}
		if n := len(call.Common().Args); n == 2 {
			uses := false
			for _, o := range p.FuncValues(call.Common().Args[1]) {
				eachInstr(o, func(i ssa.Instruction) {
					if v, ok := i.(ssa.Value); ok {
						for k := range keys {
							if fieldNamed(v, k) {
								uses = true
							}
						}
					}
				})
			}
			return uses
		}
		return true
	}
	for _, r := range returnsOf(f) {
		if mayFollow(app, r) && !isNilConst(r.Results[0]) && !alwaysBefore(r, sorted) {
			inRange := false
			if h := loopOf(app.Block()); h != nil {
				for _, i := range h.Instrs {
					if _, ok := i.(*ssa.Next); ok {
						inRange = true
					}
				}
			}
			if inRange {
				c.Viol("order", c.Pos(p, app.Pos()), "entries", "the entries are in the random order of a map: which of several spellings of one file wins differs from run to run")
			}
		}
	}
	// each field of an entry is what it says
	want := map[string]struct {
		from string
		eval bool
	}{"SourceResolved": {"source", false}, "SourceCanonical": {"source", true}, "TargetResolved": {"target", false}, "TargetCanonical": {"target", true}}
	eachInstr(f, func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !ptrTo(fa.X.Type(), ovPath, "OverlayEntry") {
			return
		}
		n := fieldVar(fa.X.Type(), fa.Field).Name()
		c.Obl("same", "entry "+n)
		idx := 1
		w, ok := want[n]
		if ok && w.from == "target" {
			idx = 2
		}
		isSrc := func(v ssa.Value) bool {
			// what another field, checked likewise, was made of
			if idx == 1 && fieldNamed(v, "SourceResolved") || idx == 2 && fieldNamed(v, "TargetResolved") {
				return n != "SourceResolved" && n != "TargetResolved"
			}
			e, ok := v.(*ssa.Extract)
			if !ok || e.Index != idx {
				return false
			}
			_, ok = e.Tuple.(*ssa.Next)
			return ok
		}
		if !mentions(st.Val, isSrc, nil) {
			c.Viol("same", c.Pos(p, st.Pos()), "entry "+n, "%s of an entry is not made from the %s", n, w.from)
			return
		}
		if ok {
			if e := evaluates(p, st.Val); e != w.eval {
				c.Viol("same", c.Pos(p, st.Pos()), "entry "+n, "%s of an entry: symbolic links are resolved or not, the other way round", n)
			}
		}
	})
}

func fieldOrVarOf(t types.Type, name string) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), ovPath, name)
}

// evaluates: symbolic links are resolved on the way to v.
func evaluates(p *Prog, v ssa.Value) bool {
	return mentions(v, func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if calleeName(call) == "path/filepath.EvalSymlinks" {
			return true
		}
		g := call.Common().StaticCallee()
		if g == nil || !isRepoFn(g) {
			return false
		}
		yes := false
		for h := range p.Reach([]*ssa.Function{g}, func(h *ssa.Function) bool { return !isRepoFn(h) }) {
			if isRepoFn(h) {
				eachInstr(h, func(i ssa.Instruction) {
					if _, ok := isCallTo(i, "path/filepath.EvalSymlinks"); ok {
						yes = true
					}
				})
			}
		}
		return yes
	}, nil)
}

// mapping: a directory is mapped with what is below it, and nothing else.
func (m *ovModel) mapping() {
	c, p := m.c, m.p
	for _, f := range p.FuncsIn(func(path string) bool { return path == ovPath }) {
		is := false
		eachInstr(f, func(ins ssa.Instruction) {
			if _, ok := isCallTo(ins, "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix"); ok {
				is = true
			}
		})
		if !is || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		paths, ok := enumPaths(f, 200)
		c.Obl("emit", shortFn(f)+" prefix")
		if !ok {
			c.Viol("emit", c.Pos(p, f.Pos()), shortFn(f), "too many paths")
			continue
		}
		// the prefix with a separator at its end, or the separator looked at
		sep := func(v ssa.Value) bool {
			if s, ok := constStr(v); ok && len(s) > 0 {
				return s[len(s)-1] == '/'
			}
			return false
		}
		bounded := func(t *ptrace) bool {
			return t.knows(p, func(cond ssa.Value, pol bool) bool {
				if k, ok := cond.(*ssa.Call); ok && pol && calleeName(k) == "strings.HasPrefix" {
					return mentions(k.Common().Args[1], sep, nil)
				}
				b, ok := cond.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != pol {
					return false
				}
				for _, q := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					// the byte after the prefix is the separator
					if k, ok := constInt(q[0]); ok && (k == '/' || k == '\\') {
						switch q[1].(type) {
						case *ssa.Lookup, *ssa.Index:
							return true
						}
					}
				}
				// the whole path
				if isStringType(b.X.Type()) && !isConstV(b.X) && !isConstV(b.Y) {
					return true
				}
				lx, ly := lenArg(b.X), lenArg(b.Y)
				return lx != nil && ly != nil && lx != ly && isStringType(lx.Type())
			})
		}
		for _, t := range paths {
			v := t.resolve(t.ret.Results[0])
			if v == ssa.Value(f.Params[0]) {
				continue
			}
			if t.knows(p, func(cond ssa.Value, pol bool) bool {
				k, ok := cond.(*ssa.Call)
				return ok && pol && calleeName(k) == "strings.HasPrefix"
			}) && !bounded(t) {
				c.Viol("emit", c.Pos(p, t.ret.Pos()), shortFn(f)+" prefix", "a directory is mapped together with others whose names merely begin with its own: the files of two projects can be written to one place")
			}
			if !t.derives(v, func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }) && !t.knows(p, func(cond ssa.Value, pol bool) bool {
				b, ok := cond.(*ssa.BinOp)
				return ok && (b.Op == token.EQL) == pol && (b.Op == token.EQL || b.Op == token.NEQ)
			}) {
				c.Viol("emit", c.Pos(p, t.ret.Pos()), shortFn(f)+" rest", "what follows the directory mapped is dropped: different files are written to one place")
			}
		}
	}
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isConstV(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// resolveFile: a relative path is one below the project's directory.
func (m *ovModel) resolveFile() {
	c, p := m.c, m.p
	f := p.Func(ovPath, "ResolveAbsFile")
	if f == nil {
		c.Viol("same", ovPath, "ResolveAbsFile", "ResolveAbsFile is gone")
		return
	}
	paths, ok := enumPaths(f, 200)
	c.Obl("same", "relative paths")
	if !ok || len(paths) == 0 {
		c.Viol("same", c.Pos(p, f.Pos()), "relative", "too many paths")
		return
	}
	file := func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }
	base := func(v ssa.Value) bool { return fieldNamed(v, "BaseDir") }
	isAbs := func(want bool) atomMatch {
		return func(cond ssa.Value, pol bool) bool {
			k, ok := cond.(*ssa.Call)
			return ok && pol == want && calleeName(k) == "path/filepath.IsAbs"
		}
	}
	noBase := func(cond ssa.Value, pol bool) bool { return emptyStringOf(cond, pol, base) }
	for _, t := range paths {
		v := t.resolve(t.ret.Results[0])
		if s, ok := constStr(v); ok {
			if s != "" || !t.knows(p, func(cond ssa.Value, pol bool) bool { return emptyString(cond, pol, f.Params[0]) }) {
				c.Viol("same", c.Pos(p, t.ret.Pos()), "relative", "a path resolves to a constant")
			}
			continue
		}
		where := c.Pos(p, t.ret.Pos())
		if !t.derives(v, file) {
			c.Viol("same", where, "relative path", "a path resolves to something else than itself")
		}
		joined := t.derives(v, func(v ssa.Value) bool {
			k, ok := v.(*ssa.Call)
			if !ok || calleeName(k) != "path/filepath.Join" {
				return false
			}
			args := variadicArgs(k.Common().Args[0])
			return len(args) == 2 && t.derives(args[0], base) && t.derives(args[1], file) && !t.derives(args[0], file)
		})
		switch {
		case t.knows(p, isAbs(true)) || t.knows(p, noBase):
			if t.derives(v, base) {
				c.Viol("same", where, "relative absolute", "an absolute path is put below the project's directory")
			}
		case t.knows(p, isAbs(false)):
			if !joined {
				c.Viol("same", where, "relative base", "a relative path is not one below the project's directory")
			}
		default:
			if !joined && t.derives(v, base) {
				c.Viol("same", where, "relative order", "the project's directory is not what a relative path is put below")
			} else if !joined {
				c.Viol("same", where, "relative base", "a relative path is not one below the project's directory")
			}
		}
	}
}

// used: what the command does with it.
func (m *ovModel) used() {
	c, p := m.c, m.p
	compose := p.Func(ovPath, "ComposeGoOverlays")
	n := 0
	for _, f := range p.Funcs {
		if !isRepoFn(f) || fnPkgPath(f) == ovPath {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			call, ok := ins.(*ssa.Call)
			if !ok || call.Common().StaticCallee() == nil {
				return
			}
			g := call.Common().StaticCallee()
			where := c.Pos(p, ins.Pos())
			switch {
			case g.Name() == "MakeGoOverlay" && fnPkgPath(g) == ovPath:
				n++
				c.Obl("used", shortFn(f)+" makes")
				comp := composedFrom(p, f, call, compose)
				if comp == nil {
					c.Viol("used", where, shortFn(f)+" composed", "the overlay made is not composed with the caller's")
					return
				}
				m.usedComposed(f, comp)
			case g.Name() == "Write" && g.Signature.Recv() != nil && ptrTo(g.Signature.Recv().Type(), ovPath, "GoOverlay"):
				c.Obl("used", shortFn(f)+" writes")
				ok := false
				for _, o := range p.Origins(call.Common().Args[0], originOpts{noCalls: true, noParams: true}) {
					e, isE := o.Val.(*ssa.Extract)
					if isE {
						k, isC := e.Tuple.(*ssa.Call)
						ok = isC && k.Common().StaticCallee() == compose
					}
				}
				if !ok {
					c.Viol("used", where, shortFn(f)+" writes", "the overlay written is not the composed one")
				}
			}
		})
	}
	if n == 0 {
		c.Viol("used", "cmd/xgo", "MakeGoOverlay", "no overlay is made for the go command")
	}
}

func composedFrom(p *Prog, f *ssa.Function, mk *ssa.Call, compose *ssa.Function) *ssa.Call {
	var got *ssa.Call
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || call.Common().StaticCallee() != compose {
			return
		}
		for _, o := range p.Origins(call.Common().Args[1], originOpts{noCalls: true, noParams: true}) {
			if e, ok := o.Val.(*ssa.Extract); ok && e.Tuple == ssa.Value(mk) && e.Index == 0 {
				got = call
			}
		}
	})
	return got
}

func (m *ovModel) usedComposed(f *ssa.Function, comp *ssa.Call) {
	c, p := m.c, m.p
	where := c.Pos(p, comp.Pos())
	// the caller's overlay: the one whose redirects were applied
	applied, projected := false, false
	caller := comp.Common().Args[0]
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || call.Common().StaticCallee() == nil || fnPkgPath(call.Common().StaticCallee()) != ovPath {
			return
		}
		switch call.Common().StaticCallee().Name() {
		case "ApplyFileRedirects":
			if shareOrigin(p, call.Common().Args[0], caller) {
				applied = true
			}
		case "ProjectOntoCallerSources":
			if !shareOrigin(p, call.Common().Args[0], caller) || !mentions(call.Common().Args[1], func(v ssa.Value) bool {
				e, ok := v.(*ssa.Extract)
				return ok && e.Tuple == ssa.Value(comp)
			}, nil) {
				return
			}
			// before every write
			projected = true
			eachInstr(f, func(w ssa.Instruction) {
				wc, ok := w.(*ssa.Call)
				if ok && wc.Common().StaticCallee() != nil && wc.Common().StaticCallee().Name() == "Write" && wc.Common().StaticCallee().Signature.Recv() != nil && ptrTo(wc.Common().StaticCallee().Signature.Recv().Type(), ovPath, "GoOverlay") {
					if mayFollow(w, ins) || !mayFollow(ins, w) {
						projected = false
					}
				}
			})
			if !p.Guarded(comp, func(ssa.Value, bool) bool { return false }) {
				// only a missing caller's overlay leaves it out
				h := ins.Block()
				noCaller := func(cond ssa.Value, pol bool) bool {
					v, isnil, ok := nilTest(cond, pol)
					return ok && isnil && (v == caller || shareOrigin(p, v, caller))
				}
				if bypass(p, comp.Block(), h, noCaller) {
					projected = false
				}
			}
		}
	})
	// composed whenever there is an entry
	for b := comp.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := lastIf(d)
		if !ok || !(d.Succs[0].Dominates(comp.Block()) && len(d.Succs[0].Preds) == 1) && !(d.Succs[1].Dominates(comp.Block()) && len(d.Succs[1].Preds) == 1) {
			continue
		}
		if x, op, k, ok := lenCompare(iff.Cond, d.Succs[0] == b || d.Succs[0].Dominates(b)); ok && isOverlayMap(x.Type()) {
			if !(op == token.GTR && k == 0 || op == token.NEQ && k == 0 || op == token.GEQ && k <= 1 || op == token.GTR && k < 0) {
				c.Viol("used", c.Pos(p, iff.Cond.Pos()), "composed always", "with few files overridden no overlay is given to the go command")
			}
		}
	}
	c.Obl("used", "redirects applied")
	if !applied {
		c.Viol("used", where, "redirects applied", "the caller's overlay is composed into the result but not read through when instrumenting")
	}
	c.Obl("used", "spellings projected")
	if !projected {
		c.Viol("used", where, "spellings projected", "the spellings the caller used are not mapped in the overlay written")
	}
}

// bypass: from block a, a return without an error is reachable without
// passing b, other than by edges m accepts.
func bypass(p *Prog, a, b *ssa.BasicBlock, m atomMatch) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x == b {
			continue
		}
		seen[x] = true
		if r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) == 0 || !returnsError(x) {
				return true
			}
		}
		for i, s := range x.Succs {
			if iff, ok := lastIf(x); ok && p.implies(iff.Cond, i == 0, m, 0) {
				continue
			}
			st = append(st, s)
		}
	}
	return false
}

func shareOrigin(p *Prog, a, b ssa.Value) bool {
	if a == b {
		return true
	}
	os := map[ssa.Value]bool{}
	for _, o := range p.Origins(a, originOpts{noCalls: true, noParams: true}) {
		if !isNilConst(o.Val) {
			os[o.Val] = true
		}
	}
	for _, o := range p.Origins(b, originOpts{noCalls: true, noParams: true}) {
		if os[o.Val] {
			return true
		}
	}
	return false
}

func init() {
	props["O01"] = propDef{run: runO01, assumptions: []string{
		"filepath.EvalSymlinks gives one path per file; the file system does not change while the command runs",
		"the go command replaces a file by the target its overlay maps it to, once, and treats an empty target as a removed file",
		"where the written overlay file is put on the go command's line is not followed",
	}}
}
