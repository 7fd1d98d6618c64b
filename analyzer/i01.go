package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The walk over function bodies that finds the variable references to
// rewrite. Every function of the walk is run abstractly on one node of each
// kind go/ast knows, with the node's children as symbols: which children it
// passes on, to which scope, and which names are bound in that scope by then.

const (
	resolvePkg = "github.com/xhd2015/xgo/instrument/resolve"
	editPkg    = "github.com/xhd2015/xgo/instrument/edit"
	rtypesPkg  = "github.com/xhd2015/xgo/instrument/resolve/types"
	astPkg     = "go/ast"
)

type astWalk struct {
	c      *Ctx
	p      *Prog
	ast    *types.Package
	scope  *types.Named
	exprI  *types.Interface
	stmtI  *types.Interface
	declI  *types.Interface
	nodeI  *types.Interface
	family map[*ssa.Function]bool
	coll   map[*ssa.Function]bool
	maker  map[*ssa.Function]bool
	writer map[*ssa.Function]bool
	whole  map[*ssa.IndexAddr]string
}

func init() {
	props["I01"] = propDef{run: runI01, assumptions: []string{
		"names are bound in the order the source declares them; a name bound by an enclosing function or block of the same file is visible until its block ends",
		"files that do not type-check are outside the property",
	}}
	props["I02"] = propDef{run: runI02, assumptions: []string{
		"reads the tool documents as not intercepted are exempt: the target of an assignment and the operand of ++/--, a composite literal's key when a name of that spelling exists, the operand of &v.field for a variable that is no pointer, initializers of package variables, types",
		"a reference whose variable's type the resolver cannot tell stays as it is (the variable is then not mockable at all)",
	}}
}

func newAstWalk(c *Ctx) *astWalk {
	p := c.Instr()
	w := &astWalk{c: c, p: p, family: map[*ssa.Function]bool{}, coll: map[*ssa.Function]bool{}, maker: map[*ssa.Function]bool{}, writer: map[*ssa.Function]bool{}, whole: map[*ssa.IndexAddr]string{}}
	pk := p.pkg(resolvePkg)
	if pk == nil {
		return nil
	}
	for _, im := range pk.Pkg.Imports() {
		if im.Path() == astPkg {
			w.ast = im
		}
	}
	sc, _ := pk.Pkg.Scope().Lookup("Scope").(*types.TypeName)
	if w.ast == nil || sc == nil {
		return nil
	}
	w.scope = sc.Type().(*types.Named)
	itf := func(n string) *types.Interface {
		return w.ast.Scope().Lookup(n).Type().Underlying().(*types.Interface)
	}
	w.exprI, w.stmtI, w.declI, w.nodeI = itf("Expr"), itf("Stmt"), itf("Decl"), itf("Node")
	fns := p.FuncsIn(func(path string) bool { return path == resolvePkg })
	// where references are noted
	appender := map[*ssa.Function]bool{}
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "VarRefs" && isNamed(fa.X.Type(), editPkg, "Decl") {
					appender[f] = true
				}
			}
		})
	}
	for _, f := range fns {
		if len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		r := p.Reach([]*ssa.Function{f}, nil)
		hit := false
		for a := range appender {
			hit = hit || r[a]
		}
		if !hit || len(w.astParams(f)) == 0 {
			w.scopeFuncs(f)
			continue
		}
		rec := false
		eachInstr(f, func(i ssa.Instruction) {
			if ci, ok := i.(ssa.CallInstruction); ok {
				for _, g := range p.Callees(ci) {
					if g == f || p.Reach([]*ssa.Function{g}, nil)[f] {
						rec = true
					}
				}
			}
		})
		if rec {
			w.family[f] = true
		} else if f.Signature.Results().Len() == 1 && isBoolT(f.Signature.Results().At(0).Type()) {
			w.coll[f] = true
		}
	}
	return w
}

// scopeFuncs: functions making a scope below another one, and functions
// changing a scope.
func (w *astWalk) scopeFuncs(f *ssa.Function) {
	si := -1
	for i, pr := range f.Params {
		if w.isScope(pr.Type()) {
			si = i
		}
	}
	if si < 0 {
		return
	}
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.MapUpdate:
			if u, ok := x.Map.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && w.isScope(fa.X.Type()) {
					w.writer[f] = true
				}
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && w.isScope(fa.X.Type()) {
				if _, local := fa.X.(*ssa.Alloc); !local {
					w.writer[f] = true
				}
			}
		}
	})
	if f.Signature.Results().Len() != 1 || !w.isScope(f.Signature.Results().At(0).Type()) || w.writer[f] {
		return
	}
	rs := returnsOf(f)
	ok := len(rs) > 0
	for _, r := range rs {
		a, isA := r.Results[0].(*ssa.Alloc)
		if !isA {
			ok = false
			continue
		}
		if w.freshBelow(a) != ssa.Value(f.Params[si]) {
			ok = false
		}
	}
	if ok {
		w.maker[f] = true
	}
}

// freshBelow: the scope a new scope with no names of its own hangs below.
func (w *astWalk) freshBelow(a *ssa.Alloc) ssa.Value {
	var parent ssa.Value
	for _, r := range *a.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Referrers() == nil {
			continue
		}
		for _, u := range *fa.Referrers() {
			s, ok := u.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(fa) {
				continue
			}
			switch fieldVar(a.Type(), fa.Field).Name() {
			case "Parent":
				parent = s.Val
			case "Names", "Defs":
				if !isNilConst(s.Val) {
					return nil
				}
			}
		}
	}
	return parent
}

func (w *astWalk) isScope(t types.Type) bool {
	return isNamed(t, resolvePkg, w.scope.Obj().Name())
}

func (w *astWalk) isAst(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return w.isAst(s.Elem())
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() == w.ast
}

func (w *astWalk) astParams(f *ssa.Function) []int {
	var out []int
	for i, pr := range f.Params {
		if w.isAst(pr.Type()) {
			out = append(out, i)
		}
	}
	return out
}

// kinds: the concrete node types t may hold.
func (w *astWalk) kinds(t types.Type) []string {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return []string{namedOf(t).Obj().Name()}
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []string
	for _, n := range w.ast.Scope().Names() {
		tn, ok := w.ast.Scope().Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		if _, isS := tn.Type().Underlying().(*types.Struct); isS && types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, n)
		}
	}
	return out
}

// children: the fields of a node kind holding expressions, statements,
// declarations or lists of them.
func (w *astWalk) children(kind string) []string {
	st, ok := w.ast.Scope().Lookup(kind).Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		suffix := ""
		if s, ok := t.Underlying().(*types.Slice); ok {
			t, suffix = s.Elem(), "[*]"
		}
		if n := namedOf(t); n == nil || n.Obj().Pkg() != w.ast {
			continue
		}
		for _, it := range []*types.Interface{w.exprI, w.stmtI, w.declI} {
			if types.Implements(t, it) {
				out = append(out, st.Field(i).Name()+suffix)
				break
			}
		}
	}
	return out
}

// children that are no reads
var astExempt = map[string]string{
	"CompositeLit.Type": "type", "TypeAssertExpr.Type": "type", "ArrayType.Len": "type", "ArrayType.Elt": "type",
	"ChanType.Value": "type", "MapType.Key": "type", "MapType.Value": "type", "Ellipsis.Elt": "type",
	"SelectorExpr.Sel": "a name, resolved with its operand", "LabeledStmt.Label": "label", "BranchStmt.Label": "label",
	"AssignStmt.Lhs[*]": "assignment target", "IncDecStmt.X": "assignment target",
	"RangeStmt.Key": "assignment target or declared name", "RangeStmt.Value": "assignment target or declared name",
	"FuncDecl.Name": "declared name",
}

// wholeIndex tells what part of a list an index visits: "[*]" all of it, in
// order.
func (w *astWalk) wholeIndex(ia *ssa.IndexAddr) string {
	if s, ok := w.whole[ia]; ok {
		return s
	}
	s := "[?]"
	if n, ok := constInt(ia.Index); ok {
		s = fmt.Sprintf("[%d]", n)
	} else if ok, l := loopWhole(w.p, ia.Index, nil); ok && l != nil && sameSource(w.p, l, ia.X) {
		s = "[*]"
		if dir, _ := loopRangeDir(w.p, ia.Index); dir < 0 {
			s = "[reversed]"
		}
	}
	w.whole[ia] = s
	return s
}

type walkVisit struct {
	path, scope string
	ins         ssa.CallInstruction
	fn          *ssa.Function
}

// walkRun is one abstract run.
type walkRun struct {
	w     *astWalk
	roots map[string]bool
	facts map[string]string // hypotheses: ty:path, tok:path
	visit func(st *estate, v walkVisit)
	e     *esp
}

func (r *walkRun) isRoot(path string) bool { return r.roots[path] }

// pathOf: the access path of an abstract node, "" when it is none.
func pathOf(a aval) string {
	if a.k == 'S' && a.cond == nil && strings.HasPrefix(a.s, "n") {
		return a.s
	}
	if a.k == 'E' {
		// an element of a list of one
		if l := splitIDs(a.s); len(l) == 1 && strings.HasPrefix(l[0], "n") {
			return l[0]
		}
	}
	return ""
}

func (r *walkRun) scopeID(st *estate, a aval) string {
	switch a.k {
	case 'S':
		if a.cond == nil && strings.HasPrefix(a.s, "sc") {
			return a.s
		}
	case 'P':
		if al, ok := a.cell.a.(*ssa.Alloc); ok && r.w.isScope(al.Type()) && a.cell.f == -1 {
			id := "scp" + r.e.id(al)
			// its parent, as written by now
			stt := r.w.scope.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == "Parent" {
					if pa := r.scopeID(st, st.cells[cellKey{al, i}]); pa != "" {
						st.set("par:"+id, pa)
					}
				}
			}
			return id
		}
	}
	return ""
}

func chainOf(st *estate, id string) []string {
	var out []string
	for i := 0; id != "" && i < 20; i++ {
		out = append(out, id)
		id = st.get("par:" + id)
	}
	return out
}

func boundIn(st *estate, scope, name string) bool {
	for _, s := range chainOf(st, scope) {
		if st.has("bd:"+s, name) {
			return true
		}
	}
	return false
}

// nilKnown: the node at path, or one it is part of, is absent.
func nilKnown(st *estate, path string) bool {
	for i := 1; i <= len(path); i++ {
		if i == len(path) || path[i] == '.' || path[i] == '[' {
			if st.get("nil:"+path[:i]) == "T" {
				return true
			}
		}
	}
	return false
}

func (r *walkRun) ids(a aval) []string {
	switch a.k {
	case 'S':
		if p := pathOf(a); p != "" {
			return []string{p}
		}
	case 'E', 'Y':
		return splitIDs(a.s)
	}
	return nil
}

func (r *walkRun) bind(st *estate, scope string, names []string) {
	for _, n := range names {
		st.add("bd:"+scope, n)
	}
}

func (r *walkRun) engine() *esp {
	w := r.w
	e := &esp{p: w.p, max: 60000, noInt: false}
	r.e = e
	e.inline = func(f *ssa.Function) bool {
		pk := fnPkg(f)
		if pk == nil || pk.Path() != resolvePkg || w.coll[f] {
			return false
		}
		if w.family[f] || w.writer[f] {
			return true
		}
		for _, pr := range f.Params {
			if w.isScope(pr.Type()) {
				return false
			}
		}
		return true
	}
	e.keepInt = func(ph *ssa.Phi) bool {
		for _, u := range useValues(ph) {
			for _, v := range append(useValues(u), u) {
				if ia, ok := v.(*ssa.IndexAddr); ok && literalLen(ia.X) > 0 {
					return true
				}
			}
		}
		return false
	}
	hypTy := func(st *estate, path string) string {
		if t := r.facts["ty:"+path]; t != "" {
			return t
		}
		return st.get("ty:" + path)
	}
	e.eval = func(st *estate, v ssa.Value) (aval, bool) {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			a := e.val(st, x.X)
			return a, pathOf(a) != ""
		case *ssa.TypeAssert:
			a := e.val(st, x.X)
			pth := pathOf(a)
			if pth == "" {
				return aval{}, false
			}
			if !x.CommaOk {
				return a, true
			}
			st.env[envKey{x, 0}] = a
			want := ""
			if n := namedOf(x.AssertedType); n != nil {
				want = n.Obj().Name()
			}
			have := hypTy(st, pth)
			st.env[envKey{x, 1}] = aval{k: 'S', s: "is:" + pth + ":" + want, cond: x}
			if have != "" {
				if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
					tn, _ := w.ast.Scope().Lookup(have).(*types.TypeName)
					if tn != nil {
						st.env[envKey{x, 1}] = avBool(types.Implements(types.NewPointer(tn.Type()), x.AssertedType.Underlying().(*types.Interface)))
					}
				} else {
					st.env[envKey{x, 1}] = avBool(have == want)
				}
			} else if st.get("not:"+pth+":"+want) != "" {
				st.env[envKey{x, 1}] = avFalse
			}
			return aval{}, true
		case *ssa.Extract:
			if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
				if a, ok := st.env[envKey{t, x.Index}]; ok {
					if a.k == 'S' && a.cond != nil && x.Index == 1 {
						parts := strings.SplitN(a.s, ":", 3)
						if h := hypTy(st, parts[1]); h != "" {
							return avBool(h == parts[2]), true
						}
					}
					return a, true
				}
			}
			if n, ok := x.Tuple.(*ssa.Next); ok {
				if a, ok := st.env[envKey{n, x.Index}]; ok {
					return a, true
				}
			}
		case *ssa.Slice:
			for i := 0; i < literalLen(x); i++ {
				if v := literalElem(x, int64(i)); v != nil {
					st.set(fmt.Sprintf("lit:%s:%d", e.id(x), i), pathOf(e.val(st, v)))
				}
			}
		case *ssa.MakeMap:
			s := "m" + e.id(x)
			st.set("map:"+s, "")
			return aval{k: 'S', s: s}, true
		case *ssa.Range:
			a := e.val(st, x.X)
			if a.k == 'S' && a.cond == nil && strings.HasPrefix(a.s, "m") {
				st.set("it:"+a.s, "fresh")
				return a, true
			}
		case *ssa.Next:
			a := e.val(st, x.Iter)
			if a.k != 'S' || !strings.HasPrefix(a.s, "m") {
				return aval{}, false
			}
			l := st.get("map:" + a.s)
			if l == "" {
				st.env[envKey{x, 0}] = avFalse
				return aval{}, true
			}
			delete(st.env, envKey{x, 0})
			if st.get("it:"+a.s) == "fresh" {
				st.env[envKey{x, 0}] = avTrue
			}
			st.set("it:"+a.s, "")
			st.env[envKey{x, 1}] = aval{k: 'E', s: l}
			return aval{}, true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if n := literalLen(x.Call.Args[0]); n > 0 {
					return aval{k: 'I', n: int64(n)}, true
				}
				a := e.val(st, x.Call.Args[0])
				if p := pathOf(a); p != "" {
					if nilKnown(st, p) {
						return aval{k: 'I'}, true
					}
					return aval{k: 'G', n: 1}, true
				}
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return aval{}, false
			}
			switch ad := x.X.(type) {
			case *ssa.FieldAddr:
				b := e.val(st, ad.X)
				if fv := fieldVar(ad.X.Type(), ad.Field); fv != nil {
					if p := pathOf(b); p != "" {
						np := p + "." + fv.Name()
						// a chain of one kind of wrapper: the third stands
						// for all below it, of which nothing is known
						if d := "." + fv.Name(); strings.HasSuffix(np, d+d+d+d) {
							np = p
							st.forget(np)
						}
						if t := r.facts["tok:"+np]; t != "" {
							var n int64
							fmt.Sscan(t, &n)
							return aval{k: 'I', n: n}, true
						}
						return aval{k: 'S', s: np}, true
					}
					if sc := r.scopeID(st, b); sc != "" && b.k == 'S' {
						if fv.Name() == "Parent" {
							if pa := st.get("par:" + sc); pa != "" {
								return aval{k: 'S', s: pa}, true
							}
						}
						return aval{k: 'S', s: "f" + sc + "." + fv.Name()}, true
					}
				}
			case *ssa.IndexAddr:
				if i := e.val(st, ad.Index); i.k == 'I' && literalLen(ad.X) > 0 {
					if p := st.get(fmt.Sprintf("lit:%s:%d", e.id(ad.X), i.n)); p != "" {
						return aval{k: 'S', s: p}, true
					}
				}
				b := e.val(st, ad.X)
				if p := pathOf(b); p != "" {
					return aval{k: 'S', s: p + w.wholeIndex(ad)}, true
				}
				if b.k == 'Y' && b.s != "" {
					switch part := w.wholeIndex(ad); part {
					case "[*]", "[reversed]":
						return aval{k: 'E', s: b.s}, true
					case "[0]":
						// a receiver is one name
						ids := ""
						for _, s := range splitIDs(b.s) {
							if strings.HasPrefix(s, "nRecv.") {
								ids = unionIDs(ids, "<"+s+">")
							}
						}
						if ids != "" {
							return aval{k: 'E', s: ids}, true
						}
					}
					return aval{}, true
				}
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return aval{}, false
			}
			a, b := x.X, x.Y
			if _, ok := a.(*ssa.Const); ok {
				a, b = b, a
			}
			av := e.val(st, a)
			if isNilConst(b) {
				if p := pathOf(av); p != "" {
					if r.isRoot(p) || st.get("nil:"+p) == "F" {
						return avBool(x.Op == token.NEQ), true
					}
					if nilKnown(st, p) {
						return avBool(x.Op == token.EQL), true
					}
					return aval{k: 'S', s: "nil:" + p, neg: x.Op == token.NEQ, cond: x}, true
				}
				if av.k == 'S' && av.cond == nil && (strings.HasPrefix(av.s, "m") || strings.HasPrefix(av.s, "sc")) {
					return avBool(x.Op == token.NEQ), true
				}
			}
			if s, ok := constStr(b); ok && (s == "" || s == "_") {
				// names are proper names
				if len(r.ids(av)) > 0 {
					return avBool(x.Op == token.NEQ), true
				}
			}
		}
		return aval{}, false
	}
	e.cond = func(st *estate, cond ssa.Value, pol bool) {
		switch x := cond.(type) {
		case *ssa.BinOp:
			if isNilConst(x.X) || isNilConst(x.Y) {
				o := x.X
				if isNilConst(o) {
					o = x.Y
				}
				if p := pathOf(e.val(st, o)); p != "" {
					st.set("nil:"+p, map[bool]string{true: "T", false: "F"}[pol])
				}
			}
		case *ssa.TypeAssert:
			if n := namedOf(x.AssertedType); n != nil {
				if p := pathOf(st.env[envKey{x, 0}]); p != "" {
					if pol {
						st.set("ty:"+p, n.Obj().Name())
					} else {
						st.set("not:"+p+":"+n.Obj().Name(), "1")
					}
				}
			}
		case *ssa.Extract:
			if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && pol && isNamed(t.AssertedType, rtypesPkg, "PkgVariable") {
				st.set("pkgvar", "1")
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && w.coll[f] && pol {
				st.set("taken", "1")
			}
		}
	}
	e.instr = func(st *estate, ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.MapUpdate:
			m := e.val(st, x.Map)
			k := e.val(st, x.Key)
			if m.k != 'S' || m.cond != nil {
				return
			}
			if strings.HasPrefix(m.s, "m") {
				for _, id := range r.ids(k) {
					st.add("map:"+m.s, id)
				}
				// a map already handed to a scope
				for key, v := range st.auto {
					if strings.HasPrefix(key, "own:") && v == m.s {
						r.bind(st, strings.TrimPrefix(key, "own:"), r.ids(k))
					}
				}
			}
			if strings.HasPrefix(m.s, "fsc") {
				i := strings.LastIndex(m.s, ".")
				if f := m.s[i+1:]; f == "Names" || f == "Defs" {
					r.bind(st, m.s[1:i], r.ids(k))
				}
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || !w.isScope(fa.X.Type()) {
				return
			}
			sc := r.scopeID(st, e.val(st, fa.X))
			f := fieldVar(fa.X.Type(), fa.Field).Name()
			if sc == "" || f != "Names" && f != "Defs" {
				return
			}
			v := e.val(st, x.Val)
			if v.k == 'S' && v.cond == nil && strings.HasPrefix(v.s, "m") {
				st.set("own:"+sc, v.s)
				r.bind(st, sc, splitIDs(st.get("map:"+v.s)))
			}
		}
	}
	e.call = func(e *esp, st *estate, ins ssa.CallInstruction, fv aval, args []aval) []*estate {
		f := ins.Common().StaticCallee()
		if f == nil {
			return nil
		}
		if w.maker[f] {
			for i, pr := range f.Params {
				if w.isScope(pr.Type()) {
					id := "scn" + e.id(ins.Value())
					st.set("bd:"+id, "")
					st.set("own:"+id, "")
					pa := r.scopeID(st, args[i])
					if pa == id {
						pa = ""
					}
					st.set("par:"+id, pa)
					e.setResult(st, ins, 0, aval{k: 'S', s: id})
				}
			}
			return []*estate{st}
		}
		if w.coll[f] {
			for _, i := range w.astParams(f) {
				if p := pathOf(args[i]); p != "" {
					st.add("col", p)
				}
			}
			if v := ins.Value(); v != nil {
				e.symBool(st, v)
			}
			return []*estate{st}
		}
		if !w.family[f] {
			return nil
		}
		sub, root := true, false
		var paths []string
		for _, i := range w.astParams(f) {
			p := pathOf(args[i])
			if r.isRoot(p) || args[i].k == 'P' {
				root = true
			}
			if args[i].k == 'Y' && args[i].s != "" {
				if l := splitIDs(args[i].s); len(l) > 0 {
					paths = append(paths, l...)
					continue
				}
			}
			if p == "" && args[i].k != 'N' {
				sub = false
			}
			if p != "" {
				paths = append(paths, p)
			}
		}
		if root {
			return nil
		}
		if sub {
			sc := ""
			for i, pr := range f.Params {
				if w.isScope(pr.Type()) {
					sc = r.scopeID(st, args[i])
				}
			}
			for _, p := range paths {
				if r.visit != nil {
					r.visit(st, walkVisit{p, sc, ins, f})
				}
				st.add("vis", p)
				st.set("vs:"+p, sc)
			}
		}
		if v := ins.Value(); v != nil && isBoolT(v.Type()) {
			e.symBool(st, v)
		}
		return []*estate{st}
	}
	return e
}

// forget drops what was learnt about the node called path.
func (st *estate) forget(path string) {
	for k := range st.auto {
		if k == "ty:"+path || k == "nil:"+path || strings.HasPrefix(k, "not:"+path+":") {
			delete(st.auto, k)
		}
	}
}

// run executes fn on a node of the given kind.
func (w *astWalk) run(fn *ssa.Function, args map[int]string, hyp map[string]string, visit func(st *estate, v walkVisit)) ([]espExit, bool) {
	r := &walkRun{w: w, roots: map[string]bool{}, facts: hyp, visit: visit}
	e := r.engine()
	var av []aval
	for i, pr := range fn.Params {
		switch {
		case w.isScope(pr.Type()):
			av = append(av, aval{k: 'S', s: "sc0"})
		case args[i] != "":
			r.roots[args[i]] = true
			av = append(av, aval{k: 'S', s: args[i]})
		default:
			av = append(av, aval{})
		}
	}
	ex := e.Exec(fn, newState(), av, nil)
	return ex, !e.overflow
}

func visited(st *estate, path string) bool {
	if st.has("vis", path) || nilKnown(st, strings.TrimSuffix(path, "[*]")) {
		return true
	}
	if l := strings.TrimSuffix(path, "[*]"); l != path && st.has("vis", l) {
		return true
	}
	// parentheses taken off
	if st.get("ty:"+path) == "ParenExpr" && len(path) < 40 {
		return visited(st, path+".X")
	}
	return false
}

// collected: the node, or what its parentheses enclose, was handed to the
// step noting references.
func collected(st *estate, path string) bool {
	if st.has("col", path) {
		return true
	}
	return st.get("ty:"+path) == "ParenExpr" && len(path) < 40 && collected(st, path+".X")
}

// bodies lists, per function of the walk, the node kinds it is handed.
func (w *astWalk) each(f func(fn *ssa.Function, param int, kind string)) {
	var fns []*ssa.Function
	for fn := range w.family {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		ps := w.astParams(fn)
		if len(ps) != 1 {
			continue
		}
		t := fn.Params[ps[0]].Type()
		if _, ok := t.Underlying().(*types.Slice); ok {
			f(fn, ps[0], "")
			continue
		}
		for _, k := range w.kinds(t) {
			f(fn, ps[0], k)
		}
	}
}

// where names get bound, and where they are visible
type bindRule struct {
	kind  string
	hyp   map[string]string
	names []string // the names the construct binds
	// seen: children that must be walked with the names bound
	seen []string
	// unseen: children evaluated before the names exist
	unseen []string
	// outer: the names must be bound in the scope handed in, for what follows
	outer bool
}

var bindRules = []bindRule{
	{kind: "RangeStmt", hyp: map[string]string{"tok:n.Tok": "DEFINE", "ty:n.Key": "Ident", "ty:n.Value": "Ident"}, names: []string{"n.Key.Name", "n.Value.Name"}, seen: []string{"n.Body"}, unseen: []string{"n.X"}},
	{kind: "AssignStmt", hyp: map[string]string{"tok:n.Tok": "DEFINE", "ty:n.Lhs[*]": "Ident"}, names: []string{"n.Lhs[*].Name"}, unseen: []string{"n.Rhs"}, outer: true},
	{kind: "GenDecl", hyp: map[string]string{"ty:n.Specs[*]": "ValueSpec"}, names: []string{"n.Specs[*].Names[*].Name"}, unseen: []string{"n.Specs[*].Values"}, outer: true},
	{kind: "GenDecl", hyp: map[string]string{"ty:n.Specs[*]": "TypeSpec"}, names: []string{"n.Specs[*].Name.Name"}, outer: true},
}

// blocks: per construct, the children sharing one block of their own: each
// pair's first child may bind names the second one sees
type blockRule struct {
	kind  string
	inner [][2]string
	own   []string // walked in a scope of their own
	same  []string // walked in the very scope handed in
}

var blockRules = []blockRule{
	{kind: "IfStmt", inner: [][2]string{{"Init", "Cond"}, {"Init", "Body"}, {"Init", "Else"}}, own: []string{"Init", "Body"}},
	{kind: "ForStmt", inner: [][2]string{{"Init", "Cond"}, {"Init", "Post"}, {"Init", "Body"}}, own: []string{"Init", "Body"}},
	{kind: "SwitchStmt", inner: [][2]string{{"Init", "Tag"}, {"Init", "Body"}}, own: []string{"Init", "Body"}},
	{kind: "TypeSwitchStmt", inner: [][2]string{{"Init", "Assign"}, {"Init", "Body"}, {"Assign", "Body"}}, own: []string{"Init", "Assign", "Body"}},
	{kind: "RangeStmt", own: []string{"Body"}},
	{kind: "CommClause", inner: [][2]string{{"Comm", "Body[*]"}}, own: []string{"Comm", "Body[*]"}},
	{kind: "CaseClause", own: []string{"Body[*]"}},
	{kind: "BlockStmt", own: []string{"List[*]"}},
	{kind: "LabeledStmt", same: []string{"Stmt"}},
	{kind: "DeclStmt", same: []string{"Decl"}},
}

func tokValues(h map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range h {
		if strings.HasPrefix(k, "tok:") {
			for t := token.Token(0); t < 100; t++ {
				if v == "DEFINE" && t == token.DEFINE || v == "ASSIGN" && t == token.ASSIGN {
					v = fmt.Sprint(int(t))
					break
				}
			}
		}
		out[k] = v
	}
	return out
}

func scopeVisited(st *estate, path string) (string, bool) {
	for _, p := range []string{path, strings.TrimSuffix(path, "[*]")} {
		if st.has("vis", p) {
			return st.get("vs:" + p), true
		}
	}
	return "", false
}

func chainHas(st *estate, scope, anc string) bool {
	if anc == "" {
		return false
	}
	for _, s := range chainOf(st, scope) {
		if s == anc {
			return true
		}
	}
	return false
}

func runI01(c *Ctx) {
	c.Rule("block", "in the walk over bodies, what a statement's head declares (the init of if, for and switch, the guard of a type switch, the receive of a select case) is walked before the parts that see it, in the same scope or one enclosing theirs; the statements of a block are walked in order, in one scope")
	c.Rule("bind", "every name a construct declares - range variables, := targets, local var, const and type declarations - is put in the scope of what follows, on every path, before that is walked")
	c.Rule("params", "the receiver, parameters, results and type parameters of a function are in scope before its body is walked; a function literal and a declaration pass on all of their own signature")
	c.Rule("scope", "a nested scope hangs below the one it is made from; a scope's names are not dropped when it is split; a lookup says no only when neither its names, its definitions nor any enclosing scope has the name")
	c.Rule("lookup", "a bare name is taken for a package variable, a function, a type or an imported package of the file only where the scope lookup of that very name said no; a selector is taken for another package's variable only when its operand is a package name")
	c.Rule("note", "a reference is noted for rewriting only when what was resolved for it is a package variable, with the declaration found under that variable's package and name")
	w := newAstWalk(c)
	if w == nil {
		c.Viol("block", "-", "walk", "the package walking function bodies was not found")
		return
	}
	if len(w.maker) == 0 || len(w.writer) == 0 {
		c.Viol("scope", "-", "maker", "no function making a nested scope, or none adding names to a scope, was recognised")
	}
	for f := range w.maker {
		c.Obl("scope", shortFn(f))
	}
	w.each(func(fn *ssa.Function, pi int, kind string) {
		where := c.Pos(w.p, fn.Pos())
		for _, b := range blockRules {
			if b.kind != kind {
				continue
			}
			name := shortFn(fn) + " " + kind
			c.Obl("block", name)
			bad := map[string]string{}
			exits, ok := w.run(fn, map[int]string{pi: "n"}, map[string]string{"ty:n": kind}, func(st *estate, v walkVisit) {
				for _, pr := range b.inner {
					first, second := "n."+pr[0], "n."+pr[1]
					if v.path != second && v.path != strings.TrimSuffix(second, "[*]") {
						continue
					}
					if nilKnown(st, first) {
						continue
					}
					sc, seen := scopeVisited(st, first)
					if !seen {
						bad[pr[1]+" before "+pr[0]] = fmt.Sprintf("the %s of a %s is walked before its %s: names declared there are not known yet", pr[1], kind, pr[0])
					} else if !chainHas(st, v.scope, sc) {
						bad[pr[1]+" outside "+pr[0]] = fmt.Sprintf("the %s of a %s is walked in a scope not enclosed by that of its %s: names declared there are unknown to it", pr[1], kind, pr[0])
					}
				}
				for _, s := range b.same {
					if v.path == "n."+s && v.scope != "sc0" {
						bad["same "+s] = fmt.Sprintf("the %s of a %s is walked in a scope of its own: names it declares are unknown to the statements after it", s, kind)
					}
				}
				if kind == "BlockStmt" && v.path == "n.List[?]" || v.path == "n.List[reversed]" {
					bad["order"] = "the statements of a block are not all walked, in their order"
				}
			})
			if !ok || len(exits) == 0 {
				bad["undecided"] = "the walk of this construct could not be followed"
			}
			for k, m := range bad {
				c.Viol("block", where, name+" "+k, "%s", m)
			}
		}
		for i, b := range bindRules {
			if b.kind != kind {
				continue
			}
			name := fmt.Sprintf("%s %s %s", shortFn(fn), kind, strings.Join(b.names, ","))
			c.Obl("bind", name)
			bad := map[string]string{}
			hyp := tokValues(b.hyp)
			hyp["ty:n"] = kind
			exits, ok := w.run(fn, map[int]string{pi: "n"}, hyp, func(st *estate, v walkVisit) {
				for _, s := range b.seen {
					if v.path != s && v.path != s+"[*]" {
						continue
					}
					for _, n := range b.names {
						if !boundIn(st, v.scope, n) && !nilKnown(st, n) {
							bad[n] = fmt.Sprintf("%s of a %s is walked while the declared name %s is not in its scope", s, kind, n)
						}
					}
				}
			})
			if !ok || len(exits) == 0 {
				bad["undecided"] = "the walk of this construct could not be followed"
			}
			if b.outer {
				for _, ex := range exits {
					for _, n := range b.names {
						if !ex.st.has("bd:sc0", n) && !nilKnown(ex.st, n) {
							bad[n] = fmt.Sprintf("there is a path on which the name %s declared by a %s is not put in the scope of the statements that follow", n, kind)
						}
					}
				}
			}
			for k, m := range bad {
				c.Viol("bind", where, fmt.Sprintf("%s %d %s", name, i, k), "%s", m)
			}
		}
		// what a function literal hands over
		if kind == "FuncLit" {
			name := shortFn(fn) + " FuncLit"
			c.Obl("params", name)
			exits, ok := w.run(fn, map[int]string{pi: "n"}, map[string]string{"ty:n": kind}, func(st *estate, v walkVisit) {})
			for _, ex := range exits {
				if ex.st.has("vis", "n.Body") && !ex.st.has("vis", "n.Type") {
					ok = false
				}
			}
			if !ok {
				c.Viol("params", where, name, "the body of a function literal is walked without its own signature")
			}
		}
	})
	c.Floor("block", 10)
	c.Floor("bind", 4)
	w.params()
	w.lookups()
	w.hasRule()
	w.noteRule()
}

// params: the functions taking a signature and a body.
func (w *astWalk) params() {
	c := w.c
	n := 0
	for fn := range w.family {
		ps := w.astParams(fn)
		args := map[int]string{}
		typ, body, recv := -1, -1, -1
		for _, i := range ps {
			nt := namedOf(fn.Params[i].Type())
			if nt == nil {
				continue
			}
			switch nt.Obj().Name() {
			case "FuncType":
				typ = i
				args[i] = "nType"
			case "BlockStmt":
				body = i
				args[i] = "nBody"
			case "FieldList":
				recv = i
				args[i] = "nRecv"
			case "FuncDecl", "FuncLit":
				args[i] = "nFn"
			}
		}
		if typ < 0 || body < 0 {
			continue
		}
		n++
		name := shortFn(fn)
		type variant struct {
			hyp   map[string]string
			names []string
		}
		var vs []variant
		base := []string{"nType.Params.List[*].Names[*].Name", "nType.Results.List[*].Names[*].Name"}
		if recv >= 0 {
			base = append(base, "nRecv.List[*].Names[*].Name")
		}
		if st, ok := w.ast.Scope().Lookup("FuncType").Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "TypeParams" {
					base = append(base, "nType.TypeParams.List[*].Names[*].Name")
				}
			}
		}
		vs = append(vs, variant{map[string]string{"ty:nRecv.List[0].Type": "Ident"}, base})
		if recv >= 0 {
			// type parameters of a receiver: T[K], *T[K], T[K, V]
			vs = append(vs,
				variant{map[string]string{"ty:nRecv.List[0].Type": "IndexExpr", "ty:nRecv.List[0].Type.Index": "Ident"}, []string{"nRecv.List[0].Type.Index.Name"}},
				variant{map[string]string{"ty:nRecv.List[0].Type": "StarExpr", "ty:nRecv.List[0].Type.X": "IndexExpr", "ty:nRecv.List[0].Type.X.Index": "Ident"}, []string{"nRecv.List[0].Type.X.Index.Name"}},
				variant{map[string]string{"ty:nRecv.List[0].Type": "IndexListExpr", "ty:nRecv.List[0].Type.Indices[*]": "Ident"}, []string{"nRecv.List[0].Type.Indices[*].Name"}})
		}
		for _, v := range vs {
			c.Obl("params", name+" "+strings.Join(v.names, ","))
			bad := map[string]bool{}
			walked := false
			_, ok := w.run(fn, args, v.hyp, func(st *estate, vi walkVisit) {
				if vi.path != "nBody" && !strings.HasPrefix(vi.path, "nBody.") {
					return
				}
				walked = true
				for _, nm := range v.names {
					if !boundIn(st, vi.scope, nm) && !nilKnown(st, nm) {
						bad[nm] = true
					}
				}
			})
			if !ok || !walked {
				c.Viol("params", c.Pos(w.p, fn.Pos()), name+" undecided", "the walk of a function's body could not be followed")
			}
			for nm := range bad {
				c.Viol("params", c.Pos(w.p, fn.Pos()), name+" "+nm, "there is a path on which a body is walked while the names %s are not in its scope: a local of that name would be taken for the package variable", nm)
			}
		}
	}
	if n == 0 {
		c.Viol("params", "-", "function", "no function walking a body with its signature was found")
	}
	// declarations: signature and body of the same declaration
	for _, s := range w.entryCalls() {
		name := shortFn(s.ins.Parent()) + " -> " + shortFn(s.fn)
		c.Obl("params", name)
		var of ssa.Value
		bad := false
		seen := map[string]bool{}
		for i, pr := range s.fn.Params {
			if !w.isAst(pr.Type()) {
				continue
			}
			nt := namedOf(pr.Type())
			if nt == nil {
				continue
			}
			kind := nt.Obj().Name()
			want := map[string]string{"FuncType": "Type", "BlockStmt": "Body", "FieldList": "Recv"}[kind]
			base := w.fieldOf(s.args[i], "FuncDecl", want)
			seen[kind] = base != nil
			if base == nil || of != nil && !sameSource(w.p, of, base) {
				bad = true
			}
			of = base
		}
		if bad || !seen["FuncType"] || !seen["BlockStmt"] {
			c.Viol("params", c.Pos(w.p, s.ins.Pos()), name, "a declared function's body is not walked with its own receiver and signature")
		}
	}
}

// fieldOf: v is field name of a node of the given kind.
func (w *astWalk) fieldOf(v ssa.Value, kind, name string) ssa.Value {
	for _, o := range w.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		u, ok := o.Val.(*ssa.UnOp)
		if !ok {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !isNamed(fa.X.Type(), astPkg, kind) || fieldVar(fa.X.Type(), fa.Field).Name() != name {
			return nil
		}
		return fa.X
	}
	return nil
}

type entryCall struct {
	ins  ssa.CallInstruction
	fn   *ssa.Function
	args []ssa.Value
}

// entryCalls: the calls starting the walk of a declared function.
func (w *astWalk) entryCalls() []entryCall {
	var out []entryCall
	for fn := range w.family {
		has := false
		for _, i := range w.astParams(fn) {
			has = has || isNamed(fn.Params[i].Type(), astPkg, "FuncType")
		}
		if !has {
			continue
		}
		for _, cs := range w.p.callers[fn] {
			if !w.family[cs.Parent()] {
				out = append(out, entryCall{cs, fn, cs.Common().Args})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ins.Pos() < out[j].ins.Pos() })
	return out
}

// lookupFn: the question "is this name bound locally", as a function.
func (w *astWalk) lookupFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range w.p.FuncsIn(func(path string) bool { return path == resolvePkg }) {
		s := f.Signature
		if s.Results().Len() != 1 || !isBoolT(s.Results().At(0).Type()) || len(f.Params) != 2 || !w.isScope(f.Params[0].Type()) || w.writer[f] {
			continue
		}
		b, ok := f.Params[1].Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.String {
			continue
		}
		reads := false
		eachInstr(f, func(i ssa.Instruction) {
			if l, ok := i.(*ssa.Lookup); ok && w.scopeMap(l.X) != "" {
				reads = true
			}
		})
		if reads {
			out[f] = true
		}
	}
	return out
}

// scopeMap: v is the map of names of a scope.
func (w *astWalk) scopeMap(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !w.isScope(fa.X.Type()) {
		return ""
	}
	if n := fieldVar(fa.X.Type(), fa.Field).Name(); n == "Names" || n == "Defs" {
		return n
	}
	return ""
}

// tableOf: v is the table a bare name is looked up in: the declarations of
// the package, the imports of the file.
func (w *astWalk) tableOf(v ssa.Value) string {
	for _, o := range w.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		u, ok := o.Val.(*ssa.UnOp)
		if !ok {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		switch fv := fieldVar(fa.X.Type(), fa.Field); {
		case isNamed(fa.X.Type(), resolvePkg, "PackageScope") && fv.Name() == "Decls":
			return "package declarations"
		case isNamed(fa.X.Type(), resolvePkg, "FileScope") && fv.Name() == "Imports":
			return "imports"
		case isNamed(fa.X.Type(), editPkg, "Package") && fv.Name() == "Decls":
			return "other package"
		}
	}
	return ""
}

func (w *astWalk) lookups() {
	c, p := w.c, w.p
	has := w.lookupFns()
	n, nsel := 0, 0
	for _, f := range p.FuncsIn(func(path string) bool { return path == resolvePkg }) {
		f := f
		eachInstr(f, func(i ssa.Instruction) {
			l, ok := i.(*ssa.Lookup)
			if !ok {
				return
			}
			switch t := w.tableOf(l.X); t {
			case "package declarations", "imports":
				name := fmt.Sprintf("%s lookup in %s", shortFn(f), t)
				c.Obl("lookup", name)
				n++
				no := func(cond ssa.Value, pol bool) bool {
					call, ok := cond.(*ssa.Call)
					if !ok || pol {
						return false
					}
					g := call.Call.StaticCallee()
					return g != nil && has[g] && sameSource(p, call.Call.Args[1], l.Index)
				}
				if !p.Guarded(l, no) {
					c.Viol("lookup", c.Pos(p, l.Pos()), name, "a name is looked up in the %s although it may be bound locally: a local of that name would be taken for the global one", t)
				}
			case "other package":
				// the name of a selector
				if w.fieldOf(w.nameNode(l.Index), "SelectorExpr", "Sel") == nil {
					return
				}
				nsel++
				name := fmt.Sprintf("%s selector", shortFn(f))
				c.Obl("lookup", name)
				isPkg := func(cond ssa.Value, pol bool) bool {
					ex, ok := cond.(*ssa.Extract)
					if !ok || !pol || ex.Index != 1 {
						return false
					}
					ta, ok := ex.Tuple.(*ssa.TypeAssert)
					return ok && isNamed(ta.AssertedType, rtypesPkg, "ImportPath")
				}
				if !p.Guarded(l, isPkg) {
					c.Viol("lookup", c.Pos(p, l.Pos()), name, "a selector is looked up among a package's declarations although its operand may be no package name")
				}
			}
		})
	}
	if n < 3 || nsel < 1 {
		c.Viol("lookup", "-", "floor", "the lookups giving a bare name its package level meaning were not recognised (%d, %d)", n, nsel)
	}
}

// nameNode: the identifier whose Name v is; v itself otherwise.
func (w *astWalk) nameNode(v ssa.Value) ssa.Value {
	for _, o := range w.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		if u, ok := o.Val.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), astPkg, "Ident") {
				return fa.X
			}
		}
	}
	return v
}

// hasRule: the local lookup, and the functions changing scopes.
func (w *astWalk) hasRule() {
	c, p := w.c, w.p
	fns := w.lookupFns()
	if len(fns) == 0 {
		c.Viol("scope", "-", "lookup", "no function looking a name up in a scope was found")
	}
	for f := range fns {
		for _, kind := range []string{"Names", "Defs", "Parent"} {
			kind := kind
			name := shortFn(f) + " " + kind
			c.Obl("scope", name)
			r := &walkRun{w: w, roots: map[string]bool{}, facts: map[string]string{}}
			e := r.engine()
			// only the kind under test holds the name
			holds := func(m aval) (bool, bool) {
				if m.k != 'S' {
					return false, false
				}
				switch m.s {
				case "fsc0.Names":
					return kind == "Names", true
				case "fsc0.Defs":
					return kind == "Defs", true
				case "fscP.Names", "fscP.Defs":
					return kind == "Parent", true
				}
				return false, false
			}
			old := e.eval
			e.eval = func(st *estate, v ssa.Value) (aval, bool) {
				switch x := v.(type) {
				case *ssa.Lookup:
					yes, ok := holds(e.val(st, x.X))
					if !ok {
						return aval{}, false
					}
					if e.val(st, x.Index).s != "nKey" {
						yes = false
					}
					res := aval{}
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
						if isBoolT(x.X.Type().Underlying().(*types.Map).Elem()) {
							res = avBool(yes)
						} else if yes {
							res = avYes
						} else {
							res = avNil
						}
					}
					if x.CommaOk {
						st.env[envKey{x, 0}] = res
						st.env[envKey{x, 1}] = avBool(yes)
						return aval{}, true
					}
					return res, true
				case *ssa.Extract:
					if l, ok := x.Tuple.(*ssa.Lookup); ok {
						if a, ok := st.env[envKey{l, x.Index}]; ok {
							return a, true
						}
					}
				case *ssa.BinOp:
					// the scope handed in, or the one above, against nil
					for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						a := e.val(st, pr[0])
						if isNilConst(pr[1]) && a.k == 'S' && (a.s == "sc0" || a.s == "scP") {
							return avBool(x.Op == token.NEQ), true
						}
					}
				}
				return old(st, v)
			}
			e.call = func(e *esp, st *estate, ins ssa.CallInstruction, fv aval, args []aval) []*estate {
				if g := ins.Common().StaticCallee(); g != nil && fns[g] && len(args) == 2 {
					e.setResult(st, ins, 0, avBool(kind == "Parent" && args[0].k == 'S' && args[0].s == "scP" && args[1].s == "nKey"))
					return []*estate{st}
				}
				return nil
			}
			st := newState()
			st.set("par:sc0", "scP")
			ok := true
			exits := e.Exec(f, st, []aval{{k: 'S', s: "sc0"}, {k: 'S', s: "nKey"}}, nil)
			for _, ex := range exits {
				if len(ex.res) != 1 || ex.res[0].k != 'T' {
					ok = false
				}
			}
			if !ok || len(exits) == 0 || e.overflow {
				what := map[string]string{"Names": "among the scope's names", "Defs": "among the scope's definitions", "Parent": "in an enclosing scope only"}[kind]
				c.Viol("scope", c.Pos(p, f.Pos()), name, "the lookup of a name bound %s can answer no", what)
			}
		}
	}
	// changing a scope
	for f := range w.writer {
		f := f
		eachInstr(f, func(i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !w.isScope(fa.X.Type()) {
				return
			}
			field := fieldVar(fa.X.Type(), fa.Field).Name()
			if field != "Names" && field != "Defs" && field != "Parent" {
				return
			}
			pr, ok := fa.X.(*ssa.Parameter)
			if !ok {
				return
			}
			name := fmt.Sprintf("%s writes %s", shortFn(f), field)
			c.Obl("scope", name)
			// a first map
			if field != "Parent" {
				empty := func(cond ssa.Value, pol bool) bool {
					b, ok := cond.(*ssa.BinOp)
					if !ok || (b.Op == token.EQL) != pol || b.Op != token.EQL && b.Op != token.NEQ {
						return false
					}
					o := b.X
					if isNilConst(o) {
						o = b.Y
					} else if !isNilConst(b.Y) {
						return false
					}
					u, ok := o.(*ssa.UnOp)
					if !ok {
						return false
					}
					ofa, ok := u.X.(*ssa.FieldAddr)
					return ok && ofa.X == fa.X && ofa.Field == fa.Field
				}
				if p.Guarded(s, empty) {
					return
				}
			}
			if w.splits(f, pr, s) {
				return
			}
			c.Viol("scope", c.Pos(p, s.Pos()), name, "a scope's %s is replaced without the former names being kept in an enclosing scope: names bound so far are forgotten", field)
		})
	}
}

// splits: f puts a copy of scope v, taken before anything of it is changed,
// above it, on every path through s.
func (w *astWalk) splits(f *ssa.Function, v ssa.Value, s *ssa.Store) bool {
	found := false
	var copies []*ssa.Store
	eachInstr(f, func(i ssa.Instruction) {
		cp, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		a, ok := cp.Addr.(*ssa.Alloc)
		if !ok || !w.isScope(a.Type()) {
			return
		}
		if u, ok := cp.Val.(*ssa.UnOp); ok && u.X == v {
			copies = append(copies, cp)
		}
	})
	for _, cp := range copies {
		a := cp.Addr.(*ssa.Alloc)
		// nothing of v changed before the copy was read
		rd := cp.Val.(*ssa.UnOp)
		clean := true
		var link *ssa.Store
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if fa.X == v && mayFollow(st, rd) {
				clean = false
			}
			if fa.X == ssa.Value(a) {
				clean = false // the copy is tampered with
			}
			if fa.X == v && fieldVar(fa.X.Type(), fa.Field).Name() == "Parent" && st.Val == ssa.Value(a) {
				link = st
			}
		})
		if !clean || link == nil {
			continue
		}
		is := func(i ssa.Instruction) bool { return i == ssa.Instruction(link) }
		if s == link || alwaysBefore(s, is) || alwaysAfter(s, is, isReturn) == nil {
			found = true
		}
	}
	return found
}

// noteRule: what is noted for rewriting.
func (w *astWalk) noteRule() {
	c, p := w.c, w.p
	n := 0
	for _, f := range p.FuncsIn(func(path string) bool { return strings.HasPrefix(path, "github.com/xhd2015/xgo/") }) {
		f := f
		eachInstr(f, func(i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !isNamed(fa.X.Type(), editPkg, "Decl") || fieldVar(fa.X.Type(), fa.Field).Name() != "VarRefs" {
				return
			}
			n++
			name := shortFn(f) + " notes a reference"
			c.Obl("note", name)
			isVar := func(cond ssa.Value, pol bool) bool {
				ex, ok := cond.(*ssa.Extract)
				if !ok || !pol || ex.Index != 1 {
					return false
				}
				ta, ok := ex.Tuple.(*ssa.TypeAssert)
				return ok && isNamed(ta.AssertedType, rtypesPkg, "PkgVariable")
			}
			if !p.Guarded(s, isVar) {
				c.Viol("note", c.Pos(p, s.Pos()), name, "a reference is noted for rewriting although what it resolves to may be no package variable")
			}
			// the declaration is that variable's
			okDecl := true
			for _, o := range p.Origins(fa.X, originOpts{noCalls: true, noParams: true}) {
				call, ok := o.Val.(*ssa.Call)
				if !ok {
					okDecl = false
					continue
				}
				fields := map[string]ssa.Value{}
				for _, a := range call.Call.Args {
					for _, ao := range p.Origins(a, originOpts{noCalls: true, noParams: true}) {
						switch x := ao.Val.(type) {
						case *ssa.Field:
							if isNamed(x.X.Type(), rtypesPkg, "PkgVariable") {
								fields[fieldVar(x.X.Type(), x.Field).Name()] = x.X
							}
						case *ssa.UnOp:
							if g, ok := x.X.(*ssa.FieldAddr); ok && isNamed(g.X.Type(), rtypesPkg, "PkgVariable") {
								fields[fieldVar(g.X.Type(), g.Field).Name()] = g.X
							}
						}
					}
				}
				a, b := fields["PkgPath"], fields["Name"]
				if a == nil || b == nil || a != b && !sameSource(p, a, b) {
					okDecl = false
				}
			}
			if !okDecl {
				c.Viol("note", c.Pos(p, s.Pos()), name+" declaration", "the declaration a reference is noted with is not looked up by the package and the name of the variable it was resolved to")
			}
		})
	}
	if n == 0 {
		c.Viol("note", "-", "none", "no place noting references for rewriting was found")
	}
}

func runI02(c *Ctx) {
	c.Rule("visit", "for every kind of expression and statement node of go/ast, the walk passes on every child that is evaluated - on every path, from every place the walk takes such a node - and every element of its lists; identifiers and selectors are handed to the step noting references")
	c.Rule("early", "what is evaluated before a construct's names exist - the operand of range, the right side of :=, the values of a var declaration - is walked before they are bound")
	c.Rule("own", "names bound inside a block, a clause or the head of a statement go to a scope of that construct, not to the one around it")
	c.Rule("note", "the step noting references leaves a package variable alone only for a documented reason: its package may not be instrumented, its declaration or type cannot be told, the name is blank or bound locally, it is the operand of &v.f and holds no pointer")
	c.Rule("cover", "every declared function with a body of every file of every package given is walked, except test files of packages outside the main module")
	w := newAstWalk(c)
	if w == nil {
		c.Viol("visit", "-", "walk", "the package walking function bodies was not found")
		return
	}
	handled := map[string]bool{}
	typeOnly := map[string]bool{"ArrayType": true, "ChanType": true, "FuncType": true, "InterfaceType": true, "MapType": true, "StructType": true, "Ellipsis": true, "FuncDecl": true}
	w.each(func(fn *ssa.Function, pi int, kind string) {
		where := c.Pos(w.p, fn.Pos())
		name := shortFn(fn) + " " + kind
		handled[kind] = true
		hyp := map[string]string{}
		var want []string
		if kind == "" {
			name = shortFn(fn) + " list"
			want = []string{"n[*]"}
		} else {
			hyp["ty:n"] = kind
			for _, ch := range w.children(kind) {
				if astExempt[kind+"."+ch] == "" && !typeOnly[kind] {
					want = append(want, "n."+ch)
				}
			}
		}
		if kind == "GenDecl" {
			// constants read no variables: len of an array does not
			// evaluate it, and rewritten it would be no constant
			hyp["ty:n.Specs[*]"], hyp["tok:n.Tok"] = "ValueSpec", fmt.Sprint(int(token.VAR))
			want = []string{"n.Specs[*].Values[*]"}
		}
		leaf := kind == "Ident" || kind == "SelectorExpr"
		if len(want) == 0 && !leaf {
			return
		}
		c.Obl("visit", name)
		exits, ok := w.run(fn, map[int]string{pi: "n"}, hyp, nil)
		if !ok || len(exits) == 0 {
			c.Viol("visit", where, name+" undecided", "the walk of a %s could not be followed", kind)
			return
		}
		bad := map[string]string{}
		for _, ex := range exits {
			st := ex.st
			if triesOnly(fn) && len(ex.res) == 1 && ex.res[0].k == 'F' {
				continue // not its kind of node: the caller goes on
			}
			if leaf && !st.has("col", "n") {
				bad["noted"] = fmt.Sprintf("there is a path on which a %s is not handed to the step noting references", kind)
			}
			for _, ch := range want {
				if visited(st, ch) {
					continue
				}
				switch kind {
				case "SelectorExpr":
					if st.get("taken") != "" {
						continue // rewritten as a whole
					}
				case "UnaryExpr":
					if collected(st, ch) && (st.get("taken") != "" || st.get("pkgvar") != "") {
						continue
					}
				case "KeyValueExpr":
					if ch == "n.Key" && st.get("ty:"+ch) == "Ident" {
						continue
					}
				}
				bad[ch] = fmt.Sprintf("there is a path on which the %s of a %s is not walked: variables read there are never intercepted", strings.TrimPrefix(ch, "n."), kind)
			}
		}
		for k, m := range bad {
			c.Viol("visit", where, name+" "+k, "%s", m)
		}
	})
	// every kind is taken by some step
	for _, it := range []string{"Expr", "Stmt"} {
		for _, k := range w.kinds(w.ast.Scope().Lookup(it).Type()) {
			if !handled[k] {
				c.Viol("visit", "-", "kind "+k, "no step of the walk takes a %s", k)
			}
		}
	}
	c.Floor("visit", 35)
	w.each(func(fn *ssa.Function, pi int, kind string) {
		where := c.Pos(w.p, fn.Pos())
		for i, b := range bindRules {
			if b.kind != kind || len(b.unseen) == 0 {
				continue
			}
			name := fmt.Sprintf("%s %s %d", shortFn(fn), kind, i)
			c.Obl("early", name)
			hyp := tokValues(b.hyp)
			hyp["ty:n"] = kind
			if kind == "GenDecl" {
				hyp["tok:n.Tok"] = fmt.Sprint(int(token.VAR))
			}
			bad := map[string]bool{}
			_, ok := w.run(fn, map[int]string{pi: "n"}, hyp, func(st *estate, v walkVisit) {
				for _, u := range b.unseen {
					if v.path != u && v.path != u+"[*]" {
						continue
					}
					for _, n := range b.names {
						// later specs of a group see the earlier ones' names
						if boundIn(st, v.scope, n) && kind != "GenDecl" {
							bad[u] = true
						}
						if kind == "GenDecl" && boundIn(st, v.scope, n) && !st.has("vis", u) && !st.has("vis", u+"[*]") {
							bad[u] = true
						}
					}
				}
			})
			if !ok {
				bad["undecided"] = true
			}
			for k := range bad {
				c.Viol("early", where, name+" "+k, "%s of a %s is walked after its names are bound: a variable of the same name read there is taken for the new local", strings.TrimPrefix(k, "n."), kind)
			}
			if b.kind == "RangeStmt" {
				c.Obl("own", name)
				exits, _ := w.run(fn, map[int]string{pi: "n"}, hyp, nil)
				for _, ex := range exits {
					for _, n := range b.names {
						if ex.st.has("bd:sc0", n) {
							c.Viol("own", where, name+" "+n, "the names of a %s are bound in the scope around it: reads of a package variable of that name after the statement are no longer intercepted", kind)
						}
					}
				}
			}
		}
		for _, b := range blockRules {
			if b.kind != kind || len(b.own) == 0 {
				continue
			}
			name := shortFn(fn) + " " + kind
			c.Obl("own", name)
			bad := map[string]bool{}
			w.run(fn, map[int]string{pi: "n"}, map[string]string{"ty:n": kind}, func(st *estate, v walkVisit) {
				for _, o := range b.own {
					// a block given to the step for blocks gets its scope there
					if (v.path == "n."+o || v.path == "n."+strings.TrimSuffix(o, "[*]")) && v.scope == "sc0" && !w.scopesItself(v) {
						bad[o] = true
					}
				}
			})
			for k := range bad {
				c.Viol("own", where, name+" "+k, "the %s of a %s is walked in the scope around the statement: what it declares keeps later reads of a package variable of that name from being intercepted", k, kind)
			}
		}
	})
	c.Floor("early", 3)
	c.Floor("own", 9)
	w.cover()
	w.noteAll()
	w.selRule()
}

// triesOnly: a step answering whether the node was one of its own; what
// its callers do with a refusal is judged in them.
func triesOnly(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() == 1 && isBoolT(res.At(0).Type())
}

// scopesItself: the step taking the node makes a scope for it.
func (w *astWalk) scopesItself(v walkVisit) bool {
	ps := w.astParams(v.fn)
	if len(ps) != 1 || !isNamed(v.fn.Params[ps[0]].Type(), astPkg, "BlockStmt") {
		return false
	}
	own := true
	_, ok := w.run(v.fn, map[int]string{ps[0]: "n"}, map[string]string{"ty:n": "BlockStmt"}, func(st *estate, vi walkVisit) {
		if vi.scope == "sc0" {
			own = false
		}
	})
	return ok && own
}

// cover: the outer loops.
func (w *astWalk) cover() {
	c, p := w.c, w.p
	calls := w.entryCalls()
	if len(calls) == 0 {
		c.Viol("cover", "-", "entry", "no place starting the walk of a declared function was found")
	}
	for _, ec := range calls {
		fn := ec.ins.Parent()
		name := shortFn(fn)
		c.Obl("cover", name+" declarations")
		// the declaration walked is an element of a list visited whole
		var decl ssa.Value
		for i, pr := range ec.fn.Params {
			if isNamed(pr.Type(), astPkg, "BlockStmt") {
				decl = w.fieldOf(ec.args[i], "FuncDecl", "Body")
			}
		}
		if !w.wholeLoop(decl, ec.ins, func(b *ssa.BasicBlock, succ int) bool {
			return p.edgeHolds(b, succ, w.notDecl(decl), 0)
		}) {
			c.Viol("cover", c.Pos(p, ec.ins.Pos()), name+" declarations", "not every function declared in the file, with a body, is walked")
		}
		// up to the caller: files, packages
		w.coverUp(fn, name, 0)
	}
}

// notDecl: the declaration is none of a function, or has no body.
func (w *astWalk) notDecl(decl ssa.Value) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		switch x := cond.(type) {
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && isNamed(ta.AssertedType, astPkg, "FuncDecl") {
				return !pol
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			o := x.X
			if isNilConst(o) {
				o = x.Y
			} else if !isNilConst(x.Y) {
				return false
			}
			return (x.Op == token.EQL) == pol && w.fieldOf(o, "FuncDecl", "Body") != nil
		}
		return false
	}
}

// wholeLoop: v is an element of a list whose loop visits all of it, and
// every iteration executes ins unless excused.
func (w *astWalk) wholeLoop(v ssa.Value, ins ssa.Instruction, excused func(b *ssa.BasicBlock, succ int) bool) bool {
	if v == nil {
		return false
	}
	for _, o := range w.p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		u, ok := o.Val.(*ssa.UnOp)
		if !ok {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || ia.Parent() != ins.Parent() {
			return false
		}
		if w.wholeIndex(ia) == "[?]" || skipsIterationUnless(ins, excused) {
			return false
		}
	}
	return true
}

// coverUp: a function walking one file is called for every file.
func (w *astWalk) coverUp(fn *ssa.Function, name string, depth int) {
	c, p := w.c, w.p
	sites := p.callers[fn]
	if depth > 3 || len(sites) == 0 {
		if depth > 3 || fn.Object() == nil || !fn.Object().Exported() {
			c.Viol("cover", c.Pos(p, fn.Pos()), name, "the loop over the files could not be followed")
		}
		return
	}
	for _, s := range sites {
		any := false
		for i, pr := range fn.Params {
			if i >= len(s.Common().Args) {
				continue
			}
			if !isNamed(pr.Type(), editPkg, "File") && !isNamed(pr.Type(), editPkg, "Package") {
				continue
			}
			any = true
			c.Obl("cover", shortFn(s.Parent())+" "+namedOf(pr.Type()).Obj().Name())
			// what is skipped is both a test file and outside the main module
			whole := func(m atomMatch) bool {
				return w.wholeLoop(s.Common().Args[i], s.(ssa.Instruction), func(b *ssa.BasicBlock, succ int) bool {
					return p.edgeHolds(b, succ, m, 0)
				})
			}
			if !(whole(w.testFile()) && whole(w.notMain())) && !isParamOf(s.Parent(), s.Common().Args[i]) {
				c.Viol("cover", c.Pos(p, s.Pos()), shortFn(s.Parent())+" "+namedOf(pr.Type()).Obj().Name(), "not every %s given is walked", strings.ToLower(namedOf(pr.Type()).Obj().Name()))
			}
		}
		if !any {
			continue
		}
	}
}

func isParamOf(f *ssa.Function, v ssa.Value) bool {
	p, ok := v.(*ssa.Parameter)
	return ok && p.Parent() == f
}

// testFile: the file is a test file.
func (w *astWalk) testFile() atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		call, ok := cond.(*ssa.Call)
		if !ok || !pol || calleeName(call) != "strings.HasSuffix" {
			return false
		}
		s, ok := constStr(call.Call.Args[1])
		return ok && s == "_test.go"
	}
}

// notMain: the package is not of the main module.
func (w *astWalk) notMain() atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		return !pol && w.isMainFlag(cond)
	}
}

func (w *astWalk) isMainFlag(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && isNamed(fa.X.Type(), editPkg, "Package") && fieldVar(fa.X.Type(), fa.Field).Name() == "Main"
}

// noteAll: a reference to a package variable is left alone only for one of
// the documented reasons.
func (w *astWalk) noteAll() {
	c, p := w.c, w.p
	n := 0
	for f := range w.coll {
		f := f
		if !isBoolT(f.Signature.Results().At(0).Type()) {
			continue
		}
		notes := func(i ssa.Instruction) bool {
			if s, ok := i.(*ssa.Store); ok {
				fa, ok := s.Addr.(*ssa.FieldAddr)
				return ok && isNamed(fa.X.Type(), editPkg, "Decl") && fieldVar(fa.X.Type(), fa.Field).Name() == "VarRefs"
			}
			return false
		}
		own := false
		eachInstr(f, func(i ssa.Instruction) { own = own || notes(i) })
		// a collector may leave it to another one
		pass := func(i ssa.Instruction) bool {
			if notes(i) {
				return true
			}
			cl, ok := i.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() == nil {
				return false
			}
			return cl.Call.StaticCallee() != f && w.coll[cl.Call.StaticCallee()]
		}
		n++
		name := shortFn(f) + " refuses"
		c.Obl("note", name)
		// every path to a return either notes or crosses an edge giving a reason
		type item struct {
			b  *ssa.BasicBlock
			ok bool
		}
		seen := map[item]bool{}
		work := []item{{f.Blocks[0], false}}
		var bad ssa.Instruction
		for len(work) > 0 {
			it := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[it] {
				continue
			}
			seen[it] = true
			done := it.ok
			for _, i := range it.b.Instrs {
				if pass(i) {
					done = true
				}
				if r, ok := i.(*ssa.Return); ok && !done {
					bad = r
				}
			}
			for si, s := range it.b.Succs {
				work = append(work, item{s, done || p.edgeHolds(it.b, si, w.refusal(f), 0)})
			}
		}
		_ = own
		if bad != nil {
			c.Viol("note", c.Pos(p, bad.Pos()), name, "a reference to a package variable can be left unnoted although its package may be instrumented, its declaration is known and its type could be told: it is never intercepted")
		}
	}
	if n == 0 {
		c.Viol("note", "-", "collector", "no step noting references was found")
	}
}

// refusal: what allows a reference to be left alone.
func (w *astWalk) refusal(f *ssa.Function) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		switch x := cond.(type) {
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.TypeAssert:
				// resolved to something else than a package variable
				return !pol && namedOf(t.AssertedType) != nil && (isNamed(t.AssertedType, rtypesPkg, "Object") || isNamed(t.AssertedType, rtypesPkg, "PkgVariable"))
			case *ssa.Call:
				// instrumentation of the package is ruled out
				g := t.Call.StaticCallee()
				return !pol && g != nil && fnPkg(g) != nil && fnPkg(g).Path() == "github.com/xhd2015/xgo/instrument/config"
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return false
			}
			if w.lookupFns()[g] {
				return pol // bound locally
			}
			if pk := fnPkg(g); pk != nil && pk.Path() == rtypesPkg && pol {
				// nothing is known about it
				return isUnknownCheck(g)
			}
			for _, pr := range g.Params {
				if isNamed(pr.Type(), editPkg, "Decl") {
					return !pol // its type cannot be told
				}
			}
			// the blank name
			if len(x.Call.Args) == 1 && isStringT(x.Call.Args[0].Type()) && pol && w.blankCheck(g) {
				return true
			}
			// &v.f of a variable holding no pointer
			if pk := fnPkg(g); pk != nil && pk.Path() == rtypesPkg && !pol && pointerCheck(g) {
				return w.addrTaken(f, x)
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			for _, v := range []ssa.Value{x.X, x.Y} {
				// the blank name
				if s, ok := constStr(v); ok && (s == "" || s == "_") {
					return (x.Op == token.EQL) == pol
				}
			}
			o := x.X
			if isNilConst(o) {
				o = x.Y
			} else if !isNilConst(x.Y) {
				// it is a constant: there is nothing to intercept
				return (x.Op == token.NEQ) == pol && (declVarKind(w.p, x.X, x.Y) || declVarKind(w.p, x.Y, x.X))
			}
			// no declaration
			return (x.Op == token.EQL) == pol && isNamed(o.Type(), editPkg, "Decl")
		}
		return false
	}
}

// isUnknownCheck: g answers whether its argument is the unknown type.
func isUnknownCheck(g *ssa.Function) bool {
	ok := false
	eachInstr(g, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.BinOp:
			for _, v := range []ssa.Value{x.X, x.Y} {
				if m, isM := v.(*ssa.MakeInterface); isM && isNamed(m.X.Type(), rtypesPkg, "Unknown") && x.Op == token.EQL {
					ok = true
				}
			}
		case *ssa.TypeAssert:
			if isNamed(x.AssertedType, rtypesPkg, "Unknown") {
				ok = true
			}
		}
	})
	return ok && len(g.Params) == 1
}

// pointerCheck: g answers whether a type's underlying type is a pointer.
func pointerCheck(g *ssa.Function) bool {
	ok := false
	eachInstr(g, func(i ssa.Instruction) {
		if x, isT := i.(*ssa.TypeAssert); isT && isNamed(x.AssertedType, rtypesPkg, "RawPtr") {
			ok = true
		}
	})
	return ok && len(g.Params) == 1
}

// blankCheck: g compares its argument with "" and "_" only.
func (w *astWalk) blankCheck(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || len(g.Params) != 1 {
		return false
	}
	ok, n := true, 0
	eachInstr(g, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.BinOp:
			v := x.X
			if v == ssa.Value(g.Params[0]) {
				v = x.Y
			}
			if s, isC := constStr(v); !isC || s != "" && s != "_" || x.Op != token.EQL {
				ok = false
			}
			n++
		case ssa.CallInstruction:
			ok = false
		}
	})
	return ok && n > 0
}

// addrTaken: ins runs only where the address operator is applied.
func (w *astWalk) addrTaken(f *ssa.Function, ins ssa.Instruction) bool {
	return w.p.Guarded(ins, func(cond ssa.Value, pol bool) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return false
		}
		o := b.X
		if isNilConst(o) {
			o = b.Y
		} else if !isNilConst(b.Y) {
			return false
		}
		return (b.Op == token.NEQ) == pol && isNamed(o.Type(), astPkg, "UnaryExpr")
	})
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// selRule: of pkg.Name the name is noted, of v.Field the variable.
func (w *astWalk) selRule() {
	c := w.c
	for f := range w.coll {
		sel := -1
		for i, pr := range f.Params {
			if isNamed(pr.Type(), astPkg, "SelectorExpr") {
				if sel >= 0 {
					sel = -2
				} else if sel == -1 {
					sel = i
				}
			}
		}
		inner := false
		eachInstr(f, func(i ssa.Instruction) {
			if cl, ok := i.(*ssa.Call); ok {
				if g := cl.Call.StaticCallee(); g != nil && g != f && w.coll[g] {
					inner = true
				}
			}
		})
		if sel < 0 || !inner {
			continue
		}
		for _, pkg := range []bool{true, false} {
			pkg := pkg
			want := map[bool]string{true: "n.Sel", false: "n.X"}[pkg]
			name := fmt.Sprintf("%s %s", shortFn(f), strings.TrimPrefix(want, "n."))
			c.Obl("note", name)
			r := &walkRun{w: w, roots: map[string]bool{"n": true}, facts: map[string]string{}}
			e := r.engine()
			old, oldCall := e.eval, e.call
			e.eval = func(st *estate, v ssa.Value) (aval, bool) {
				if t, ok := v.(*ssa.TypeAssert); ok && t.CommaOk && isNamed(t.AssertedType, rtypesPkg, "PkgVariable") {
					st.env[envKey{t, 1}] = avBool(pkg)
					return aval{}, true
				}
				if x, ok := v.(*ssa.Extract); ok {
					if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && isNamed(t.AssertedType, rtypesPkg, "PkgVariable") {
						return st.env[envKey{t, 1}], true
					}
				}
				return old(st, v)
			}
			bad, n := "", 0
			e.call = func(e *esp, st *estate, ins ssa.CallInstruction, fv aval, args []aval) []*estate {
				if g := ins.Common().StaticCallee(); g != nil && g != f && w.coll[g] {
					for i, pr := range g.Params {
						// the operand: an expression, not the selector itself
						if it, ok := pr.Type().Underlying().(*types.Interface); ok && types.Identical(it, w.exprI) {
							n++
							if p := pathOf(args[i]); p != want {
								bad = p
							}
						}
					}
				}
				return oldCall(e, st, ins, fv, args)
			}
			var av []aval
			for i, pr := range f.Params {
				switch {
				case w.isScope(pr.Type()):
					av = append(av, aval{k: 'S', s: "sc0"})
				case i == sel:
					av = append(av, aval{k: 'S', s: "n"})
				default:
					av = append(av, aval{})
				}
			}
			e.Exec(f, newState(), av, nil)
			if bad != "" || n == 0 || e.overflow {
				what := map[bool]string{true: "of a selector naming another package's variable the name is not what gets noted", false: "of a selector reading a field the operand is not what gets noted"}[pkg]
				c.Viol("note", c.Pos(w.p, f.Pos()), name, "%s", what)
			}
		}
	}
}

// declVarKind: k is a declaration's kind and v the kind of variables.
func declVarKind(p *Prog, k, v ssa.Value) bool {
	u, ok := k.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !isNamed(fa.X.Type(), editPkg, "Decl") || fieldVar(fa.X.Type(), fa.Field).Name() != "Kind" {
		return false
	}
	n, ok := constInt(v)
	if !ok {
		return false
	}
	ep := p.SSA.ImportedPackage(editPkg)
	if ep == nil {
		return false
	}
	c, ok := ep.Members["DeclKindVar"].(*ssa.NamedConst)
	return ok && c.Value.Int64() == n
}

// literalLen: the number of elements of a short list written out, 0 when v
// is none.
func literalLen(v ssa.Value) int {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return 0
	}
	if n := arrayLen(al.Type()); n > 0 && n <= 4 {
		return int(n)
	}
	return 0
}

// literalElem: the n-th element written out.
func literalElem(v ssa.Value, n int64) ssa.Value {
	al := v.(*ssa.Slice).X.(*ssa.Alloc)
	var out ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if i, ok := constInt(ia.Index); !ok || i != n {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				if out != nil {
					return nil
				}
				out = st.Val
			}
		}
	}
	return out
}

func useValues(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if rv, ok := r.(ssa.Value); ok {
				out = append(out, rv)
			}
		}
	}
	return out
}
