package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Errors: every error a step reports reaches the one who asked for the step.

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// errIndex: the position of the error among a signature's results.
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// neverFails: calls whose error is documented to be always nil.
func neverFails(ins ssa.CallInstruction) bool {
	c := ins.Common()
	var recv types.Type
	name := ""
	if c.IsInvoke() {
		recv, name = c.Value.Type(), c.Method.Name()
		if isNamed(recv, "hash", "Hash") {
			return true
		}
	} else if f := c.StaticCallee(); f != nil {
		name = f.Name()
		if r := f.Signature.Recv(); r != nil {
			recv = r.Type()
		} else if f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(name, "Print") {
			return true
		} else if f.Pkg != nil && (f.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(name, "Fprint") || f.Pkg.Pkg.Path() == "io" && name == "WriteString") && len(c.Args) > 0 {
			return neverFailingWriter(c.Args[0])
		}
	}
	if recv == nil {
		return false
	}
	return strings.HasPrefix(name, "Write") && memWriter(recv)
}

func memWriter(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return isNamed(t, "strings", "Builder") || isNamed(t, "bytes", "Buffer") || isNamed(t, "hash", "Hash")
}

// neverFailingWriter: in-memory buffers, and the process's own standard streams.
func neverFailingWriter(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return memWriter(x.X.Type()) || stdStream(x.X)
	case *ssa.ChangeInterface:
		return memWriter(x.X.Type()) || neverFailingWriter(x.X)
	}
	return memWriter(v.Type())
}

func stdStream(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
			return g.Name() == "Stderr" || g.Name() == "Stdout"
		}
	}
	return false
}

// errSite is one call and the error it returns.
type errSite struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	what string
}

func calleeLabel(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return types.TypeString(com.Value.Type(), func(p *types.Package) string { return p.Name() }) + "." + com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		if f.Parent() != nil {
			return "func literal"
		}
		s := f.RelString(nil)
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "io/ioutil" {
			s = "os." + f.Name()
			if f.Name() == "ReadAll" {
				s = "io.ReadAll"
			}
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(f.Name(), "Fprint") {
			s = "fmt.Fprint"
		}
		s = strings.Replace(s, "os.File).WriteString", "os.File).Write", 1)
		return strings.Replace(s, "github.com/xhd2015/xgo/", "", -1)
	}
	return "a function value"
}

// errWalk follows one error along the paths of its function.
type errWalk struct {
	p    *Prog
	fn   *ssa.Function
	res  int
	site ssa.CallInstruction
	bad  map[string]ssa.Instruction
	why  map[string]bool
	seen map[string]bool
	n    int
}

type errState struct {
	vals    map[ssa.Value]bool   // values that are the error, or made from it
	cells   map[ssa.Value]bool   // variables holding it
	nonnil  map[ssa.Value]bool   // other errors known to be there
	known   bool                 // the error is there
	told    bool                 // it was handed on to something
	excused string               // its kind was looked at
	preds   map[ssa.Value]string // conditions that tell its kind
}

func (s *errState) clone() *errState {
	n := &errState{vals: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, nonnil: map[ssa.Value]bool{}, preds: map[ssa.Value]string{}, known: s.known, told: s.told, excused: s.excused}
	for v := range s.vals {
		n.vals[v] = true
	}
	for v := range s.cells {
		n.cells[v] = true
	}
	for v := range s.nonnil {
		n.nonnil[v] = true
	}
	for v, l := range s.preds {
		n.preds[v] = l
	}
	return n
}

func (s *errState) key() string {
	var l []string
	for v := range s.vals {
		l = append(l, v.Name())
	}
	for v := range s.cells {
		l = append(l, "*"+v.Name())
	}
	for v := range s.nonnil {
		l = append(l, "!"+v.Name())
	}
	for v, k := range s.preds {
		l = append(l, "?"+v.Name()+k)
	}
	sort.Strings(l)
	return fmt.Sprint(l, s.known, s.told, s.excused)
}

// discriminator: functions that tell what kind of error it is.
func discriminator(c ssa.CallInstruction) string {
	f := c.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return ""
	}
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "os.IsNotExist":
		return "ErrNotExist"
	case "os.IsExist":
		return "ErrExist"
	case "os.IsPermission":
		return "ErrPermission"
	case "os.IsTimeout":
		return "timeout"
	case "errors.Is":
		return sentinel(c.Common().Args[1])
	case "errors.As":
		t := c.Common().Args[1].Type()
		if mi, ok := c.Common().Args[1].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		return kindOf(t)
	}
	return ""
}

func kindOf(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return kindOf(p.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// sentinel: the name of the variable an error is compared with.
func sentinel(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name()
		}
	case *ssa.ChangeInterface:
		return sentinel(x.X)
	case *ssa.MakeInterface:
		if c, ok := x.X.(*ssa.Const); ok {
			return c.Type().String() + " " + c.String()
		}
		return kindOf(x.X.Type())
	}
	return "?"
}

// wraps: the call's result is an error whenever it is called.
func makesError(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

func (w *errWalk) report(kind string, at ssa.Instruction) {
	if w.bad[kind] == nil {
		w.bad[kind] = at
	}
}

func (w *errWalk) run() {
	ins := w.site.(ssa.Instruction)
	b := ins.Block()
	st := &errState{vals: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, nonnil: map[ssa.Value]bool{}, preds: map[ssa.Value]string{}}
	if v, ok := w.site.(*ssa.Call); ok && isErrorType(v.Type()) {
		st.vals[v] = true
	}
	w.block(b, instrIndex(ins)+1, st)
}

func (w *errWalk) block(b *ssa.BasicBlock, from int, st *errState) {
	if w.n > 20000 {
		w.report("too many paths", b.Instrs[0])
		return
	}
	w.n++
	for i := from; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		if ins == w.site.(ssa.Instruction) {
			// asked again
			if !w.settled(st) {
				w.report("lost", ins)
			}
			return
		}
		switch x := ins.(type) {
		case *ssa.Extract:
			if k, ok := st.preds[x.Tuple]; ok && x.Index == 1 {
				w.pred(st, x, k)
			}
			if x.Tuple == w.site.Value() && isErrorType(x.Type()) {
				st.vals[x] = true
			}
			if c, ok := x.Tuple.(*ssa.Call); ok && st.vals[c] && isErrorType(x.Type()) {
				st.vals[x] = true
			}
		case *ssa.Phi:
			// handled on the edge
		case *ssa.Store:
			base, part := x.Addr, false
			for {
				if ia, ok := base.(*ssa.IndexAddr); ok {
					base, part = ia.X, true
				} else if fa, ok := base.(*ssa.FieldAddr); ok {
					base, part = fa.X, true
				} else {
					break
				}
			}
			a, local := base.(*ssa.Alloc)
			switch {
			case st.vals[x.Val] && local:
				st.cells[a] = true
				if part && a.Heap {
					if _, ok := base.(*ssa.Alloc); ok && !isArrayPtr(a.Type()) {
						st.told = true // kept in a record
					}
				}
			case st.vals[x.Val]:
				st.told = true
			case local && !part:
				delete(st.cells, a)
			}
			if local && !part {
				delete(st.nonnil, a)
				if st.nonnil[x.Val] {
					st.nonnil[a] = true
				}
			}
		case *ssa.UnOp:
			if st.cells[x.X] {
				st.vals[x] = true
			}
			if st.nonnil[x.X] {
				st.nonnil[x] = true
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Slice:
			for _, op := range ins.Operands(nil) {
				if st.vals[*op] || st.cells[*op] {
					st.vals[ins.(ssa.Value)] = true
				}
			}
		case *ssa.TypeAssert:
			if st.vals[x.X] {
				if !x.CommaOk {
					break // panics, or the error goes on under another type
				}
				st.preds[x] = kindOf(x.AssertedType)
			}
		case ssa.CallInstruction:
			uses := false
			com := x.Common()
			for _, a := range com.Args {
				if st.vals[a] || st.cells[a] {
					uses = true
				}
			}
			if com.IsInvoke() && st.vals[com.Value] {
				uses = true
			}
			if uses {
				if d := discriminator(x); d != "" {
					if v := x.Value(); v != nil {
						w.pred(st, v, d)
					}
				} else {
					st.told = true
					if v := x.Value(); v != nil {
						if _, isgo := ins.(*ssa.Call); isgo {
							st.vals[v] = true
						}
					}
				}
			}
			if v, ok := ins.(*ssa.Call); ok && makesError(x) {
				st.nonnil[v] = true
			}
		case *ssa.BinOp:
			// used as a value: e == nil decides something
			if (st.vals[x.X] || st.vals[x.Y]) && !onlyTested(x) {
				st.told = true
			}
			if st.vals[x.X] && !isNilConst(x.Y) || st.vals[x.Y] && !isNilConst(x.X) {
				if isErrorType(x.X.Type()) {
					o := x.Y
					if st.vals[x.Y] {
						o = x.X
					}
					w.pred(st, x, sentinel(o))
				} else if st.vals[x.X] || st.vals[x.Y] {
					// text made from it
					st.vals[x] = true
				}
			}
		case *ssa.Send:
			if st.vals[x.X] {
				st.told = true
			}
		case *ssa.MapUpdate:
			if st.vals[x.Value] {
				st.told = true
			}
		case *ssa.MakeClosure:
			for _, bd := range x.Bindings {
				if st.cells[bd] {
					// may be looked at by the function
				}
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			w.ret(x, st)
			return
		case *ssa.If:
			w.branch(b, x, st)
			return
		case *ssa.Jump:
			w.edge(b, b.Succs[0], st)
			return
		}
	}
	// no terminator: select/unreachable
	for _, s := range b.Succs {
		w.edge(b, s, st.clone())
	}
}

func onlyTested(x *ssa.BinOp) bool {
	refs := x.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch r.(type) {
		case *ssa.If, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (w *errWalk) branch(b *ssa.BasicBlock, x *ssa.If, st *errState) {
	for i := 0; i < 2; i++ {
		n := st.clone()
		pol := i == 0
		c, cp := x.Cond, pol
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, cp = u.X, !cp
		}
		if k, ok := st.preds[c]; ok {
			if bo, ok := c.(*ssa.BinOp); ok && bo.Op == token.NEQ {
				cp = !cp
			}
			if cp {
				n.excused, n.known = k, true
			}
		} else if w.asked(c) {
			if cp {
				n.excused = "asked"
			}
		} else if v, isnil, ok := nilTest(x.Cond, pol); ok {
			if w.isErr(v, st) {
				if isnil {
					continue // no error: nothing to lose
				}
				n.known = true
			} else if isErrorType(v.Type()) {
				if st.nonnil[v] && isnil {
					continue
				}
				if !isnil {
					n.nonnil[v] = true
				}
			}
		}
		w.edge(b, b.Succs[i], n)
	}
}

// asked: the condition is a switch of the caller's for ignoring errors: a
// boolean field only set by a method called IgnoreError.
func (w *errWalk) asked(c ssa.Value) bool {
	u, ok := c.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	if fv == nil {
		return false
	}
	n := 0
	for _, f := range w.p.Funcs {
		bad := false
		eachInstr(f, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			if a, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(a.X.Type(), a.Field) == fv {
				n++
				if f.Name() != "IgnoreError" {
					bad = true
				}
			}
		})
		if bad {
			return false
		}
	}
	return n > 0
}

// pred: v tells whether the error is of kind k.
func (w *errWalk) pred(st *errState, v ssa.Value, k string) {
	tested := true
	if refs := v.Referrers(); refs != nil {
		for _, r := range *refs {
			switch u := r.(type) {
			case *ssa.If, *ssa.DebugRef:
			case *ssa.UnOp:
				if u.Op != token.NOT || u.Referrers() == nil {
					tested = false
					break
				}
				for _, r2 := range *u.Referrers() {
					if _, ok := r2.(*ssa.If); !ok {
						tested = false
					}
				}
			default:
				tested = false
			}
		}
	}
	if tested {
		st.preds[v] = k
	} else {
		st.excused = k
	}
}

// isErr: v is the error itself (not something made from it).
func (w *errWalk) isErr(v ssa.Value, st *errState) bool {
	return st.vals[v] && isErrorType(v.Type())
}

// nilTest: the condition holding with polarity pol says v is (not) nil.
func nilTest(cond ssa.Value, pol bool) (v ssa.Value, isnil bool, ok bool) {
	for {
		u, k := cond.(*ssa.UnOp)
		if !k || u.Op.String() != "!" {
			break
		}
		cond, pol = u.X, !pol
	}
	bo, k := cond.(*ssa.BinOp)
	if !k {
		return nil, false, false
	}
	x := bo.X
	if isNilConst(x) {
		x = bo.Y
	} else if !isNilConst(bo.Y) {
		return nil, false, false
	}
	switch bo.Op.String() {
	case "==":
		return x, pol, true
	case "!=":
		return x, !pol, true
	}
	return nil, false, false
}

func (w *errWalk) edge(from, to *ssa.BasicBlock, st *errState) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	n := st.clone()
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		e := ph.Edges[idx]
		delete(n.vals, ph)
		delete(n.nonnil, ph)
		if st.vals[e] {
			n.vals[ph] = true
		}
		if st.nonnil[e] {
			n.nonnil[ph] = true
		}
	}
	// values computed again in the block are new
	k := fmt.Sprint(to.Index, n.key())
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.block(to, 0, n)
}

func (w *errWalk) settled(st *errState) bool {
	if st.told || st.excused != "" {
		return true
	}
	for v := range st.vals {
		if v != w.site.Value() {
			if ph, ok := v.(*ssa.Phi); ok && ph != nil {
				return true // carried around the loop
			}
		}
	}
	return len(st.cells) > 0
}

func (w *errWalk) ret(r *ssa.Return, st *errState) {
	if w.res < 0 {
		for _, v := range r.Results {
			if st.vals[v] {
				return
			}
		}
		if !st.told && st.excused == "" {
			if st.known {
				w.report("ignored", r)
			} else {
				w.report("unchecked", r)
			}
		} else if st.excused != "" && !st.told {
			w.why[st.excused] = true
		}
		return
	}
	v := r.Results[w.res]
	if st.vals[v] || st.nonnil[v] {
		return
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		_ = mi
		return // a new error
	}
	if st.excused != "" {
		w.why[st.excused] = true
		return
	}
	kind := "unchecked"
	if st.known {
		kind = "swallowed"
		if st.told {
			kind = "reported but not returned"
		}
	} else if st.told {
		return
	}
	w.report(kind, r)
}

// errSites: the calls of the functions in scope that return an error.
func errSites(p *Prog, in func(*ssa.Function) bool) []errSite {
	var out []errSite
	for _, f := range p.Funcs {
		if !in(f) {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			if _, ok := c.Common().Value.(*ssa.Builtin); ok {
				return
			}
			if errIndex(c.Common().Signature()) < 0 || neverFails(c) || makesError(c) {
				return
			}
			out = append(out, errSite{f, c, calleeLabel(c)})
		})
	}
	return out
}

func init() {
	props["E01"] = propDef{run: runE01}
}

//go:embed errok.txt
var errOK string

// errAllowed reads the table of judged discards: "function <- callee [kind] n : reason".
func errAllowed() map[string]int {
	out := map[string]int{}
	for _, l := range strings.Split(errOK, "\n") {
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		i := strings.Index(l, " :: ")
		f := strings.Fields(l[:i])
		n, err := strconv.Atoi(f[len(f)-1])
		if err != nil {
			panic(l)
		}
		out[strings.Join(f[:len(f)-1], " ")] += n
	}
	return out
}

func errScope(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	path := strings.TrimPrefix(f.Pkg.Pkg.Path(), "github.com/xhd2015/xgo/")
	return !strings.Contains(path, "/vendir/") && !strings.Contains(path, "test-explorer") && !strings.Contains(path, "/coverage") && !strings.HasPrefix(path, "cmd/go-tool")
}

func runE01(c *Ctx) {
	p := c.Root()
	c.Rule("recover", "a recovered panic becomes the error of the function, panics again, or is reported by one that returns no error")
	c.Rule("exit", "a command whose step failed ends the process with a status other than 0")
	c.Rule("propagated", "the error of a step is, on every path on which there is one, returned (itself, wrapped or replaced by another error), or, by a function that returns no error, handed to something; an exception is a step of the table of judged discards")
	c.Rule("kind", "an error is only let pass for being of a certain kind (not existing, end of file) where the table says so, and then only on the path on which it is of that kind")
	allowed := errAllowed()
	sites := errSites(p, errScope)
	sort.Slice(sites, func(i, j int) bool { return sites[i].call.Pos() < sites[j].call.Pos() })
	for _, s := range sites {
		top := s.fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		con := strings.Replace(shortFn(top), "github.com/xhd2015/xgo/", "", -1) + " <- " + s.what
		var found []string
		kinds := map[string]bool{}
		if _, ok := s.call.(*ssa.Call); !ok {
			found = append(found, "the call is deferred or a goroutine: its error is dropped")
		} else {
			w := &errWalk{p: p, fn: s.fn, res: errIndex(s.fn.Signature), site: s.call, bad: map[string]ssa.Instruction{}, why: map[string]bool{}, seen: map[string]bool{}}
			w.run()
			for k, at := range w.bad {
				found = append(found, fmt.Sprintf("%s on the path to %s", k, c.Pos(p, at.Pos())))
			}
			kinds = w.why
		}
		sort.Strings(found)
		c.Obl("propagated", con)
		if len(found) > 0 {
			if allowed[con] > 0 {
				allowed[con]--
			} else {
				c.Viol("propagated", c.Pos(p, s.call.Pos()), con, "the error is %s", strings.Join(found, "; "))
			}
		}
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Obl("kind", con+" "+k)
			if (s.what == "os.Stat" || s.what == "os.Lstat") && k == "ErrNotExist" {
				continue // asking whether it exists
			}
			if kk := con + " " + k; allowed[kk] > 0 {
				allowed[kk]--
			} else {
				c.Viol("kind", c.Pos(p, s.call.Pos()), kk, "the error is let pass for being %s", k)
			}
		}
	}
	runRecovers(c, p)
	runExits(c, p)
	c.Floor("recover", 5)
	c.Floor("exit", 8)
	c.Floor("propagated", 300)
	c.Floor("kind", 10)
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// runRecovers: what becomes of a recovered panic.
func runRecovers(c *Ctx, p *Prog) {
	for _, f := range p.Funcs {
		if !errScope(f) {
			continue
		}
		f := f
		eachInstr(f, func(ins ssa.Instruction) {
			call, ok := ins.(*ssa.Call)
			if !ok {
				return
			}
			if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "recover" {
				return
			}
			con := strings.Replace(shortFn(f), "github.com/xhd2015/xgo/", "", -1)
			if f.Parent() != nil {
				con = strings.Replace(shortFn(f.Parent()), "github.com/xhd2015/xgo/", "", -1)
			}
			c.Obl("recover", con)
			if con == "(*instrument/instrument_var.UseContext).useTypeInFile" {
				// an internal signal: the type cannot be written; its "no" is the result
				return
			}
			hasErr := false
			for _, fv := range f.FreeVars {
				if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && isErrorType(pt.Elem()) {
					hasErr = true
				}
			}
			if f.Parent() != nil && errIndex(f.Parent().Signature) >= 0 {
				hasErr = true
			}
			seen := map[string]bool{}
			var bad ssa.Instruction
			var walk func(b *ssa.BasicBlock, i int, told bool)
			walk = func(b *ssa.BasicBlock, i int, told bool) {
				if i == 0 {
					k := fmt.Sprint(b.Index, told)
					if seen[k] {
						return
					}
					seen[k] = true
				}
				for ; i < len(b.Instrs); i++ {
					switch x := b.Instrs[i].(type) {
					case *ssa.Panic:
						return
					case *ssa.Store:
						if fv, ok := x.Addr.(*ssa.FreeVar); ok && hasErr && !isNilConst(x.Val) && !failedAssert(p, x.Val, b) {
							if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && isErrorType(pt.Elem()) {
								told = true
							}
						}
					case *ssa.Call:
						if !hasErr && dependsOn(x, call, 0) {
							told = true
						}
					case *ssa.Return:
						if !told && bad == nil {
							bad = x
						}
						return
					case *ssa.If:
						for k, s := range b.Succs {
							if v, isnil, ok := nilTest(x.Cond, k == 0); ok && v == ssa.Value(call) && isnil {
								continue
							}
							walk(s, 0, told)
						}
						return
					}
				}
				for _, s := range b.Succs {
					walk(s, 0, told)
				}
			}
			walk(call.Block(), instrIndex(call)+1, false)
			if bad != nil {
				c.Viol("recover", c.Pos(p, call.Pos()), con, "a recovered panic leaves no error behind on the path to %s", c.Pos(p, bad.Pos()))
			}
		})
	}
}

// failedAssert: v is what an assertion gives that is not known to hold at b.
func failedAssert(p *Prog, v ssa.Value, b *ssa.BasicBlock) bool {
	e, ok := v.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	if ta, ok := e.Tuple.(*ssa.TypeAssert); !ok || !ta.CommaOk {
		return false
	}
	return !p.blockGuarded(b, func(cond ssa.Value, pol bool) bool {
		o, ok := cond.(*ssa.Extract)
		return ok && pol && o.Tuple == e.Tuple && o.Index == 1
	}, 0)
}

// dependsOn: ins has v among the values it is computed from.
func dependsOn(ins ssa.Instruction, v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	for _, op := range ins.Operands(nil) {
		if *op == nil {
			continue
		}
		if *op == v {
			return true
		}
		if a, ok := (*op).(*ssa.Alloc); ok && a.Referrers() != nil {
			for _, r := range *a.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && (st.Val == v || dependsOnVal(st.Val, v, d+1)) {
							return true
						}
					}
				}
			}
		}
		if dependsOnVal(*op, v, d+1) {
			return true
		}
	}
	return false
}

func dependsOnVal(x, v ssa.Value, d int) bool {
	if x == v {
		return true
	}
	if _, ok := x.(*ssa.Phi); ok && d > 4 {
		return false
	}
	if i, ok := x.(ssa.Instruction); ok {
		return dependsOn(i, v, d)
	}
	return false
}

// exits: f always ends the process; zero tells whether it may do so with 0
// while there is an error.
func alwaysExits(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	for _, r := range returnsOf(f) {
		found := false
		for _, ins := range r.Block().Instrs {
			if _, ok := isCallTo(ins, "os.Exit"); ok {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return len(returnsOf(f)) > 0
}

// nonZeroCode: the exit code computed while there is an error is not 0.
func nonZeroCode(p *Prog, v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := constInt(x)
		return ok && n != 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !nonZeroCode(p, e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		f := call.Call.StaticCallee()
		if f == nil || f.Blocks == nil {
			return false
		}
		return codesOf(p, f, x.Index, d+1)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch f.RelString(nil) {
		case "(*os.ProcessState).ExitCode", "(*os/exec.ExitError).ExitCode":
			return true // asked of a command that failed
		}
		if f.Blocks == nil {
			return false
		}
		return codesOf(p, f, 0, d+1)
	}
	return false
}

// codesOf: result i of f is not 0 unless f's error parameter is nil.
func codesOf(p *Prog, f *ssa.Function, i, d int) bool {
	var ep ssa.Value
	for _, q := range f.Params {
		if isErrorType(q.Type()) {
			ep = q
		}
	}
	for _, r := range returnsOf(f) {
		if ep != nil && p.blockGuarded(r.Block(), func(v ssa.Value, pol bool) bool {
			x, isnil, ok := nilTest(v, pol)
			return ok && isnil && x == ep
		}, 0) {
			continue
		}
		if !nonZeroCode(p, r.Results[i], d) {
			return false
		}
	}
	return true
}

// runExits: in the entry points of the commands, a failure ends the process
// with a status.
func runExits(c *Ctx, p *Prog) {
	for _, f := range p.Funcs {
		if !errScope(f) || f.Parent() != nil || f.Pkg == nil {
			continue
		}
		path := f.Pkg.Pkg.Path()
		con := strings.Replace(shortFn(f), "github.com/xhd2015/xgo/", "", -1)
		entry := f.Name() == "main" && f.Pkg.Pkg.Name() == "main" || f.Name() == "Main" && errIndex(f.Signature) < 0
		if !entry || !strings.Contains(path, "cmd/xgo") {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			call, ok := ins.(*ssa.Call)
			if !ok || errIndex(call.Call.Signature()) < 0 || neverFails(call) || makesError(call) {
				return
			}
			lab := calleeLabel(call)
			if strings.HasPrefix(lab, "(*os.File).") || strings.HasPrefix(lab, "fmt.") {
				return
			}
			c.Obl("exit", con+" <- "+lab)
			var ev ssa.Value = call
			if !isErrorType(call.Type()) {
				ev = nil
				for _, r := range *call.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && isErrorType(e.Type()) {
						ev = e
					}
				}
			}
			if ev == nil {
				return // propagated reports it
			}
			seen := map[*ssa.BasicBlock]bool{}
			bad := ""
			var walk func(b *ssa.BasicBlock, i int)
			walk = func(b *ssa.BasicBlock, i int) {
				if i == 0 {
					if seen[b] {
						return
					}
					seen[b] = true
				}
				for ; i < len(b.Instrs); i++ {
					switch x := b.Instrs[i].(type) {
					case *ssa.Panic:
						return
					case *ssa.Call:
						if cc, ok := isCallTo(x, "os.Exit"); ok {
							if !nonZeroCode(p, cc.Common().Args[0], 0) {
								bad = "exits with a status that may be 0 at " + c.Pos(p, x.Pos())
							}
							return
						}
						if g := x.Call.StaticCallee(); alwaysExits(g) {
							for _, r := range returnsOf(g) {
								for _, gi := range r.Block().Instrs {
									if cc, ok := isCallTo(gi, "os.Exit"); ok && !nonZeroCode(p, cc.Common().Args[0], 0) {
										bad = "exits with a status that may be 0 at " + c.Pos(p, gi.Pos())
									}
								}
							}
							return
						}
					case *ssa.Return:
						bad = "goes on to return at " + c.Pos(p, x.Pos())
						return
					case *ssa.If:
						for k, s := range b.Succs {
							if v, isnil, ok := nilTest(x.Cond, k == 0); ok && isnil && sameErr(v, ev) {
								continue
							}
							walk(s, 0)
						}
						return
					}
				}
				for _, s := range b.Succs {
					walk(s, 0)
				}
			}
			walk(call.Block(), instrIndex(call)+1)
			if bad != "" {
				c.Viol("exit", c.Pos(p, call.Pos()), con+" <- "+lab, "the command, failing here, %s", bad)
			}
		})
	}
}

// sameErr: v is the error ev, possibly read back from the variable it was put in.
func sameErr(v, ev ssa.Value) bool {
	if v == ev {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if e == ev {
				return true
			}
		}
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == ev {
			return true
		}
	}
	return false
}
