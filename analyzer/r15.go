package main

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["R15"] = propDef{run: checkR15, assumptions: []string{
		"the injected file is analysed as a package of its own, against declarations of the few things of Go's runtime it uses (getg, g, m, _panic, raceenabled, racerelease, raceacquire), which stand for the real ones",
		"the Go runtime calls __xgo_callback_on_create_g, __xgo_callback_on_exit_g and __xgo_callback_on_init_finished where the patches to it put the calls",
		"handlers and callbacks are installed from package initializers, one at a time",
	}}
}

// what the injected file uses of package runtime
const trapStub = `package runtime

import "unsafe"

type m struct {
	g0      *g
	curg    *g
	id      int64
	procid  uint64
	locks   int32
	mallocing int32
	throwing int32
}

type _panic struct {
	arg       interface{}
	link      *_panic
	__RETPC__ uintptr
	pc        uintptr
	sp        unsafe.Pointer
	recovered bool
	aborted   bool
	goexit    bool
	repanicked bool
	deferreturn bool
}

type g struct {
	_panic     *_panic
	m          *m
	goid       uint64
	parentGoid uint64
	racectx    uintptr
	labels     unsafe.Pointer
	startpc    uintptr
	gopc       uintptr
	waiting    unsafe.Pointer
	__xgo_g    __xgo_g
}

type mutex struct{ key uintptr }
type hex uint64

func getg() *g
func acquirem() *m
func releasem(mp *m)
func lock(l *mutex)
func unlock(l *mutex)
func systemstack(fn func())
func mcall(fn func(*g))
func throw(s string)
func add(p unsafe.Pointer, x uintptr) unsafe.Pointer
func noescape(p unsafe.Pointer) unsafe.Pointer
func isSystemGoroutine(gp *g, fixed bool) bool

const raceenabled = true

func racerelease(addr unsafe.Pointer)
func raceacquire(addr unsafe.Pointer)
func raceacquireg(gp *g, addr unsafe.Pointer)
func racereleaseg(gp *g, addr unsafe.Pointer)
func racereleasemerge(addr unsafe.Pointer)
func racereleasemergeg(gp *g, addr unsafe.Pointer)
func racereleaseacquire(addr unsafe.Pointer)

type Func struct{ opaque struct{} }

func FuncForPC(pc uintptr) *Func
func (f *Func) Name() string
func __xgo_get_pc_name_impl(pc uintptr) string
func NumCPU() int
func NumGoroutine() int
func KeepAlive(x interface{})
`

const timeStub = `package time

import "time"

type Time = time.Time
type Duration = time.Duration

func XgoRealNow() Time
func XgoRealSleep(d Duration)
func Now() Time
func Since(t Time) Duration
`

var buildIgnoreLine = regexp.MustCompile(`(?m)^//go:build ignore[ \t]*$`)

type hookModel struct {
	c     *Ctx
	p     *Prog
	trap  *ssa.Package
	link  *ssa.Package
	note  string
	curg  *types.Var // m.curg
	gm    *types.Var // g.m
	store *types.Var // g.__xgo_g
	gs    *types.Struct
	lists map[string]*ssa.Global
}

func checkR15(c *Ctx) {
	c.Rule("R15.list", "every callback registered is kept, after those registered before it, in the list that is later run")
	c.Rule("R15.create", "when a goroutine is created its storage is made empty and then every creation callback is called with the creator's and the new goroutine's storage")
	c.Rule("R15.exit", "when a goroutine exits every exit callback is called and then its storage is made empty before its slot can be reused")
	c.Rule("R15.init", "when initialization has finished that is recorded first, and then every callback registered so far is called")
	c.Rule("R15.trap", "each trap entry hands the description and its own arguments to the trap installed for it and returns its results; without one it does nothing")
	c.Rule("R15.register", "every function description registered, before or after the handler is installed, is given to the handler once")
	c.Rule("R15.state", "the current goroutine's storage, the panic in flight and the full name of a function are those asked for")
	c.Rule("R15.link", "each function of the linked runtime package calls the one of the same name in Go's runtime with all its arguments and returns its results")
	c.Rule("R15.layout", "a goroutine's storage has the same layout in the injected file and in the package reading it")
	rt := filepath.Join(c.Repo, "runtime", "internal", "runtime")
	gen := filepath.Join(c.Repo, "cmd", "xgo", "asset", "runtime_gen", "internal", "runtime")
	files := []string{"xgo_trap_template.go", "runtime_link_template.go", "runtime_link.go", "g.go"}
	same := true
	for _, f := range files {
		a, err := os.ReadFile(filepath.Join(rt, f))
		b, err2 := os.ReadFile(filepath.Join(gen, f))
		if err != nil {
			c.Viol("R15.trap", "-", f, "%v", err)
			return
		}
		if err2 != nil || !bytes.Equal(a, b) {
			same = false
		}
	}
	c.hooks(rt, "")
	if same {
		c.Note("the copy shipped in the binary (cmd/xgo/asset/runtime_gen) is byte for byte the same")
	} else {
		c.hooks(gen, " (copy shipped in the binary)")
	}
	c.Floor("R15.list", 3)
	c.Floor("R15.create", 1)
	c.Floor("R15.exit", 1)
	c.Floor("R15.init", 1)
	c.Floor("R15.trap", 6)
	c.Floor("R15.register", 2)
	c.Floor("R15.state", 3)
	c.Floor("R15.link", 8)
	c.Floor("R15.layout", 1)
}

// hookProg loads the templates of one directory as packages.
func (c *Ctx) hookProg(dir string) (*Prog, error) {
	base := filepath.Join(c.Repo, "runtime", "internal")
	read := func(f string) (string, error) {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return "", err
		}
		s := buildIgnoreLine.ReplaceAllString(string(b), "//")
		return "//line " + filepath.Join(dir, f) + ":1\n" + s, nil
	}
	trap, err := read("xgo_trap_template.go")
	if err != nil {
		return nil, err
	}
	link, err := read("runtime_link_template.go")
	if err != nil {
		return nil, err
	}
	trapPath := rtMod + "/internal/xgotmpl_veriftrap"
	timePath := rtMod + "/internal/xgotmpl_veriftime"
	link = regexp.MustCompile(`(?m)^(import[ \t]+|[ \t]+)"runtime"`).ReplaceAllString(link, `${1}runtime "`+trapPath+`"`)
	link = regexp.MustCompile(`(?m)^(import[ \t]+|[ \t]+)"time"`).ReplaceAllString(link, `${1}time "`+timePath+`"`)
	over := map[string][]byte{
		filepath.Join(base, "xgotmpl_veriftrap", "trap.go"):           []byte(trap),
		filepath.Join(base, "xgotmpl_veriftrap", "zz_verifstub.go"):   []byte(trapStub),
		filepath.Join(base, "xgotmpl_veriftrap", "zz_stub.s"):         {},
		filepath.Join(base, "xgotmpl_veriftime", "time_verifstub.go"): []byte(timeStub),
		filepath.Join(base, "xgotmpl_veriftime", "zz_stub.s"):         {},
		filepath.Join(base, "xgotmpl_veriflink", "link.go"):           []byte(link),
	}
	// the rest of the package, without the file the template replaces
	for _, f := range []string{"g.go", "runtime_link.go"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return nil, err
		}
		over[filepath.Join(base, "xgotmpl_verifplain", f)] = []byte("//line " + filepath.Join(dir, f) + ":1\n" + string(b))
	}
	over[filepath.Join(base, "xgotmpl_verifplain", "x_verifstub.go")] = []byte("package runtime\n\nfunc logError(msg string) {}\n")
	if b, err := os.ReadFile(filepath.Join(dir, "runtime_link.go")); err == nil && regexp.MustCompile(`(?m)^func logError\(`).Match(b) {
		over[filepath.Join(base, "xgotmpl_verifplain", "x_verifstub.go")] = []byte("package runtime\n")
	}
	return LoadOverlay(filepath.Join(c.Repo, "runtime"), nil, nil, over, "./internal/xgotmpl_veriftrap", "./internal/xgotmpl_veriftime", "./internal/xgotmpl_veriflink", "./internal/xgotmpl_verifplain")
}

func (c *Ctx) hooks(dir, note string) {
	p, err := c.hookProg(dir)
	if err != nil {
		panic(fmt.Errorf("load templates of %s: %w", dir, err))
	}
	c.Count("repository_functions", len(p.Funcs))
	m := &hookModel{c: c, p: p, note: note, lists: map[string]*ssa.Global{}}
	m.trap = p.pkg(rtMod + "/internal/xgotmpl_veriftrap")
	m.link = p.pkg(rtMod + "/internal/xgotmpl_veriflink")
	plain := p.pkg(rtMod + "/internal/xgotmpl_verifplain")
	if m.trap == nil || m.link == nil || plain == nil {
		c.Viol("R15.trap", "-", "templates", "not loaded")
		return
	}
	field := func(typ, name string) *types.Var {
		st := m.trap.Pkg.Scope().Lookup(typ).Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i)
			}
		}
		return nil
	}
	m.curg, m.gm, m.store = field("m", "curg"), field("g", "m"), field("g", "__xgo_g")
	m.gs, _ = m.store.Type().Underlying().(*types.Struct)
	m.registrars()
	m.create()
	m.exit()
	m.finished()
	m.traps()
	m.registration()
	m.state()
	m.links(plain)
	m.layout(plain)
}

func (m *hookModel) viol(rule string, pos token.Pos, construct, format string, args ...interface{}) {
	m.c.Viol(rule, m.c.Pos(m.p, pos), construct+m.note, format, args...)
}

func (m *hookModel) fn(rule, name string) *ssa.Function {
	f := m.trap.Func(name)
	if f == nil || len(f.Blocks) == 0 {
		m.c.Viol(rule, "-", name+m.note, "the injected file does not have this function")
		return nil
	}
	m.c.Obl(rule, name+m.note)
	return f
}

// isParam: v is parameter i of fn, unchanged.
func (m *hookModel) isParam(v ssa.Value, fn *ssa.Function, i int) bool {
	if i >= len(fn.Params) {
		return false
	}
	os := m.p.Origins(v, originOpts{noParams: true, noCalls: true})
	return len(os) == 1 && unwrapIface(os[0].Val) == fn.Params[i]
}

// always: fn can't return without passing is, but by edges excuse accepts.
func (m *hookModel) always(fn *ssa.Function, is func(ssa.Instruction) bool, excuse atomMatch) bool {
	return !m.p.reachesReturnAvoiding(fn, is, excuse)
}

// field load: v is x.f; returns x.
func fieldLoad(v ssa.Value, f *types.Var) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldVar(fa.X.Type(), fa.Field) != f {
		return nil
	}
	return fa.X
}

func (m *hookModel) one(v ssa.Value) ssa.Value {
	os := m.p.Origins(v, originOpts{noParams: true, noCalls: true})
	if len(os) != 1 {
		return nil
	}
	return os[0].Val
}

func (m *hookModel) isGetg(v ssa.Value) bool {
	cl, ok := m.one(v).(*ssa.Call)
	return ok && cl.Call.StaticCallee() != nil && cl.Call.StaticCallee() == m.trap.Func("getg")
}

// isCurg: v is the goroutine running (getg().m.curg).
func (m *hookModel) isCurg(v ssa.Value) bool {
	mv := fieldLoad(m.one(v), m.curg)
	if mv == nil {
		return false
	}
	g := fieldLoad(m.one(mv), m.gm)
	return g != nil && m.isGetg(g)
}

// storageOf: v is the address of a goroutine's storage, whatever its type;
// returns the goroutine.
func (m *hookModel) storageOf(v ssa.Value) ssa.Value {
	for {
		v = m.one(v)
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.FieldAddr:
			if fieldVar(x.X.Type(), x.Field) == m.store {
				return x.X
			}
		}
		return nil
	}
}

func isZeroVal(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if ok {
		if k.Value == nil {
			return true
		}
		switch k.Value.String() {
		case "false", "0", `""`:
			return true
		}
		return false
	}
	// a local never written to
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Addr != al || !isZeroVal(x.Val) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

// clears: the instructions making all (field < 0) or one field of the storage
// of a goroutine whose accepts zero.
func (m *hookModel) clears(fn *ssa.Function, whose func(ssa.Value) bool) (whole []ssa.Instruction, byField map[int][]ssa.Instruction, dirty []ssa.Instruction) {
	byField = map[int][]ssa.Instruction{}
	eachInstr(fn, func(ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		if g := m.storageOf(st.Addr); g != nil {
			if whose(g) && isZeroVal(st.Val) {
				whole = append(whole, st)
			} else {
				dirty = append(dirty, st)
			}
			return
		}
		if fa, ok := m.one(st.Addr).(*ssa.FieldAddr); ok {
			if g := m.storageOf(fa.X); g != nil {
				if whose(g) && isZeroVal(st.Val) {
					byField[fa.Field] = append(byField[fa.Field], st)
				} else {
					dirty = append(dirty, st)
				}
			}
		}
	})
	return
}

func in(l []ssa.Instruction) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		for _, x := range l {
			if x == i {
				return true
			}
		}
		return false
	}
}

// fields: per field of the storage, the instructions that make it zero.
func (m *hookModel) zeroing(fn *ssa.Function, whose func(ssa.Value) bool) (sets [][]ssa.Instruction, all, dirty []ssa.Instruction) {
	whole, by, dirty := m.clears(fn, whose)
	all = append(all, whole...)
	for i := 0; i < m.gs.NumFields(); i++ {
		sets = append(sets, append(append([]ssa.Instruction{}, whole...), by[i]...))
		all = append(all, by[i]...)
	}
	return sets, all, dirty
}

// callbackCall: the callee is an element of the list g; returns the index.
func (m *hookModel) elemOf(v ssa.Value, g *ssa.Global) ssa.Value {
	u, ok := m.one(v).(*ssa.UnOp)
	if !ok {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || !m.isList(ia.X, g) {
		return nil
	}
	return ia.Index
}

func (m *hookModel) isList(v ssa.Value, g *ssa.Global) bool {
	o := m.one(v)
	return o != nil && globalOf(o) == g
}

func (m *hookModel) registrars() {
	for _, name := range []string{"XgoOnCreateG", "XgoOnExitG", "XgoOnInitFinished"} {
		f := m.fn("R15.list", name)
		if f == nil {
			continue
		}
		var list *ssa.Global
		var st []ssa.Instruction
		eachInstr(f, func(ins ssa.Instruction) {
			s, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok {
				return
			}
			v := m.one(s.Val)
			if v == nil {
				v = s.Val
			}
			if x := appendedTo(v, g); x != nil && m.isParam(x, f, 0) {
				list = g
				st = append(st, s)
			} else {
				m.viol("R15.list", s.Pos(), name, "something other than the list followed by the callback given is stored in %s", g.Name())
			}
		})
		if list == nil || !m.always(f, in(st), nil) {
			m.viol("R15.list", f.Pos(), name, "a callback given is not always entered in the list")
			continue
		}
		m.lists[name] = list
		// nothing else changes the list
		for _, s := range m.p.globStores[list] {
			if s.Parent() == f || s.Parent().Name() == "init" && s.Parent().Synthetic != "" {
				continue
			}
			if name == "XgoOnInitFinished" && isNilConst(s.Val) {
				continue // looked at with the run
			}
			m.viol("R15.list", s.Pos(), name, "%s changes the list of callbacks", s.Parent().Name())
		}
	}
}

// runsAll: fn calls every element of list with the right arguments, on every
// path not excused; it returns the calls.
func (m *hookModel) runsAll(rule string, fn *ssa.Function, name string, list *ssa.Global, args func(cl *ssa.CallCommon) string, excuse atomMatch) (calls []ssa.Instruction) {
	var headers []*ssa.BasicBlock
	eachInstr(fn, func(ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
			return
		}
		if _, isB := ci.Common().Value.(*ssa.Builtin); isB {
			return
		}
		calls = append(calls, ins)
		if _, ok := ins.(*ssa.Call); !ok {
			m.viol(rule, ins.Pos(), name, "a callback is deferred or run in another goroutine")
			return
		}
		idx := m.elemOf(ci.Common().Value, list)
		if idx == nil {
			m.viol(rule, ins.Pos(), name, "what is called is not an element of the list of callbacks")
			return
		}
		if ok, l := loopWhole(m.p, idx, nil); !ok || !m.isList(l, list) {
			m.viol(rule, ins.Pos(), name, "not every callback of the list is called")
			return
		}
		if skipsIteration(ins) {
			m.viol(rule, ins.Pos(), name, "a callback of the list can be skipped")
		}
		if bad := args(ci.Common()); bad != "" {
			m.viol(rule, ins.Pos(), name, "%s", bad)
		}
		headers = append(headers, loopOf(ins.Block()))
	})
	if len(headers) == 0 {
		m.viol(rule, fn.Pos(), name, "no callback is called")
		return
	}
	if len(headers) > 1 {
		m.viol(rule, calls[1].Pos(), name, "the callbacks are called more than once")
	}
	first := map[ssa.Instruction]bool{}
	for _, h := range headers {
		if h != nil {
			first[h.Instrs[0]] = true
		}
	}
	empty := func(cond ssa.Value, pol bool) bool {
		if excuse != nil && excuse(cond, pol) {
			return true
		}
		l, op, k, ok := lenCompare(cond, pol)
		return ok && m.isList(l, list) && impliesEmpty(op, k)
	}
	if !m.always(fn, func(i ssa.Instruction) bool { return first[i] }, empty) {
		m.viol(rule, fn.Pos(), name, "can return without calling the callbacks")
	}
	return calls
}

// isNilTest: cond==pol says a value which accepts is nil.
func isNilTest(which func(ssa.Value) bool) atomMatch {
	return func(cond ssa.Value, pol bool) bool {
		x, ok := cond.(*ssa.BinOp)
		if !ok || (x.Op != token.EQL && x.Op != token.NEQ) || (x.Op == token.EQL) != pol {
			return false
		}
		return isNilConst(x.Y) && which(x.X) || isNilConst(x.X) && which(x.Y)
	}
}

func (m *hookModel) raceCall(fn *ssa.Function, name string, whose func(ssa.Value) bool) (out []ssa.Instruction) {
	eachInstr(fn, func(ins ssa.Instruction) {
		if cl, ok := ins.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && strings.HasPrefix(cl.Call.StaticCallee().Name(), name) && fnPkg(cl.Call.StaticCallee()) == m.trap.Pkg {
			if g := m.storageOf(cl.Call.Args[len(cl.Call.Args)-1]); g != nil && whose(g) {
				out = append(out, ins)
			}
		}
	})
	return
}

func (m *hookModel) create() {
	list := m.lists["XgoOnCreateG"]
	f := m.fn("R15.create", "__xgo_callback_on_create_g")
	if f == nil || list == nil || len(f.Params) != 2 {
		return
	}
	name := f.Name()
	parent := func(v ssa.Value) bool { return m.isParam(v, f, 0) }
	child := func(v ssa.Value) bool { return m.isParam(v, f, 1) }
	noChild := isNilTest(child)
	noParent := isNilTest(parent)
	calls := m.runsAll("R15.create", f, name, list, func(cl *ssa.CallCommon) string {
		if len(cl.Args) != 2 {
			return "takes other arguments"
		}
		if g := m.storageOf(cl.Args[0]); g == nil || !parent(g) {
			return "the first argument is not the creator's storage"
		}
		if g := m.storageOf(cl.Args[1]); g == nil || !child(g) {
			return "the second argument is not the new goroutine's storage"
		}
		return ""
	}, func(cond ssa.Value, pol bool) bool { return noChild(cond, pol) || noParent(cond, pol) })
	m.emptied("R15.create", f, name, child, noChild, calls, true)
	acq := m.raceCall(f, "raceacquire", child)
	sets, all, _ := m.zeroing(f, child)
	_ = sets
	for _, z := range all {
		if !alwaysBefore(z, in(acq)) {
			m.viol("R15.create", z.Pos(), name, "the storage is written without acquiring it from the slot's previous owner (race detector)")
		}
	}
}

// emptied: fn makes the storage zero on every path, before (create) or after
// (exit) the callbacks, and writes nothing else to it.
func (m *hookModel) emptied(rule string, f *ssa.Function, name string, whose func(ssa.Value) bool, excuse atomMatch, calls []ssa.Instruction, before bool) {
	sets, all, dirty := m.zeroing(f, whose)
	for _, d := range dirty {
		m.viol(rule, d.Pos(), name, "something other than nothing is put in a goroutine's storage, or another goroutine's storage is written")
	}
	for i, s := range sets {
		if !m.always(f, in(s), excuse) {
			m.viol(rule, f.Pos(), name, "can return without making the storage empty (field %s)", m.gs.Field(i).Name())
		}
		for _, cl := range calls {
			if before && !alwaysBefore(cl, in(s)) {
				m.viol(rule, cl.Pos(), name, "a callback can be called before the storage is made empty (field %s)", m.gs.Field(i).Name())
			}
		}
	}
	for _, z := range all {
		for _, cl := range calls {
			if before && mayFollow(cl, z) {
				m.viol(rule, z.Pos(), name, "the storage is made empty after a callback has been called: what it stored is lost")
			}
			if !before && mayFollow(z, cl) {
				m.viol(rule, cl.Pos(), name, "a callback can be called after the storage was made empty: what it stores is left for the next goroutine")
			}
		}
	}
}

func (m *hookModel) exit() {
	list := m.lists["XgoOnExitG"]
	f := m.fn("R15.exit", "__xgo_callback_on_exit_g")
	if f == nil || list == nil {
		return
	}
	name := f.Name()
	cur := func(v ssa.Value) bool { return m.isCurg(v) || m.isGetg(v) }
	calls := m.runsAll("R15.exit", f, name, list, func(cl *ssa.CallCommon) string { return "" }, nil)
	none := isNilTest(cur)
	m.emptied("R15.exit", f, name, cur, none, calls, false)
	rel := m.raceCall(f, "racerelease", cur)
	if !m.always(f, in(rel), none) {
		m.viol("R15.exit", f.Pos(), name, "can return without releasing the storage to the slot's next owner (race detector)")
	}
	_, all, _ := m.zeroing(f, cur)
	for _, z := range all {
		for _, r := range rel {
			if mayFollow(r, z) {
				m.viol("R15.exit", z.Pos(), name, "the storage is written after it was released to the slot's next owner (race detector)")
			}
		}
	}
}

func (m *hookModel) finished() {
	list := m.lists["XgoOnInitFinished"]
	f := m.fn("R15.init", "__xgo_callback_on_init_finished")
	q := m.fn("R15.init", "XgoInitFinished")
	if f == nil || q == nil || list == nil {
		return
	}
	name := f.Name()
	calls := m.runsAll("R15.init", f, name, list, func(*ssa.CallCommon) string { return "" }, nil)
	var flag *ssa.Global
	for _, r := range returnsOf(q) {
		if o := m.one(r.Results[0]); o != nil && globalOf(o) != nil && (flag == nil || flag == globalOf(o)) {
			flag = globalOf(o)
		} else {
			m.viol("R15.init", r.Pos(), q.Name(), "returns something other than what was recorded")
		}
	}
	if flag == nil {
		return
	}
	var set []ssa.Instruction
	for _, s := range m.p.globStores[flag] {
		if k, ok := constBool(s.Val); !ok || !k || s.Parent() != f {
			if s.Parent().Synthetic == "" || ok && k {
				m.viol("R15.init", s.Pos(), flag.Name(), "is written elsewhere, or to false")
			}
			continue
		}
		set = append(set, s)
	}
	if !m.always(f, in(set), nil) {
		m.viol("R15.init", f.Pos(), name, "can return without recording that initialization has finished")
	}
	for _, cl := range calls {
		if !alwaysBefore(cl, in(set)) {
			m.viol("R15.init", cl.Pos(), name, "a callback can run before it is recorded that initialization has finished")
		}
	}
	for _, s := range m.p.globStores[list] {
		if s.Parent() != f {
			continue
		}
		eachInstr(f, func(ins ssa.Instruction) {
			if u, ok := ins.(*ssa.UnOp); ok && u.X == list && mayFollow(s, u) {
				m.viol("R15.init", u.Pos(), name, "the list is read after it was cleared")
			}
		})
	}
}

// dataWord: v is the data word of an interface value; returns that value.
func (m *hookModel) dataWord(v ssa.Value) ssa.Value {
	u, ok := m.one(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fa.Field != 1 {
		return nil
	}
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		if m.p.sizeof(st.Field(i).Type()) != 8 {
			return nil
		}
	}
	x := fa.X
	for {
		x = m.one(x)
		if cv, ok := x.(*ssa.Convert); ok {
			x = cv.X
			continue
		}
		break
	}
	al, ok := x.(*ssa.Alloc)
	if !ok || !isEmptyIfaceType(al.Type().(*types.Pointer).Elem()) {
		return nil
	}
	var val ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if val != nil {
				return nil
			}
			val = s.Val
		}
	}
	return val
}

// dynCalls: the calls of a variable.
func (m *hookModel) varCalls(f *ssa.Function, g *ssa.Global) (out []*ssa.Call) {
	eachInstr(f, func(ins ssa.Instruction) {
		if cl, ok := ins.(*ssa.Call); ok && !cl.Call.IsInvoke() {
			if o := m.one(cl.Call.Value); o != nil && globalOf(o) == g {
				out = append(out, cl)
			}
		}
	})
	return
}

func (m *hookModel) traps() {
	for _, pair := range [][2]string{{"XgoTrap", "XgoSetTrap"}, {"XgoTrapVar", "XgoSetVarTrap"}, {"XgoTrapVarPtr", "XgoSetVarPtrTrap"}} {
		set := m.fn("R15.trap", pair[1])
		f := m.fn("R15.trap", pair[0])
		if set == nil || f == nil {
			continue
		}
		var v *ssa.Global
		var st []ssa.Instruction
		eachInstr(set, func(ins ssa.Instruction) {
			if s, ok := ins.(*ssa.Store); ok {
				g, ok := s.Addr.(*ssa.Global)
				if !ok || !m.isParam(s.Val, set, 0) || v != nil && v != g {
					m.viol("R15.trap", s.Pos(), pair[1], "stores something other than the trap given in one variable")
					return
				}
				v = g
				st = append(st, s)
			}
		})
		if v == nil || !m.always(set, in(st), nil) {
			m.viol("R15.trap", set.Pos(), pair[1], "can return without installing the trap")
			continue
		}
		for _, s := range m.p.globStores[v] {
			if s.Parent() != set && s.Parent().Synthetic == "" {
				m.viol("R15.trap", s.Pos(), pair[1], "%s changes the trap installed", s.Parent().Name())
			}
		}
		unset := isNilTest(func(x ssa.Value) bool { o := m.one(x); return o != nil && globalOf(o) == v })
		calls := m.varCalls(f, v)
		var ins []ssa.Instruction
		for _, cl := range calls {
			ins = append(ins, cl)
			if !m.p.blockGuarded(cl.Block(), func(cond ssa.Value, pol bool) bool { return unset(cond, !pol) }, 0) {
				m.viol("R15.trap", cl.Pos(), pair[0], "calls the trap when none is installed")
			}
			for i, a := range cl.Call.Args {
				ok := false
				if i == 0 {
					w := m.dataWord(a)
					ok = w != nil && m.isParam(w, f, 0)
				} else {
					ok = m.isParam(a, f, i)
				}
				if !ok {
					m.viol("R15.trap", cl.Pos(), pair[0], "argument %d of the trap is not what was given", i+1)
				}
			}
			for _, o := range calls {
				if mayFollow(cl, o) {
					m.viol("R15.trap", o.Pos(), pair[0], "the trap can be called twice")
				}
			}
		}
		if len(calls) == 0 || !m.always(f, in(ins), unset) {
			m.viol("R15.trap", f.Pos(), pair[0], "can return without calling the trap although one is installed")
		}
		for _, r := range returnsOf(f) {
			for i, res := range r.Results {
				for _, o := range m.p.Origins(res, originOpts{noParams: true, noCalls: true}) {
					if isZeroVal(o.Val) && m.p.originGuarded(o, r, unset) {
						continue
					}
					if ex, ok := o.Val.(*ssa.Extract); ok && ex.Index == i && in(ins)(ex.Tuple.(ssa.Instruction)) {
						continue
					}
					m.viol("R15.trap", r.Pos(), pair[0], "result %d is not the trap's", i+1)
				}
			}
		}
	}
}

func (m *hookModel) registration() {
	set := m.fn("R15.register", "XgoSetupRegisterHandler")
	reg := m.fn("R15.register", "XgoRegister")
	if set == nil || reg == nil {
		return
	}
	var h *ssa.Global
	var hst []ssa.Instruction
	eachInstr(set, func(ins ssa.Instruction) {
		if s, ok := ins.(*ssa.Store); ok {
			if g, ok := s.Addr.(*ssa.Global); ok && m.isParam(s.Val, set, 0) {
				h = g
				hst = append(hst, s)
			}
		}
	})
	if h == nil || !m.always(set, in(hst), nil) {
		m.viol("R15.register", set.Pos(), set.Name(), "can return without installing the handler")
		return
	}
	for _, s := range m.p.globStores[h] {
		if s.Parent() != set && s.Parent().Synthetic == "" || s.Parent() == set && !in(hst)(s) {
			m.viol("R15.register", s.Pos(), set.Name(), "%s changes the handler installed", s.Parent().Name())
		}
	}
	unset := isNilTest(func(x ssa.Value) bool { o := m.one(x); return o != nil && globalOf(o) == h })
	// registering
	var staged *ssa.Global
	var done []ssa.Instruction
	for _, cl := range m.varCalls(reg, h) {
		done = append(done, cl)
		if w := m.dataWord(cl.Call.Args[0]); w == nil || !m.isParam(w, reg, 0) {
			m.viol("R15.register", cl.Pos(), reg.Name(), "the handler is not given the description")
		}
		if !m.p.blockGuarded(cl.Block(), func(cond ssa.Value, pol bool) bool { return unset(cond, !pol) }, 0) {
			m.viol("R15.register", cl.Pos(), reg.Name(), "calls the handler when none is installed")
		}
	}
	nh := len(done)
	eachInstr(reg, func(ins ssa.Instruction) {
		s, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		g, ok := s.Addr.(*ssa.Global)
		if !ok {
			return
		}
		v := m.one(s.Val)
		if v == nil {
			v = s.Val
		}
		if x := appendedTo(v, g); x == nil || !m.isParam(x, reg, 0) || staged != nil && staged != g {
			m.viol("R15.register", s.Pos(), reg.Name(), "something other than the list followed by the description is kept")
			return
		}
		staged = g
		done = append(done, s)
		if !m.p.blockGuarded(s.Block(), unset, 0) {
			m.viol("R15.register", s.Pos(), reg.Name(), "a description is put aside although the handler is installed: nothing will give it to the handler")
		}
	})
	if nh == 0 || staged == nil || !m.always(reg, in(done), nil) {
		m.viol("R15.register", reg.Pos(), reg.Name(), "can return without giving the description to the handler or putting it aside")
	}
	for _, a := range done {
		for _, b := range done {
			if mayFollow(a, b) {
				m.viol("R15.register", b.Pos(), reg.Name(), "a description can be handled twice")
			}
		}
	}
	if staged == nil {
		return
	}
	for _, s := range m.p.globStores[staged] {
		if s.Parent() == reg || s.Parent().Synthetic != "" {
			continue
		}
		if s.Parent() != set || !isNilConst(s.Val) {
			m.viol("R15.register", s.Pos(), s.Parent().Name(), "changes the list of descriptions put aside")
			continue
		}
		eachInstr(set, func(ins ssa.Instruction) {
			if u, ok := ins.(*ssa.UnOp); ok && u.X == staged && mayFollow(s, u) {
				m.viol("R15.register", u.Pos(), set.Name(), "the list put aside is read after it was cleared")
			}
		})
	}
	// draining
	first := map[ssa.Instruction]bool{}
	eachInstr(set, func(ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || ci.Common().IsInvoke() {
			return
		}
		o := m.one(ci.Common().Value)
		if o == nil || o != set.Params[0] && globalOf(o) != h {
			return
		}
		if _, ok := ins.(*ssa.Call); !ok {
			m.viol("R15.register", ins.Pos(), set.Name(), "the handler is deferred or run in another goroutine")
			return
		}
		w := m.dataWord(ci.Common().Args[0])
		var idx ssa.Value
		if w != nil {
			idx = m.elemOf(w, staged)
		}
		if idx == nil {
			m.viol("R15.register", ins.Pos(), set.Name(), "the handler is not given a description put aside")
			return
		}
		if dir, l := loopRangeDir(m.p, idx); dir != 1 || !m.isList(l, staged) || !loopIsWhole(m.p, idx) || skipsIteration(ins) {
			m.viol("R15.register", ins.Pos(), set.Name(), "not every description put aside is given to the handler, in order")
			return
		}
		if globalOf(o) == h && !alwaysBefore(ins, in(hst)) {
			m.viol("R15.register", ins.Pos(), set.Name(), "calls the handler before it is installed")
		}
		if len(first) > 0 {
			m.viol("R15.register", ins.Pos(), set.Name(), "the descriptions put aside are handled twice")
		}
		if lh := loopOf(ins.Block()); lh != nil {
			first[lh.Instrs[0]] = true
		}
	})
	if len(first) == 0 || !m.always(set, func(i ssa.Instruction) bool { return first[i] }, func(cond ssa.Value, pol bool) bool {
		l, op, k, ok := lenCompare(cond, pol)
		return ok && m.isList(l, staged) && impliesEmpty(op, k)
	}) {
		m.viol("R15.register", set.Pos(), set.Name(), "can return without giving the handler what was registered before it")
	}
}

// curState: v is what XgoGetCurG returns.
func (m *hookModel) curState(v ssa.Value) bool {
	for {
		v = m.one(v)
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.Call:
			return x.Call.StaticCallee() != nil && x.Call.StaticCallee() == m.trap.Func("XgoGetCurG")
		}
		return false
	}
}

func (m *hookModel) state() {
	if f := m.fn("R15.state", "XgoGetCurG"); f != nil {
		none := isNilTest(m.isCurg)
		for _, r := range returnsOf(f) {
			for _, o := range m.p.Origins(r.Results[0], originOpts{noParams: true, noCalls: true}) {
				if isZeroVal(o.Val) && m.p.originGuarded(o, r, none) {
					continue
				}
				if g := m.storageOf(o.Val); g == nil || !m.isCurg(g) {
					m.viol("R15.state", r.Pos(), f.Name(), "returns something other than the storage of the goroutine running")
				}
			}
		}
	}
	if f := m.fn("R15.state", "XgoIsLooseJsonMarshaling"); f != nil {
		none := isNilTest(func(v ssa.Value) bool { return m.isCurg(v) || m.curState(v) })
		for _, r := range returnsOf(f) {
			for _, o := range m.p.Origins(r.Results[0], originOpts{noParams: true, noCalls: true}) {
				if isZeroVal(o.Val) && m.p.originGuarded(o, r, none) {
					continue
				}
				ok := false
				if u, isU := o.Val.(*ssa.UnOp); isU {
					if fa, isF := u.X.(*ssa.FieldAddr); isF && isBoolT(fieldVar(fa.X.Type(), fa.Field).Type()) {
						g := m.storageOf(fa.X)
						ok = g != nil && m.isCurg(g) || m.curState(fa.X)
					}
				}
				if !ok {
					m.viol("R15.state", r.Pos(), f.Name(), "returns something other than the flag of the goroutine running")
				}
			}
		}
	}
	if f := m.fn("R15.state", "XgoGetFullPCName"); f != nil {
		for _, r := range returnsOf(f) {
			cl, ok := m.one(r.Results[0]).(*ssa.Call)
			if !ok || cl.Call.StaticCallee() != m.trap.Func("__xgo_get_pc_name_impl") || !m.isParam(cl.Call.Args[0], f, 0) {
				m.viol("R15.state", r.Pos(), f.Name(), "returns something other than the full name for the address given")
			}
		}
	}
	f := m.fn("R15.state", "XgoPeekPanic")
	if f == nil {
		return
	}
	pf := func(name string) *types.Var {
		st := m.trap.Pkg.Scope().Lookup("_panic").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i)
			}
		}
		return nil
	}
	var gp *types.Var
	gst := m.trap.Pkg.Scope().Lookup("g").Type().Underlying().(*types.Struct)
	for i := 0; i < gst.NumFields(); i++ {
		if gst.Field(i).Name() == "_panic" {
			gp = gst.Field(i)
		}
	}
	isP := func(v ssa.Value) bool {
		g := fieldLoad(m.one(v), gp)
		return g != nil && (m.isGetg(g) || m.isCurg(g))
	}
	isF := func(name string, v ssa.Value) bool {
		x := fieldLoad(v, pf(name))
		return x != nil && isP(x)
	}
	conds := []atomMatch{
		isNilTest(isP),
		func(cond ssa.Value, pol bool) bool { return pol && isF("goexit", cond) },
		func(cond ssa.Value, pol bool) bool { return pol && isF("recovered", cond) },
		isNilTest(func(v ssa.Value) bool { return m.isCurg(v) || m.isGetg(v) }),
	}
	any := func(cond ssa.Value, pol bool) bool {
		for _, k := range conds {
			if k(cond, pol) {
				return true
			}
		}
		return false
	}
	n := 0
	for _, r := range returnsOf(f) {
		for i, want := range []string{"arg", "__RETPC__"} {
			for _, o := range m.p.Origins(r.Results[i], originOpts{noParams: true, noCalls: true}) {
				if isF(want, o.Val) {
					n++
					for j, what := range []string{"there is a panic", "it is not Goexit", "it is not recovered"} {
						k := conds[j]
						if !m.p.originGuarded(o, r, func(cond ssa.Value, pol bool) bool { return k(cond, !pol) }) {
							m.viol("R15.state", r.Pos(), f.Name(), "a panic is reported without knowing that %s", what)
						}
					}
					continue
				}
				if !isZeroVal(o.Val) {
					m.viol("R15.state", r.Pos(), f.Name(), "result %d is not that of the panic in flight", i+1)
					continue
				}
				if !m.onlyUnder(o, r, any) {
					m.viol("R15.state", r.Pos(), f.Name(), "a panic in flight can be reported as none")
				}
			}
		}
	}
	if n < 2 {
		m.viol("R15.state", f.Pos(), f.Name(), "never reports the panic in flight and where it was raised")
	}
}

// onlyUnder: o gets to r only by way of an edge on which atom holds (or one
// of several, each on its own edge).
func (m *hookModel) onlyUnder(o Origin, r ssa.Instruction, atom atomMatch) bool {
	if m.p.originGuarded(o, r, atom) {
		return true
	}
	free := func(b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			if x == b {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for i, s := range x.Succs {
				if m.p.edgeHolds(x, i, atom, 0) {
					continue
				}
				if walk(s) {
					return true
				}
			}
			return false
		}
		return walk(b.Parent().Blocks[0])
	}
	if len(o.Edges) == 0 {
		return !free(r.Block())
	}
	for _, e := range o.Edges {
		if !free(e.pred) || m.p.edgeGuarded(e.pred, e.phi.Block(), atom, 0) {
			return true
		}
	}
	return false
}

func (m *hookModel) links(plain *ssa.Package) {
	c := m.c
	scope := plain.Pkg.Scope()
	for _, n := range scope.Names() {
		fo, ok := scope.Lookup(n).(*types.Func)
		if !ok || !fo.Exported() {
			continue
		}
		pf := plain.Func(n)
		if fo.Type().(*types.Signature).Recv() != nil || !strings.Contains(m.p.Fset.Position(pf.Pos()).Filename, "runtime_link") {
			continue
		}
		c.Obl("R15.link", n+m.note)
		f := m.link.Func(n)
		if f == nil {
			m.viol("R15.link", pf.Pos(), n, "the template taking this file's place does not have this function")
			continue
		}
		if !types.Identical(f.Signature, pf.Signature) {
			m.viol("R15.link", f.Pos(), n, "has another signature than in the file the template takes the place of")
		}
	}
	for _, n := range m.link.Pkg.Scope().Names() {
		fo, ok := m.link.Pkg.Scope().Lookup(n).(*types.Func)
		if !ok || !fo.Exported() {
			continue
		}
		f := m.link.Func(n)
		c.Obl("R15.link", n+" forwards"+m.note)
		target := m.trap.Func(n)
		if target == nil && n == "XgoRealTimeNow" {
			target = m.p.pkg(rtMod + "/internal/xgotmpl_veriftime").Func("XgoRealNow")
		}
		if target == nil {
			m.viol("R15.link", f.Pos(), n, "the injected file has no function of this name")
			continue
		}
		var calls []ssa.Instruction
		eachInstr(f, func(ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			cl, isCall := ins.(*ssa.Call)
			if !isCall || cl.Call.StaticCallee() != target {
				m.viol("R15.link", ins.Pos(), n, "calls %s", calleeName(ci))
				return
			}
			calls = append(calls, ins)
			for i, a := range cl.Call.Args {
				if !m.isParam(a, f, i) {
					m.viol("R15.link", ins.Pos(), n, "argument %d is not passed on", i+1)
				}
			}
		})
		if len(calls) == 0 || !m.always(f, in(calls), nil) {
			m.viol("R15.link", f.Pos(), n, "can return without calling %s of Go's runtime", target.Name())
		}
		for _, a := range calls {
			for _, b := range calls {
				if mayFollow(a, b) {
					m.viol("R15.link", b.Pos(), n, "calls it twice")
				}
			}
		}
		for _, r := range returnsOf(f) {
			for i, res := range r.Results {
				o := m.one(res)
				if ex, ok := o.(*ssa.Extract); ok && ex.Index == i {
					o = ex.Tuple
				} else if len(r.Results) > 1 {
					o = nil
				}
				if oi, ok := o.(ssa.Instruction); !ok || !in(calls)(oi) {
					m.viol("R15.link", r.Pos(), n, "result %d is not passed on", i+1)
				}
			}
		}
	}
}

func (m *hookModel) layout(plain *ssa.Package) {
	o := plain.Pkg.Scope().Lookup("G")
	m.c.Obl("R15.layout", "G and __xgo_g"+m.note)
	if o == nil {
		m.c.Viol("R15.layout", "-", "G"+m.note, "not found")
		return
	}
	st, _ := o.Type().Underlying().(*types.Struct)
	if st == nil || st.NumFields() > m.gs.NumFields() {
		m.viol("R15.layout", o.Pos(), "G", "has fields the storage in Go's runtime does not have")
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		a, b := st.Field(i), m.gs.Field(i)
		if a.Name() != b.Name() || !types.Identical(a.Type(), b.Type()) {
			m.viol("R15.layout", a.Pos(), "G", "field %d is %s %s here and %s %s in the injected file", i+1, a.Name(), a.Type(), b.Name(), b.Type())
		}
	}
}
