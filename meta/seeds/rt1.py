HEAD = '''package trap

import (
	"testing"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/internal/stack"
)

var _ = unsafe.Pointer(nil)
var _ core.FuncInfo
var _ xrt.G
var _ stack.Stack

'''
T = "runtime/internal/trap/"
S = [
dict(id="r01-varptr-kind", property="R01", needs="a value recorder and pointer accesses of the same variable on one goroutine",
 breaks="a recorder for values of a variable is also run for pointer accesses of it (and pointer recorders are lost)",
 edits=[(T+"stack_data.go", "localVarPtrRecorders = c.interceptors.varPtrRecorder[varAddr]", "localVarPtrRecorders = c.interceptors.varRecorder[varAddr]")],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	var vals, ptrs int
	c1 := PushRecorder(&demoVar, func(v int) { vals++ }, nil)
	c2 := PushVarPtrRecordHandler(uintptr(unsafe.Pointer(&demoVar)), func(fn *core.FuncInfo, res interface{}) (interface{}, bool) { ptrs++; return nil, false }, nil)
	readVar()
	readVarPtr()
	c2()
	c1()
	if vals != 1 || ptrs != 1 {
		t.Fatalf("value recorder ran %d times, pointer recorder %d times, want 1 and 1", vals, ptrs)
	}
}
'''),
dict(id="r01-late-init-scope", property="R01", needs="a recorder registered on one goroutine after initialisation while another goroutine calls the function",
 breaks="the scope of a function recorder is decided by whether the goroutine already has a stack, so a goroutine's first recorder becomes process-wide",
 edits=[(T+"record.go", '''	holder := &globalInterceptorHolder
	if runtime.XgoInitFinished() {
		stack := getOrAttachStackData()
		holder = &stack.interceptors
	}
	if holder.recorder == nil {''', '''	holder := &globalInterceptorHolder
	if stack := getStackData(); stack != nil {
		holder = &stack.interceptors
	}
	if holder.recorder == nil {''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	pc := demoPC(t, demoAdd)
	ran := 0
	wait(t, xrt.FakeGo(func() {
		PushRecordHandler(pc, nil, func(fn *core.FuncInfo, recv interface{}, args []interface{}, results []interface{}) (interface{}, bool) {
			ran++
			return nil, false
		}, nil)
	}))
	wait(t, xrt.FakeGo(func() { demoAdd(1, 2) }))
	if ran != 0 {
		t.Fatalf("recorder of another goroutine ran")
	}
}
'''),
dict(id="r02-stale-list", property="R02", needs="register recorder A, then B on the same variable, cancel A: B must remain",
 breaks="cancelling an earlier variable recorder also drops the ones registered after it",
 edits=[(T+"record.go", '''	h := &varRecordHolder{pre: pre, post: post}
	holder.varRecorder[varAddr] = append(holder.varRecorder[varAddr], h)
	return func() {
		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
			panic("global recorder cannot be cancelled after init finished")
		}
		list := holder.varRecorder[varAddr]
''', '''	h := &varRecordHolder{pre: pre, post: post}
	list := append(holder.varRecorder[varAddr], h)
	holder.varRecorder[varAddr] = list
	return func() {
		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
			panic("global recorder cannot be cancelled after init finished")
		}
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	var a, b int
	ca := PushRecorder(&demoVar, func(v int) { a++ }, nil)
	cb := PushRecorder(&demoVar, func(v int) { b++ }, nil)
	ca()
	readVar()
	if a != 0 || b != 1 {
		t.Fatalf("a=%d b=%d, want 0 and 1", a, b)
	}
	cb()
}
'''),
dict(id="r03-recorder-recv", property="R03", needs="an interceptor on a bound method and a call on another instance",
 breaks="an interceptor added for one instance's method runs for every instance",
 edits=[(T+"record.go", "	return PushRecordHandler(trappingPC, recvPtr, pre, post)\n", "	return PushRecordHandler(trappingPC, nil, pre, post)\n")],
 demo=HEAD.replace('import (', 'import (\n\t"context"') + '''func TestDemo(t *testing.T) {
	x, y := &demoT{1}, &demoT{2}
	n := 0
	c := PushRecorderInterceptor(x.Get, func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		n++
		return nil, nil
	}, nil)
	defer c()
	y.Get(1)
	if n != 0 {
		t.Fatalf("ran for another instance")
	}
	x.Get(1)
	if n != 1 {
		t.Fatalf("ran %d times for its instance", n)
	}
}
'''),
dict(id="r04-shared-list", property="R04", needs="creator with three recorders of a function (spare capacity), creates a goroutine; then both register one more",
 breaks="creator and created goroutine share a recorder list's backing array, so one's new recorder overwrites the other's",
 edits=[(T+"init.go", '''		newRecorders[pc] = make([]*varRecordHolder, len(recorders))
		for i, recorder := range recorders {
			newRecorders[pc][i] = &varRecordHolder{
				pre:  recorder.pre,
				post: recorder.post,
			}
		}
''', '''		newRecorders[pc] = recorders
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	wait(t, xrt.FakeGo(func() {
		for i := 0; i < 3; i++ {
			PushRecorder(&demoVar, func(v int) {}, nil)
		}
		child := 0
		next, ok := make(chan bool), make(chan bool)
		done := xrt.FakeGo(func() {
			PushRecorder(&demoVar, func(v int) { child++ }, nil)
			ok <- true
			<-next
			readVar()
		})
		<-ok
		mine := 0
		PushRecorder(&demoVar, func(v int) { mine++ }, nil)
		next <- true
		wait(t, done)
		if child != 1 || mine != 0 {
			t.Errorf("child's recorder ran %d times, creator's %d times, want 1 and 0", child, mine)
		}
	}))
}
'''),
dict(id="r05-varptr-depth", property="R05", needs="a general interceptor whose callback takes the address of an instrumented variable",
 breaks="general interceptors run for variable pointer accesses made from inside a callback, and recurse",
 edits=[(T+"var.go", '''				tracing = true
			}
		}
		interceptors = stkData.getGeneralInterceptors()
	}
	if mock == nil && len(recorders)''', '''				tracing = true
			}
		}
	}
	interceptors = stkData.getGeneralInterceptors()
	if mock == nil && len(recorders)''')],
 demo=HEAD.replace('import (', 'import (\n\t"context"') + '''func TestDemo(t *testing.T) {
	n := 0
	c := PushInterceptor(func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		n++
		if n < 50 {
			readVarPtr()
		}
		return nil, nil
	}, nil)
	defer c()
	demoAdd(1, 2)
	if n != 1 {
		t.Fatalf("the interceptor ran %d times for one call", n)
	}
}
'''),
dict(id="r06-shared-data", property="R06", needs="two interceptors with pre and post and different data, and a variable access",
 breaks="post callbacks of interceptors on a variable access all get the data of the last one's pre callback",
 edits=[(T+"var.go", '''	var postInterceptors []func()
	for _, interceptor := range interceptors {
''', '''	var postInterceptors []func()
	var data interface{}
	for _, interceptor := range interceptors {
'''), (T+"var.go", '''		var data interface{}
		if interceptor.pre != nil {
''', '''		if interceptor.pre != nil {
''')],
 demo=HEAD.replace('import (', 'import (\n\t"context"') + '''func TestDemo(t *testing.T) {
	got := map[int]interface{}{}
	for i := 0; i < 2; i++ {
		i := i
		c := PushInterceptor(func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
			return i, nil
		}, func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object, data interface{}) error {
			got[i] = data
			return nil
		})
		defer c()
	}
	readVar()
	if got[0] != 0 || got[1] != 1 {
		t.Fatalf("data mixed up: %v", got)
	}
}
'''),
dict(id="r07-shallow-snapshot", property="R07", needs="an export taken while an entry below the first level is still growing",
 breaks="a snapshot shares the deeper entries with the live tree, which goes on changing while it is exported",
 edits=[("runtime/internal/stack/stack.go", "	cp.Children = cloneEntries(e.Children)\n", "	cp.Children = append([]*Entry(nil), e.Children...)\n")],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	stk := &stack.Stack{Begin: xrt.XgoRealTimeNow()}
	stk.PushNew(xrt.XgoRealTimeNow(), "a", nil)
	stk.PushNew(xrt.XgoRealTimeNow(), "b", nil)
	_, _, roots := stk.Snapshot()
	stk.PushNew(xrt.XgoRealTimeNow(), "c", nil)
	if n := len(roots[0].Children[0].Children); n != 0 {
		t.Fatalf("snapshot changed: %d", n)
	}
}
'''),
dict(id="r13-filtered-mock", property="R13", needs="a trace in progress whose filter leaves out a function that is mocked",
 breaks="while tracing, a mocked function that the trace filter leaves out runs its original body",
 edits=[(T+"trap.go", '''			// without tracing, mock becomes simpler
			if mock != nil {''', '''			// without tracing, mock becomes simpler
			if mock != nil && !isTracing {''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	wait(t, xrt.FakeGo(func() {
		c := PushMockReplacer(demoAdd, func(a, b int) int { return 100 })
		defer c()
		d := getOrAttachStackData()
		d.hasStartedTracing = true
		d.filterTrace = func(fn *core.FuncInfo) bool { return fn.Name != "demoAdd" }
		if r := demoAdd(1, 2); r != 100 {
			t.Errorf("mock not applied: %d", r)
		}
	}))
}
'''),
]
