exec(open("/verif/meta/seeds/common.py").read())
S = [
dict(id="r01-ptr-typed-var", property="R01", needs="a mock for the value of a variable that is itself of a pointer type",
 breaks="a mock giving the value of a pointer-typed variable is kept for the reads that take its address, so reads of the value are not mocked",
 edits=[(T+"mock.go", '''		isPtr := checkVarType(fnv.Type(), replacerVal.Type(), true)
''', '''		checkVarType(fnv.Type(), replacerVal.Type(), true)
		isPtr := replacerVal.Type().Out(0).Kind() == reflect.Ptr
''')],
 demo=HEAD + '''var demoOne = 1
var demoPtr *int = &demoOne
var infoPtr = &core.FuncInfo{Kind: core.Kind_Var, Pkg: demoPkg, IdentityName: "demoPtr", Name: "demoPtr", ResNames: []string{"demoPtr"}, Var: &demoPtr}

func readPtr() *int {
	v := demoPtr
	xrt.XgoTrapVar(unsafe.Pointer(infoPtr), &demoPtr, &v)
	return v
}

func init() { xrt.FakeRegister(unsafe.Pointer(infoPtr)) }

func TestDemo(t *testing.T) {
	two := 2
	c := PushMockReplacer(&demoPtr, func() *int { return &two })
	defer c()
	if *readPtr() != 2 {
		t.Fatalf("the value read is not mocked")
	}
}
'''),
dict(id="r06-mock-skips", property="R06", needs="an interceptor and a mock on the same goroutine for the same call",
 breaks="interceptors do not see calls that are mocked",
 edits=[(T+"trap.go", '''	if !mocked {
		for _, h := range interceptors {
''', '''	if !mocked && mock == nil {
		for _, h := range interceptors {
''')],
 demo=HEAD.replace('import (', 'import (\n\t"context"') + '''func TestDemo(t *testing.T) {
	seen := 0
	c := PushInterceptor(func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		seen++
		return nil, nil
	}, nil)
	defer c()
	d := PushMockReplacer(demoAdd, func(a int, b int) int { return 7 })
	defer d()
	if r := demoAdd(1, 2); r != 7 {
		t.Fatalf("not mocked: %d", r)
	}
	if seen != 1 {
		t.Fatalf("the interceptor saw %d calls, want 1", seen)
	}
}
'''),
dict(id="r08-call-length", property="R08", needs="a trace with a call that begins some time after the trace",
 breaks="the end of a recorded call is measured from the call's own begin instead of the begin of the trace",
 edits=[(T+"trap.go", '''		endNs := end.UnixNano() - stk.Begin.UnixNano()
''', '''		endNs := end.UnixNano() - begin.UnixNano()
''')],
 demo=HEAD.replace('import (', 'import (\n\t"time"') + '''func TestDemo(t *testing.T) {
	wait(t, xrt.FakeGo(func() {
		d := getOrAttachStackData()
		d.hasStartedTracing = true
		time.Sleep(50 * time.Millisecond)
		demoAdd(1, 2)
		_, _, roots := stack.Get().Snapshot()
		if len(roots) != 1 {
			t.Errorf("%d roots", len(roots))
			return
		}
		if e := roots[0]; e.EndNs < e.BeginNs {
			t.Errorf("ends at %d, before its begin at %d", e.EndNs, e.BeginNs)
		}
	}))
}
'''),
]
