exec(open("/verif/meta/seeds/common.py").read())
S = [
dict(id="r01-data-replaced", property="R01", needs="two registrations of one goroutine that is not tracing",
 breaks="a goroutine's data is replaced by new, empty data at each registration while it is not tracing, which loses the registrations before",
 edits=[(T+"stack_data.go", '''	if ok {
		return d
	}
	d = &StackData{}
''', '''	if ok && d.hasStartedTracing {
		return d
	}
	d = &StackData{}
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	c := PushMockReplacer(demoAdd, func(a int, b int) int { return 7 })
	_ = c
	d := PushMockReplacer(demoMul, func(a int, b int) int { return 8 })
	_ = d
	if r := demoAdd(1, 2); r != 7 {
		t.Fatalf("the first mock is lost: %d", r)
	}
	if r := demoMul(1, 2); r != 8 {
		t.Fatalf("the second mock is lost: %d", r)
	}
}
'''),
dict(id="r01-one-global-recorder", property="R01", needs="a single process-wide interceptor and an interceptor of the goroutine",
 breaks="a single process-wide interceptor is not run where the goroutine has its own",
 edits=[(T+"stack_data.go", '''	if len(globalInterceptors) > 0 && len(localInterceptors) > 0 {
''', '''	if len(globalInterceptors) > 1 && len(localInterceptors) > 0 {
''')],
 demo=HEAD.replace('import (', 'import (\n\t"context"') + '''func TestDemo(t *testing.T) {
	seen := 0
	pre := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		seen++
		return nil, nil
	}
	globalInterceptorHolder.interceptors = append(globalInterceptorHolder.interceptors, &recorderHolder{
		pre: func(fn *core.FuncInfo, recv interface{}, args []interface{}, results []interface{}) (interface{}, bool) {
			seen += 100
			return nil, false
		},
	})
	c := PushInterceptor(pre, nil)
	defer c()
	demoAdd(1, 2)
	if seen != 101 {
		t.Fatalf("seen %d, want 101", seen)
	}
}
'''),
dict(id="r04-last-recorder-only", property="R04", needs="a goroutine created while its creator has several recorders of one function",
 breaks="a new goroutine only gets the last recorder of each function",
 edits=[(T+"init.go", '''	for pc, recorders := range recorders {
		newRecorders[pc] = make([]*recorderHolder, len(recorders))
''', '''	for pc, recorders := range recorders {
		if len(recorders) > 1 {
			recorders = recorders[len(recorders)-1:]
		}
		newRecorders[pc] = make([]*recorderHolder, len(recorders))
''')],
 demo=HEAD + """func TestDemo(t *testing.T) {
	wait(t, xrt.FakeGo(func() {
		n := 0
		for i := 0; i < 3; i++ {
			PushRecorder(demoAdd, func(a int, b int, r int) { n++ }, nil)
		}
		wait(t, xrt.FakeGo(func() { demoAdd(1, 2) }))
		if n != 3 {
			t.Errorf("%d recorders of 3 inherited", n)
		}
	}))
}
"""),
dict(id="r04-go-node-nested", property="R04", needs="a goroutine started from a traced call that is itself called from a traced call",
 breaks="goroutines started from nested calls are not recorded below the call that created them",
 edits=[("runtime/internal/stack/stack.go", '''	if c.Top == nil {
		return
	}
	child := &Entry{
''', '''	top := c.Top
	if top == nil {
		return
	}
	for top.ParentID != 0 {
		return
	}
	child := &Entry{
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	stk := &stack.Stack{Begin: xrt.XgoRealTimeNow()}
	now := xrt.XgoRealTimeNow()
	outer := stk.NewEntry(now, "outer")
	oldOuter := stk.Push(outer)
	inner := stk.NewEntry(now, "inner")
	oldInner := stk.Push(inner)
	stk.AppendGoChild(1, func() *stack.Stack { return nil })
	if len(inner.Children) != 1 {
		t.Fatalf("%d nodes below the call that created the goroutine", len(inner.Children))
	}
	_, _ = oldOuter, oldInner
}
'''),
dict(id="r04-filter-not-inherited", property="R04", needs="a trace with a filter whose calls create goroutines",
 breaks="a created goroutine does not get its creator's trace filter, so calls that are filtered out are recorded there",
 edits=[(T+"init.go", '''		newStackData.filterTrace = stackData.filterTrace
''', '''		if newStackData.filterTrace != nil {
			newStackData.filterTrace = stackData.filterTrace
		}
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	wait(t, xrt.FakeGo(func() {
		d := getOrAttachStackData()
		d.hasStartedTracing = true
		d.filterTrace = func(fn *core.FuncInfo) bool { return false }
		wait(t, xrt.FakeGo(func() {
			if d := getStackData(); d == nil || d.filterTrace == nil {
				t.Errorf("the trace filter is not inherited")
			}
		}))
	}))
}
'''),
]
