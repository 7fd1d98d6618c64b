exec(open("/verif/meta/seeds/common.py").read())
S = [
dict(id="r08-write-error", property="R08", needs="a trace whose output file cannot be written, then further calls on the same goroutine",
 breaks="when the trace cannot be written the goroutine stays marked as tracing for good, so a later trace is never started",
 edits=[(T+"trap.go", '''					err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644)
					if err != nil {
						fmt.Fprintf(os.Stderr, "error writing stack: %v\\n", err)
					}
''', '''					if err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644); err != nil {
						fmt.Fprintf(os.Stderr, "error writing stack: %v\\n", err)
						return
					}
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	wait(t, xrt.FakeGo(func() {
		func() {
			post, _ := enter(infoTrace, nil, []interface{}{demoConfig{OutputFile: dir + "/missing/x.json"}, nil, nil}, []interface{}{new(interface{}), new(error)})
			if post != nil {
				defer post()
			}
			demoAdd(1, 2)
		}()
		if d := getStackData(); d != nil && d.hasStartedTracing {
			t.Errorf("still tracing")
		}
	}))
}
'''),
dict(id="r08-panic-top", property="R08", needs="a call inside a trace that panics and is recovered, then a further call",
 breaks="after a recovered panic the panicked call stays the current one, so later calls are recorded below it",
 edits=[("runtime/internal/stack/stack.go", '''	c.Top = oldTop
	c.Depth--
''', '''	if !cur.Panic {
		c.Top = oldTop
	}
	c.Depth--
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	stk := &stack.Stack{Begin: xrt.XgoRealTimeNow()}
	now := xrt.XgoRealTimeNow()
	stk.PushNew(now, "root", nil)
	cur, old := stk.PushNew(now, "panics", nil)
	stk.Finish(cur, old, now, false, func(e *stack.Entry) { e.Panic = true; e.Finished = true })
	stk.PushNew(now, "after", nil)
	_, _, roots := stk.Snapshot()
	if len(roots) != 1 || len(roots[0].Children) != 2 {
		t.Fatalf("the later call is not below root")
	}
}
'''),
dict(id="r08-mocked-filtered", property="R08", needs="a trace with a filter, and a pre callback that stops a call the filter leaves out",
 breaks="calls the trace filter leaves out are recorded all the same when a pre callback stops them",
 edits=[(T+"trap.go", '''	} else {
		if !allowTracingThisEntry {
			return callRecorderWithDepth, true
		}
	}
''', '''	} else {
		if depth > 1 || !isTracing {
			return callRecorderWithDepth, true
		}
	}
''')],
 demo=HEAD + '''func TestDemo(t *testing.T) {
	wait(t, xrt.FakeGo(func() {
		pc := demoPC(t, demoAdd)
		PushRecordHandler(pc, nil, func(fn *core.FuncInfo, recv interface{}, args []interface{}, results []interface{}) (interface{}, bool) {
			return nil, true
		}, nil)
		d := getOrAttachStackData()
		d.hasStartedTracing = true
		d.filterTrace = func(fn *core.FuncInfo) bool { return fn.Name != "demoAdd" }
		demoAdd(1, 2)
		_, _, roots := stack.Get().Snapshot()
		if len(roots) != 0 {
			t.Errorf("a filtered call was recorded")
		}
	}))
}
'''),
]
