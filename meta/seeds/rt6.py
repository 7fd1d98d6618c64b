import os
X = "runtime/internal/runtime/xgo_trap_template.go"
LIB = "/verif/meta/demolib"
rd = lambda n: open(os.path.join(LIB, n)).read()
def files(test): return {"demo.sh": rd("hook_demo.sh.txt"), "hook_stub.go.txt": rd("hook_stub.go.txt"), "demo_test.go.txt": test}
S = [
dict(id="r15-reset-skipped", property="R15", needs="a goroutine slot reused for a goroutine created while no creation callback is registered (or from a system goroutine)",
 breaks="the storage left behind by the slot's previous goroutine is only cleared when creation callbacks are about to run; otherwise the new goroutine starts with its predecessor's values",
 edits=[(X, '''	newg.__xgo_g = __xgo_g{}
	if len(__xgo_on_create_g_callbacks) == 0 {
		return
	}
	if curg == nil {
		return
	}
''', '''	if len(__xgo_on_create_g_callbacks) == 0 {
		return
	}
	if curg == nil {
		return
	}
	newg.__xgo_g = __xgo_g{}
''')],
 files=files('''package runtime

import "testing"

func TestDemo(t *testing.T) {
	n := &g{m: theM}
	n.__xgo_g.trappingDepth = 3
	__xgo_callback_on_create_g(cur, n)
	if n.__xgo_g.trappingDepth != 0 {
		t.Fatalf("starts with trapping depth %d", n.__xgo_g.trappingDepth)
	}
	XgoOnCreateG(func(a, b __ptr) {})
	n.__xgo_g.looseJsonMarshaling = true
	__xgo_callback_on_create_g(nil, n)
	if n.__xgo_g.looseJsonMarshaling {
		t.Fatalf("keeps the marshaling flag")
	}
}
'''.replace("__ptr", "unsafe.Pointer").replace('import "testing"', 'import (\n\t"testing"\n\t"unsafe"\n)'))),
dict(id="r15-goexit-panic", property="R15", needs="a trapped call made by a deferred function while its goroutine is leaving by runtime.Goexit (t.FailNow, t.SkipNow), or after a recover",
 breaks="a panic already recovered is reported as one in flight",
 edits=[(X, '''	if p == nil || p.goexit || p.recovered {
		return nil, 0
	}
''', '''	if p == nil || p.goexit {
		return nil, 0
	}
''')],
 files=files('''package runtime

import "testing"

func TestDemo(t *testing.T) {
	cur._panic = &_panic{arg: "a", retpc: 5}
	if v, pc := XgoPeekPanic(); v != "a" || pc != 5 {
		t.Fatalf("panic not reported: %v %v", v, pc)
	}
	cur._panic.recovered = true
	if v, pc := XgoPeekPanic(); v != nil || pc != 0 {
		t.Fatalf("recovered panic reported: %v %v", v, pc)
	}
}
''')),
dict(id="r15-staged-while-draining", property="R15", needs="three or more functions registered before the handler is installed",
 breaks="installing the handler hands over the descriptions put aside by index while halving the list: those in the second half are dropped",
 edits=[(X, '''	saved := __xgo_staging_funcs
	__xgo_staging_funcs = nil
	for _, fn := range saved {
		register((*__xgo_intf_header)(unsafe.Pointer(&fn)).data)
	}
''', '''	for i := 0; i < len(__xgo_staging_funcs); i++ {
		fn := __xgo_staging_funcs[0]
		__xgo_staging_funcs = __xgo_staging_funcs[1:]
		register((*__xgo_intf_header)(unsafe.Pointer(&fn)).data)
	}
''')],
 files=files('''package runtime

import (
	"testing"
	"unsafe"
)

func TestDemo(t *testing.T) {
	var infos [5]XgoFuncInfo
	for i := range infos {
		infos[i].Line = i + 1
		XgoRegister(&infos[i])
	}
	var got []int
	XgoSetupRegisterHandler(func(p unsafe.Pointer) { got = append(got, (*XgoFuncInfo)(p).Line) })
	if len(got) != 5 {
		t.Fatalf("handed over %v", got)
	}
}
''')),
]
