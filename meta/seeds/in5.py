import os
lib = "/verif/meta/demolib"
R = "instrument/compiler_extra/register.go"
def files(test):
    return {"demo.sh": open(lib + "/reg_demo.sh.txt").read(), "common_test.go.txt": open(lib + "/reg_common_test.go.txt").read(),
            "demo_test.go.txt": 'package instrument_reg_test\n\nimport (\n\t"strings"\n\t"testing"\n)\n\nvar _ = strings.Contains\n\n' + test}
S = [
dict(id="i05-generic-method-value", property="I05", needs="a method with a value receiver of a generic type in an instrumented file",
 breaks="the function of a method of a generic type is referred to without instantiation: the instrumented file does not compile",
 edits=[(R, '''	if !recvGeneric && !funcInfo.HasGenericParams {
''', '''	if !(recvGeneric && funcInfo.RecvPtr) && !funcInfo.HasGenericParams {
''')],
 files=files('''func TestDemo(t *testing.T) {
	registered(t, `package demo

type box[T any] struct{ v T }

func (b box[T]) Get() T { return b.v }
`, false)
}
''')),
dict(id="i05-res-without-args", property="I05", needs="a function with results but without parameters",
 breaks="the names of the results are only registered of functions that have parameters",
 edits=[(R, '''	if len(funcInfo.Results) > 0 {
''', '''	if len(funcInfo.Params) > 0 && len(funcInfo.Results) > 0 {
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := registered(t, `package demo

func Version() (v string, err error) { return "1", nil }
`, false)
	lit, _ := info(t, out, "Version")
	if !strings.Contains(lit, "ResNames:[]string{\\"v\\",\\"err\\"}") {
		t.Fatalf("names of the results: %s", lit)
	}
}
''')),
dict(id="i05-intf-after-block", property="I05", needs="a type declaration group in which an interface type follows another type",
 breaks="interface types after one of another kind in the same declaration group are not registered",
 edits=[("instrument/instrument_intf/instrument_intf.go", '''			intfType, ok := typeSpec.Type.(*ast.InterfaceType)
			if !ok {
				continue
			}
''', '''			intfType, ok := typeSpec.Type.(*ast.InterfaceType)
			if !ok {
				break
			}
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := registered(t, `package demo

type (
	options struct{ n int }
	Server  interface{ Serve(o options) error }
)
`, false)
	lit, name := info(t, out, "Server")
	if !strings.Contains(lit, "Interface:true") || !strings.Contains(out, "__xgo_register_3("+name+")") {
		t.Fatalf("not registered: %s", out)
	}
}
''')),
dict(id="i05-register-first", property="I05", needs="a registration that looks at the function registered",
 breaks="an info is registered before its function is filled in: it is not found by the function",
 edits=[(R, '''	return JoinStmts(varDefStmts, delayInitFunc, regCodeInit)
''', '''	return JoinStmts(varDefStmts, regCodeInit, delayInitFunc)
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := registered(t, `package demo

func Run(n int) error { return nil }
`, false)
	_, name := info(t, out, "Run")
	set, reg := strings.Index(out, name+".Func=Run"), strings.Index(out, "__xgo_register_3("+name+")")
	if set < 0 || reg < 0 || set > reg {
		t.Fatalf("registered before its function is filled in: %s", out)
	}
}
''')),
]
