exec(open("/verif/meta/seeds/common.py").read())
F = "runtime/functab/functab.go"
FH = '''package trap

import (
	"context"
	"testing"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
)

var _ context.Context
var _ = functab.Info
var _ = unsafe.Pointer(nil)
var _ core.FuncInfo

func reg(info *core.FuncInfo) *core.FuncInfo {
	xrt.FakeRegister(unsafe.Pointer(info))
	return info
}

'''
S = [
dict(id="r11-generic-type-instance", property="R11", needs="looking up the full name of a method of an instantiated generic type",
 breaks="only instances of generic functions are led back to their generic, methods of instances of a generic type are not found by full name",
 edits=[(F, '''	if typeGeneric != "" || funcGeneric != "" {''', '''	if typeGeneric == "" && funcGeneric != "" {''')],
 demo=FH + '''func TestDemo(t *testing.T) {
	f := reg(&core.FuncInfo{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "Max", Name: "Max", Generic: true})
	m := reg(&core.FuncInfo{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "(*List).Add", Name: "Add", RecvType: "List", RecvPtr: true, Generic: true})
	if functab.GetFuncByFullName(demoPkg+".Max[int]") != f {
		t.Fatalf("generic function not found")
	}
	if functab.GetFuncByFullName(demoPkg+".(*List[int]).Add") != m {
		t.Fatalf("method of an instance not found")
	}
}
'''),
dict(id="r11-only-ctx", property="R11", needs="a method that takes a context as its only parameter after the receiver",
 breaks="a method whose only parameter is a context is not recognised as taking a context first",
 edits=[(F, '''ft.NumIn() > off &&''', '''ft.NumIn() > off+off &&''')],
 demo=FH + '''type svc struct{}

func (s *svc) Two(ctx context.Context, a int) {}
func (s *svc) One(ctx context.Context)        {}
func plain(ctx context.Context)               {}

func TestDemo(t *testing.T) {
	for _, i := range []*core.FuncInfo{
		{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "plain", Name: "plain", Func: plain},
		{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "(*svc).Two", Name: "Two", RecvType: "svc", RecvPtr: true, Func: (*svc).Two},
		{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "(*svc).One", Name: "One", RecvType: "svc", RecvPtr: true, Func: (*svc).One},
	} {
		if reg(i); !i.FirstArgCtx {
			t.Fatalf("%s takes a context first", i.IdentityName)
		}
	}
}
'''),
dict(id="r11-var-first-wins", property="R11", needs="two variables of one program where the second is a zero-size or re-registered address, or a variable registered as a pointer first",
 breaks="a package variable registered from an ordinary variable trap is not entered when the same identity name exists in the package already",
 edits=[(F, '''		pkgMapping[identityName] = funcInfo
''', '''		if old := pkgMapping[identityName]; old != nil && fnKind != core.Kind_Func {
			return
		}
		pkgMapping[identityName] = funcInfo
''')],
 demo=FH + '''var a, b int

func TestDemo(t *testing.T) {
	// the pointer-valued view of the variable is registered under the same name
	reg(&core.FuncInfo{Kind: core.Kind_VarPtr, Pkg: demoPkg, IdentityName: "a", Name: "a", Var: &a})
	i := reg(&core.FuncInfo{Kind: core.Kind_Var, Pkg: demoPkg, IdentityName: "a", Name: "a", Var: &a})
	if functab.InfoVar(&a) != i {
		t.Fatalf("registered variable not found by its address")
	}
}
'''),
]
