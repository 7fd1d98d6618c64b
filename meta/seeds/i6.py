lib = "/verif/meta/demolib"
def files(dir, test, race=False):
    return {"demo.sh": open(lib + "/pkg_demo.sh.txt").read().replace("@DIR@", dir).replace("@RACE@", "-race" if race else ""), "demo_test.go.txt": test}
S = [
dict(id="i06-own-prefix", property="I06", needs="a package of xgo's runtime whose name merely begins with test",
 breaks="a package of xgo's own runtime named test... counts as a test of it and is instrumented: its functions trap into themselves",
 edits=[("instrument/config/config.go", '''	_, isTest := goinfo.PkgWithinModule(suffix, "test")
	return !isTest
''', '''	isTest := len(suffix) >= len("test") && suffix[:len("test")] == "test"
	return !isTest
''')],
 files=files("instrument/config", '''package config

import "testing"

func TestPlantedDemo(t *testing.T) {
	for _, s := range []string{"", "/trap", "/testing_core", "/test2/x"} {
		xgo, allow := CheckInstrument("github.com/xhd2015/xgo/runtime" + s)
		if !xgo || allow {
			t.Errorf("%q: %v %v", s, xgo, allow)
		}
	}
	for _, s := range []string{"/test", "/test/x"} {
		if xgo, allow := CheckInstrument("github.com/xhd2015/xgo/runtime" + s); xgo || !allow {
			t.Errorf("%q: %v %v", s, xgo, allow)
		}
	}
}
''')),
dict(id="i06-generic-method", property="I06", needs="a mock naming a method of a generic type of a package outside the main module",
 breaks="methods of generic types that a mock names are left untrapped: the mock silently does nothing",
 edits=[("instrument/instrument_func/trap.go", '''				if !hasFnRecord && recvType != nil {
''', '''				if !hasFnRecord && recvType != nil && !recvGeneric {
''')],
 files=files("instrument/instrument_func", '''package instrument_func

import (
	"go/parser"
	"go/token"
	"testing"

	"github.com/xhd2015/xgo/instrument/config"
	"github.com/xhd2015/xgo/instrument/resolve"
	"github.com/xhd2015/xgo/support/edit/goedit"
)

func TestPlantedDemo(t *testing.T) {
	code := "package a\\ntype T struct{}\\nfunc (t *T) M() {}\\ntype G[K any] struct{}\\nfunc (g *G[K]) M() {}\\nfunc (g G[K]) other() {}\\n"
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "a.go", code, parser.ParseComments)
	if err != nil {
		t.Fatal(err)
	}
	rec := &resolve.PkgRecorder{}
	rec.GetOrInit("T").AddMockName("M")
	rec.GetOrInit("G").AddMockName("M")
	_, extra := TrapFuncs(goedit.New(fset, code), "a", file, 0, Options{PkgRecorder: rec, InstrumentMode: config.InstrumentMode_None})
	var names []string
	for _, e := range extra {
		names = append(names, e.IdentityName)
	}
	if len(names) != 2 || names[0] != "(*T).M" || names[1] != "(*G).M" {
		t.Fatalf("trapped: %v", names)
	}
}
''')),
dict(id="i06-second-method", property="I06", needs="two methods of one type, of a package outside the main module, mocked",
 breaks="mocking a second method of a type forgets the first: it is left untrapped",
 edits=[("instrument/resolve/scope.go", '''	if c.NamesHavingMock == nil {
		c.NamesHavingMock = make(map[string]bool, 1)
	}
''', '''	if !c.NamesHavingMock[name] {
		c.NamesHavingMock = make(map[string]bool, 1)
	}
''')],
 files=files("instrument/resolve", '''package resolve

import "testing"

func TestPlantedDemo(t *testing.T) {
	var rec Recorder
	rec.GetOrInit("a").GetOrInit("T").AddMockName("A")
	rec.GetOrInit("a").GetOrInit("T").AddMockName("B")
	rec.GetOrInit("a").GetOrInit("T").AddMockName("B")
	n := rec.GetOrInit("a").Get("T").NamesHavingMock
	if !n["A"] || !n["B"] || n["C"] {
		t.Fatalf("%v", n)
	}
}
''')),
dict(id="i06-interceptor-name", property="I06", needs="a program that intercepts everything through trap.MarkInterceptAll only",
 breaks="the functions of other packages are no longer trapped for an interceptor of everything marked that way",
 edits=[("instrument/resolve/record.go", '''	if name == "AddInterceptor" || name == "MarkInterceptAll" {
		if pkgPath == constants.RUNTIME_TRAP_PKG {
''', '''	if name == "AddInterceptor" || name == "MarkInterceptAll" {
		if pkgPath == constants.RUNTIME_TRAP_PKG && sel.Sel.Name[0] == 'A' {
''')],
 files=files("instrument/resolve", '''package resolve

import (
	"go/ast"
	"testing"

	"github.com/xhd2015/xgo/instrument/edit"
)

func TestPlantedDemo(t *testing.T) {
	for _, name := range []string{"AddInterceptor", "MarkInterceptAll"} {
		rec := &Recorder{}
		s := &Scope{
			Global:  &GlobalScope{Recorder: rec},
			Package: &PackageScope{Decls: map[string]*edit.Decl{}},
			File:    &FileScope{Imports: map[string]string{"trap": "github.com/xhd2015/xgo/runtime/trap"}},
		}
		s.recordTrap(&ast.SelectorExpr{X: &ast.Ident{Name: "trap"}, Sel: &ast.Ident{Name: name}})
		if !rec.HasTrapInterceptorRef {
			t.Errorf("trap.%s is not seen", name)
		}
	}
}
''')),
]
