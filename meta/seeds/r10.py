lib = "/verif/meta/demolib"
def files(dir, test, race=False):
    return {"demo.sh": open(lib + "/pkg_demo.sh.txt").read().replace("@DIR@", dir).replace("@RACE@", "-race" if race else ""), "demo_test.go.txt": test}
S = [
dict(id="r10-fields", property="R10", needs="a function whose last result is an error and whose first argument is no context (or the reverse)",
 breaks="the record generated for every function has two fields of one type in the other order than the runtime reads them",
 edits=[("instrument/constants/info.go", '''	"FirstArgCtx bool",
	"LastResultErr bool",
''', '''	"LastResultErr bool",
	"FirstArgCtx bool",
''')],
 files=files("instrument/constants", '''package constants

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strings"
	"testing"
)

// the runtime reads generated records by position
func TestPlantedDemo(t *testing.T) {
	f, err := parser.ParseFile(token.NewFileSet(), "../../runtime/core/func.go", nil, 0)
	if err != nil {
		t.Fatal(err)
	}
	var names []string
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.TypeSpec)
		if !ok || s.Name.Name != "FuncInfo" {
			return true
		}
		for _, fd := range s.Type.(*ast.StructType).Fields.List {
			for _, id := range fd.Names {
				names = append(names, id.Name)
			}
		}
		return false
	})
	if len(names) != len(FUNC_INFO_FIELDS) {
		t.Fatalf("%d fields generated, %d read", len(FUNC_INFO_FIELDS), len(names))
	}
	for i, s := range FUNC_INFO_FIELDS {
		if strings.Fields(s)[0] != names[i] {
			t.Errorf("field %d generated as %q, read as %q", i, s, names[i])
		}
	}
}
''')),
dict(id="r10-stub", property="R10", needs="an instrumented program mocking a variable by its address",
 breaks="the trap of variables' addresses is installed as the trap of their values: the second installation of it panics, and addresses are never trapped",
 edits=[("runtime/internal/runtime/runtime_link_template.go", "	runtime.XgoSetVarPtrTrap(trap)", "	runtime.XgoSetVarTrap(trap)")],
 files={"demo.sh": '''#!/bin/bash
# run with cwd = the repository, after its build
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export GOFLAGS= GO111MODULE=on GOPROXY=off GOTOOLCHAIN=local GOCACHE=${GOCACHE:-$work/cache} HOME=${HOME:-$work} TMPDIR=$work
mkdir -p "$work/m/rt" "$work/m/link"
sed -e '/go:build ignore/d' -e 's#^\\t"runtime"#\\truntime "demo/rt"#' -e 's#time.XgoRealNow#time.Now#' runtime/internal/runtime/runtime_link_template.go > "$work/m/link/link.go" || exit 1
cat > "$work/m/go.mod" <<'G'
module demo

go 1.18
G
cat > "$work/m/rt/rt.go" <<'G'
package rt

import "unsafe"

type XgoFuncInfo struct{}

var Last string

func NumCPU() int { return 1 }

func XgoSetTrap(trap func(info unsafe.Pointer, recvPtr interface{}, args []interface{}, results []interface{}) (func(), bool)) {
	Last = "XgoSetTrap"
}
func XgoSetVarTrap(trap func(info unsafe.Pointer, varAddr interface{}, res interface{})) {
	Last = "XgoSetVarTrap"
}
func XgoSetVarPtrTrap(trap func(info unsafe.Pointer, varAddr interface{}, res interface{})) {
	Last = "XgoSetVarPtrTrap"
}
func XgoSetupRegisterHandler(register func(fn unsafe.Pointer)) {}
func XgoGetCurG() unsafe.Pointer                               { return nil }
func XgoPeekPanic() (interface{}, uintptr)                     { return nil, 0 }
func XgoGetFullPCName(pc uintptr) string                       { return "" }
func XgoOnCreateG(callback func(g unsafe.Pointer, childG unsafe.Pointer)) {
}
func XgoOnExitG(callback func())         {}
func XgoOnInitFinished(callback func())  {}
func XgoInitFinished() bool              { return true }
G
cat > "$work/m/main.go" <<'G'
package main

import (
	"demo/link"
	"demo/rt"
	"os"
)

func main() {
	bad := false
	for _, c := range []struct {
		name string
		f    func()
	}{
		{"XgoSetTrap", func() { runtime.XgoSetTrap(nil) }},
		{"XgoSetVarTrap", func() { runtime.XgoSetVarTrap(nil) }},
		{"XgoSetVarPtrTrap", func() { runtime.XgoSetVarPtrTrap(nil) }},
	} {
		c.f()
		if rt.Last != c.name {
			println(c.name, "reaches", rt.Last)
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
G
cd "$work/m" && timeout 200 go run .
'''}),
dict(id="r10-kind", property="R10", needs="a trapped constant or pointer read of a variable",
 breaks="the number generated for records of address reads is that of constants in the runtime",
 edits=[("instrument/constants/info.go", '''	InfoKind_VarPtr InfoKind = 2
	InfoKind_Const  InfoKind = 3
''', '''	InfoKind_Const  InfoKind = 2
	InfoKind_VarPtr InfoKind = 3
''')],
 files=files("instrument/constants", '''package constants

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	f, err := parser.ParseFile(token.NewFileSet(), "../../runtime/core/func.go", nil, 0)
	if err != nil {
		t.Fatal(err)
	}
	want := map[string]int{"Kind_Func": int(InfoKind_Func), "Kind_Var": int(InfoKind_Var), "Kind_VarPtr": int(InfoKind_VarPtr), "Kind_Const": int(InfoKind_Const)}
	seen := 0
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.ValueSpec)
		if !ok {
			return true
		}
		for i, id := range s.Names {
			w, ok := want[id.Name]
			if !ok || i >= len(s.Values) || !strings.HasPrefix(id.Name, "Kind_") {
				continue
			}
			l, ok := s.Values[i].(*ast.BasicLit)
			if !ok {
				continue
			}
			seen++
			if v, _ := strconv.Atoi(l.Value); v != w {
				t.Errorf("%s: the runtime reads %d, %d is generated", id.Name, v, w)
			}
		}
		return true
	})
	if seen == 0 {
		t.Skip("kinds are written in another way")
	}
}
''')),
]
