lib = "/verif/meta/demolib"
V = "instrument/instrument_var/trap_var.go"
C = "instrument/resolve/collect_var_ref.go"
def files(test):
    return {"demo.sh": open(lib + "/var_demo.sh.txt").read(), "common_test.go.txt": open(lib + "/var_common_test.go.txt").read(),
            "demo_test.go.txt": 'package instrument_var_test\n\nimport (\n\t"strings"\n\t"testing"\n)\n\nvar _ = strings.Contains\n\n' + test}
S = [
dict(id="i03-refused-import", property="I03", needs="a file in which a variable whose inferred type cannot be written names a package's type that a later variable's type needs too",
 breaks="the import name of a refused type stays reserved although no import is added: the next variable's accessor uses an undeclared name",
 edits=[(V, '''			for _, edit := range c.importEdits {
				c.impRecorder.Remove(edit.pkgPath)
			}
''', '''			for i := 1; i < len(c.importEdits); i++ {
				c.impRecorder.Remove(c.importEdits[i].pkgPath)
			}
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := rewrite(t, map[string]string{"a.go": `package main

import "strings"

var a = map[strings.Reader]func(){}

var b = &strings.Reader{}

func main() {
	_ = a
	_ = b.Len()
}
`})["a.go"]
	if strings.Contains(out, "b_xgo_get() *__xgo_var_ref_") && !strings.Contains(out, "import __xgo_var_ref_") {
		t.Fatalf("the type of b is not imported: %s", out)
	}
}
''')),
dict(id="i03-ptr-receiver", property="I03", needs="a variable holding a pointer, used where a method with a pointer receiver marks its parts as needing the address",
 breaks="the accessor for the address is used for variables that already hold a pointer: the rewritten reference has one level of pointers too many",
 edits=[(C, '''		if !types.IsPointer(pkgVar.Type()) && isExprPtr {
''', '''		if isExprPtr {
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := rewrite(t, map[string]string{"a.go": `package main

type lock struct{ n int }

func (l *lock) Lock() { l.n++ }

type server struct{ mu lock }

var s = &server{}

func main() {
	s.mu.Lock()
}
`})["a.go"]
	if strings.Contains(out, "s_xgo_get_addr().mu") {
		t.Fatalf("the address of a pointer: %s", out)
	}
}
''')),
dict(id="i03-shared-number", property="I03", needs="a variable whose inferred type names types of two packages",
 breaks="the name of a second import equals the first one's when one variable's type needs two packages",
 edits=[(V, '''	if c.refNum > 0 {
		ref = fmt.Sprintf("%s_%d", ref, c.refNum)
	}
	c.pkgPathToPkgRef[pkgPath] = ref
	c.refNum++
''', '''	if c.refNum > 1 {
		ref = fmt.Sprintf("%s_%d", ref, c.refNum)
	}
	c.pkgPathToPkgRef[pkgPath] = ref
	c.refNum++
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := rewrite(t, map[string]string{"a.go": `package main

import (
	"bytes"
	"strings"
)

var m = map[strings.Reader]bytes.Reader{}

func main() {
	_ = m
}
`})["a.go"]
	names := map[string]bool{}
	for _, x := range strings.Split(out, "import __xgo")[1:] {
		n := strings.Fields(x)[0]
		if names[n] {
			t.Fatalf("two imports share a name: %s", out)
		}
		names[n] = true
	}
	if len(names) != 2 {
		t.Fatalf("%d imports: %s", len(names), out)
	}
}
''')),
]
