import os
_lib = os.path.join("/verif/meta/demolib")
_sh = open(_lib + "/var_demo.sh.txt").read()
_common = open(_lib + "/var_common_test.go.txt").read()
def files(body):
    return {"demo.sh": _sh, "common_test.go.txt": _common, "demo_test.go.txt": 'package instrument_var_test\n\nimport "testing"\n\n' + body}
R = "instrument/resolve/"
S = [
dict(id="i01-single-result", property="I01", needs="a function with one named result of the same name as a package variable",
 breaks="a single named result is not taken for a local: reads of it are rewritten to the package variable's accessor",
 edits=[(R + "name.go", '''	resultNames := getFieldNames(funcType.Results)
	for _, name := range resultNames {
''', '''	var resultNames []string
	if funcType.Results.NumFields() > 1 {
		resultNames = getFieldNames(funcType.Results)
	}
	for _, name := range resultNames {
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := rewrite(t, map[string]string{"a.go": `package demo

var count int = 3

func Read() int { return count }

func Sum(l []int) (count int) {
	for _, e := range l {
		count = count + e
	}
	return count
}
`})
	want(t, out["a.go"], "return count_xgo_get() }", "count = count + e", "\\treturn count\\n")
}
''')),
dict(id="i01-redeclared-arg", property="I01", needs="a block that declares a local variable, and later redeclares another one from itself (v := v), and then reads the first",
 breaks="the names bound so far by the block are forgotten when a self-referencing := splits its scope",
 edits=[(R + "scope.go", '''	clone := *c

	c.Parent = &clone
''', '''	clone := *c
	clone.Names = names

	c.Parent = &clone
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := rewrite(t, map[string]string{"a.go": `package demo

var total int = 3

func Read() int { return total }

func Loop(n int) (fns []func() int) {
	for i := 0; i < n; i++ {
		const total = 7
		i := i
		fns = append(fns, func() int { return i + total })
	}
	return
}
`})
	want(t, out["a.go"], "return total_xgo_get() }", "return i + total }")
}
''')),
dict(id="i02-key-conflict", property="I02", needs="a composite literal whose key has the name of a package variable and whose value reads a package variable",
 breaks="when the key of an element may be a field name, the element's value is not looked at either",
 edits=[(R + "expr.go", '''			if c.Has(idt.Name) || c.Package.Decls[idt.Name] != nil {
				keyMightConflict = true
			}
''', '''			if c.Has(idt.Name) || c.Package.Decls[idt.Name] != nil {
				if _, ok := node.Value.(*ast.Ident); ok {
					return
				}
				keyMightConflict = true
			}
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := rewrite(t, map[string]string{"a.go": `package demo

type Options struct{ limit int }

var limit int = 3

func Read() Options { return Options{limit: limit} }
`})
	want(t, out["a.go"], "Options{limit: limit_xgo_get()}")
}
''')),
dict(id="i02-multi-assign", property="I02", needs="an assignment of several values, one of them a read of a package variable after a literal",
 breaks="in an assignment of several values the walk stops at the first literal",
 edits=[(R + "stmt.go", '''		for _, rhs := range node.Rhs {
			c.traverseExpr(rhs)
		}
''', '''		for _, rhs := range node.Rhs {
			if _, ok := rhs.(*ast.BasicLit); ok {
				break
			}
			c.traverseExpr(rhs)
		}
''')],
 files=files('''func TestDemo(t *testing.T) {
	out := rewrite(t, map[string]string{"a.go": `package demo

var limit int = 3

func Read() (a int, b int) {
	a, b = 1, limit
	return
}
`})
	want(t, out["a.go"], "a, b = 1, limit_xgo_get()")
}
''')),
]
