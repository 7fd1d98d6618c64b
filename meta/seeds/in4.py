import os
lib = "/verif/meta/demolib"
F = "instrument/instrument_func/trap.go"
def files(test):
    return {"demo.sh": open(lib + "/func_demo.sh.txt").read(), "common_test.go.txt": open(lib + "/func_common_test.go.txt").read(),
            "demo_test.go.txt": 'package instrument_func_test\n\nimport (\n\t"strings"\n\t"testing"\n)\n\nvar _ = strings.Contains\n\n' + test}
S = [
dict(id="i04-blank-group", property="I04", needs="a function with two blank parameters declared together",
 breaks="blank names of one group of parameters are all given the same generated name",
 edits=[(F, '''				seqNum++
			}
		} else {
''', '''			}
			seqNum++
		} else {
''')],
 files=files('''func TestDemo(t *testing.T) {
	out, infos := trapped(t, `package demo

func Run(_, _ int, _ string) error { return nil }
`, all())
	compiles(t, out, infos)
}
''')),
dict(id="i04-init-method", property="I04", needs="a method named init",
 breaks="a method that happens to be named init is left untrapped",
 edits=[(F, '''		if funcDecl.Recv == nil && funcName == "init" {
''', '''		if funcName == "init" {
''')],
 files=files('''func TestDemo(t *testing.T) {
	out, infos := trapped(t, `package demo

type server struct{}

func (s *server) init(n int) error { return nil }
`, all())
	compiles(t, out, infos)
	if len(infos) != 1 || !strings.Contains(out, "&s,[]interface{}{&n}") {
		t.Fatalf("not trapped: %s", out)
	}
}
''')),
dict(id="i04-result-paren", property="I04", needs="a function with a single unnamed result written in parentheses",
 breaks="a single unnamed result already in parentheses is parenthesised again",
 edits=[(F, '''			if singleUnnamedField && isResult && fieldList.Opening == token.NoPos {
''', '''			if singleUnnamedField && isResult {
''')],
 files=files('''func TestDemo(t *testing.T) {
	out, infos := trapped(t, `package demo

func Run(n int) (error) { return nil }
`, all())
	compiles(t, out, infos)
}
''')),
dict(id="i04-info-index", property="I04", needs="a package with more than ten files of traps, one with more than ten functions",
 breaks="the file's index and the function's number run together in the name of the info variable: function 11 of file 1 and function 1 of file 11 share it",
 edits=[(F, '''fmt.Sprintf("%s_%d_%d", constants.FUNC_INFO, fileIndex, len(funcInfos))
''', '''fmt.Sprintf("%s_%d%d", constants.FUNC_INFO, fileIndex, len(funcInfos))
''')],
 files=files('''func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for _, index := range []int{1, 11} {
		_, infos := trappedAt(t, index, "package demo\\n" + strings.Repeat("func f() {}\\n", 12), all())
		for _, f := range infos {
			if seen[f.InfoVar] {
				t.Fatalf("two functions share %s", f.InfoVar)
			}
			seen[f.InfoVar] = true
		}
	}
}
''')),
]
