lib = "/verif/meta/demolib"
def files(dir, test, race=False):
    return {"demo.sh": open(lib + "/pkg_demo.sh.txt").read().replace("@DIR@", dir).replace("@RACE@", "-race" if race else ""), "demo_test.go.txt": test}
S = [
dict(id="g01-alias", property="G01", needs="an overlay naming one file under several aliases (symlinks), none of them its own path",
 breaks="which of the aliases' replacements is used differs from run to run",
 edits=[("instrument/overlay/io.go", '''	for _, e := range p.Entries {
		prefer := e.SourceInput == e.SourceCanonical
''', '''	inputs := make(map[AbsFile]OverlayEntry, len(p.Entries))
	for _, e := range p.Entries {
		inputs[e.SourceInput] = e
	}
	for _, e := range inputs {
		prefer := e.SourceInput == e.SourceCanonical
''')],
 files=files("instrument/overlay", '''package overlay

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir, err := filepath.EvalSymlinks(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	real := filepath.Join(dir, "real.go")
	if err := os.WriteFile(real, []byte("package a"), 0644); err != nil {
		t.Fatal(err)
	}
	in := &GoOverlay{Replace: Replace{}}
	for i := 0; i < 8; i++ {
		link := filepath.Join(dir, fmt.Sprintf("link%d.go", i))
		if err := os.Symlink(real, link); err != nil {
			t.Fatal(err)
		}
		in.Replace[AbsFile(link)] = AbsFile(filepath.Join(dir, fmt.Sprintf("target%d.go", i)))
	}
	got := map[AbsFile]bool{}
	for i := 0; i < 200; i++ {
		got[ParseGoOverlay(in, PathOptions{}).CanonicalReplace()[AbsFile(real)]] = true
	}
	if len(got) != 1 {
		t.Fatalf("%v", got)
	}
}
''')),
dict(id="g01-decls", property="G01", needs="a file that declares more than one variable, type or function, and two runs",
 breaks="the declarations of a file are gone through in map order: the numbers and order of what is generated for them differ from run to run",
 edits=[("instrument/resolve/traverse.go", '''		for _, decl := range fileDecls {
			decls[decl.Ident.Name] = decl
		}
		file.Decls = fileDecls
''', '''		// later ones win
		own := make(map[string]*edit.Decl, len(fileDecls))
		for _, decl := range fileDecls {
			own[decl.Ident.Name] = decl
			decls[decl.Ident.Name] = decl
		}
		fileDecls = fileDecls[:0]
		for _, decl := range own {
			fileDecls = append(fileDecls, decl)
		}
		file.Decls = fileDecls
''')],
 files=files("instrument/resolve", '''package resolve

import (
	"go/parser"
	"go/token"
	"strings"
	"testing"

	"github.com/xhd2015/xgo/instrument/edit"
	"github.com/xhd2015/xgo/instrument/load"
)

func TestPlantedDemo(t *testing.T) {
	code := "package a\\nvar a, b, c int\\nconst d = 1\\ntype e struct{}\\nfunc f() {}\\nvar g = 1\\n"
	got := map[string]bool{}
	for i := 0; i < 100; i++ {
		file, err := parser.ParseFile(token.NewFileSet(), "a.go", code, 0)
		if err != nil {
			t.Fatal(err)
		}
		pkg := &edit.Package{Files: []*edit.File{{File: &load.File{Name: "a.go", Syntax: file}}}}
		CollectDecls(pkg)
		var names []string
		for _, d := range pkg.Files[0].Decls {
			names = append(names, d.Ident.Name)
		}
		got[strings.Join(names, ",")] = true
	}
	if len(got) != 1 || !got["a,b,c,d,e,f,g"] {
		t.Fatalf("%v", got)
	}
}
''')),
]
