lib = "/verif/meta/demolib"
def files(dir, test, race=False):
    return {"demo.sh": open(lib + "/pkg_demo.sh.txt").read().replace("@DIR@", dir).replace("@RACE@", "-race" if race else ""), "demo_test.go.txt": test}
O="instrument/overlay/overlay.go"
I="instrument/overlay/io.go"
S = [
dict(id="o01-mid-redirect", property="O01", needs="a caller's overlay replacing a file that xgo then instruments, through a mapping whose target is itself replaced",
 breaks="a mapping followed to its end is recorded one step short when it was reached through another: the go command compiles the file that is itself replaced",
 edits=[(I, '''		resolved[source] = terminal
		return terminal, nil
''', '''		resolved[source] = terminal
		if len(path) > 0 {
			return target, nil
		}
		return terminal, nil
''')],
 files=files("instrument/overlay", '''package overlay

import "testing"

func TestPlantedDemo(t *testing.T) {
	caller := ParseGoOverlay(&GoOverlay{Replace: Replace{"/demo/a.go": "/demo/b.go", "/demo/b.go": "/demo/c.go"}}, PathOptions{})
	gen := &GoOverlay{Replace: Replace{"/demo/c.go": "/demo/d.go"}}
	got, err := ComposeGoOverlays(caller, gen, PathOptions{})
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range []AbsFile{"/demo/a.go", "/demo/b.go", "/demo/c.go"} {
		if got.Replace[f] != "/demo/d.go" {
			t.Fatalf("%s -> %s", f, got.Replace[f])
		}
	}
}
''')),
dict(id="o01-size-redirect", property="O01", needs="a redirected file whose original is of another size, or absent",
 breaks="the size answered for a redirected file is the original's: reader and size disagree",
 edits=[(O, '''	info, err := os.Stat(string(readOSFile))
	if err != nil {
		return 0, err
	}
''', '''	info, err := os.Stat(string(absFile))
	if err != nil {
		info, err = os.Stat(string(readOSFile))
	}
	if err != nil {
		return 0, err
	}
''')],
 files=files("instrument/overlay", '''package overlay

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	a, b := filepath.Join(dir, "a.go"), filepath.Join(dir, "b.go")
	if err := os.WriteFile(a, []byte("package a\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(b, []byte("package a\\n\\nvar X = 1\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	o := MakeOverlay()
	o.OverrideFile(AbsFile(a), AbsFile(b))
	_, content, err := o.Read(AbsFile(a))
	if err != nil {
		t.Fatal(err)
	}
	size, err := o.Size(AbsFile(a))
	if err != nil {
		t.Fatal(err)
	}
	if int(size) != len(content) {
		t.Fatalf("size %d, content of %d bytes", size, len(content))
	}
}
''')),
dict(id="o01-empty-content", property="O01", needs="content overridden to the empty string",
 breaks="a file overridden with nothing is read from disk again",
 edits=[(O, '''		if overlayFile.hasOverriddenContent {
			return true, []byte(overlayFile.Content), nil
		}
''', '''		if overlayFile.hasOverriddenContent && overlayFile.Content != "" {
			return true, []byte(overlayFile.Content), nil
		}
''')],
 files=files("instrument/overlay", '''package overlay

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	a := filepath.Join(t.TempDir(), "a.txt")
	if err := os.WriteFile(a, []byte("old"), 0644); err != nil {
		t.Fatal(err)
	}
	o := MakeOverlay()
	o.OverrideContent(AbsFile(a), "")
	hit, content, err := o.ReadBytes(AbsFile(a))
	if err != nil {
		t.Fatal(err)
	}
	if !hit || len(content) != 0 {
		t.Fatalf("hit=%v content=%q", hit, content)
	}
}
''')),
]
