lib = "/verif/meta/demolib"
def files(dir, test, race=False):
    return {"demo.sh": open(lib + "/pkg_demo.sh.txt").read().replace("@DIR@", dir).replace("@RACE@", "-race" if race else ""), "demo_test.go.txt": test}
S = [
dict(id="f01-error-room", property="F01", needs="a concurrent copy in which two workers fail",
 breaks="the second worker that fails blocks for ever on reporting it, and the copy never returns",
 edits=[("support/filecopy/copy.go", '''	errCh := make(chan error, numGo)
''', '''	errCh := make(chan error, 1)
''')],
 files=files("support/filecopy", '''package filecopy

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	src, dst := filepath.Join(dir, "src"), filepath.Join(dir, "dst")
	for i := 0; i < 40; i++ {
		name := fmt.Sprintf("f%02d", i)
		if err := os.MkdirAll(src, 0755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(filepath.Join(src, name), []byte(name), 0644); err != nil {
			t.Fatal(err)
		}
		// a directory in the place of each file: none can be written
		if err := os.MkdirAll(filepath.Join(dst, name), 0755); err != nil {
			t.Fatal(err)
		}
	}
	res := make(chan error, 1)
	go func() { res <- NewOptions().Concurrent(8).Copy(src, dst) }()
	select {
	case err := <-res:
		if err == nil {
			t.Fatal("the failed copy reports success")
		}
	case <-time.After(30 * time.Second):
		t.Fatal("the copy does not return")
	}
}
''')),
dict(id="f01-ignore-prefix", property="F01", needs="an ignored path that another entry's path merely starts with",
 breaks="entries whose path starts like an ignored one are left out of the copy",
 edits=[("support/filecopy/copy.go", '''				if ignoreSubPath != "" && ignoreSubPath == subPath {
''', '''				if ignoreSubPath != "" && strings.HasPrefix(subPath, ignoreSubPath) {
''')],
 files=files("support/filecopy", '''package filecopy

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	src, dst := filepath.Join(dir, "src"), filepath.Join(dir, "dst")
	for _, name := range []string{"test/a.txt", "testdata/b.txt", "c.txt"} {
		f := filepath.Join(src, filepath.FromSlash(name))
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(f, []byte(name), 0644); err != nil {
			t.Fatal(err)
		}
	}
	if err := NewOptions().Ignore("test").Copy(src, dst); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(dst, "test")); err == nil {
		t.Fatal("the ignored directory was copied")
	}
	for _, name := range []string{"testdata/b.txt", "c.txt"} {
		if _, err := os.Stat(filepath.Join(dst, filepath.FromSlash(name))); err != nil {
			t.Fatal(err)
		}
	}
}
''')),
dict(id="f02-done-first", property="F02", needs="a schedule in which the loader goes on between a worker's report and its last store",
 breaks="a file is reported as loaded before its syntax is recorded: it can be missing from what is instrumented",
 edits=[("instrument/load/load.go", '''					f.Error = err
					f.Syntax = syntax

					// mark the file done
					// see https://github.com/xhd2015/xgo/issues/344
					wg.Done()
''', '''					f.Error = err
					// mark the file done
					// see https://github.com/xhd2015/xgo/issues/344
					wg.Done()

					f.Syntax = syntax
''')],
 files=files("instrument/load", '''package load

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	put := func(name, content string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(content), 0644); err != nil {
			t.Fatal(err)
		}
	}
	put("go.mod", "module example.com/m\\n\\ngo 1.18\\n")
	for i := 0; i < 60; i++ {
		put(fmt.Sprintf("f%02d.go", i), fmt.Sprintf("package m\\n\\nfunc F%d() int { return %d }\\n", i, i))
	}
	for i := 0; i < 5; i++ {
		pkgs, err := LoadPackages([]string{"."}, LoadOptions{Dir: dir, FilterErrorFile: true})
		if err != nil {
			t.Fatal(err)
		}
		n := 0
		for _, pkg := range pkgs.Packages {
			for _, f := range pkg.Files {
				if f.Syntax != nil {
					n++
				}
			}
		}
		if n != 60 {
			t.Fatalf("%d files", n)
		}
	}
}
''', race=True)),
dict(id="f02-size-without-file", property="F02", needs="a package with files listed after one that is not a Go file, and tests asked for",
 breaks="the test files of another package that follow such a file are not loaded",
 edits=[("instrument/load/load.go", '''			for _, file := range pkg.GoPackage.XTestGoFiles {
				if !strings.HasSuffix(file, ".go") {
					continue
				}
''', '''			for _, file := range pkg.GoPackage.XTestGoFiles {
				if !strings.HasSuffix(file, ".go") || len(files) == 0 {
					continue
				}
''')],
 files=files("instrument/load", '''package load

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	put := func(name, content string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(content), 0644); err != nil {
			t.Fatal(err)
		}
	}
	put("go.mod", "module example.com/m\\n\\ngo 1.18\\n")
	// a package of external tests only
	put("a_test.go", "package m_test\\n\\nimport \\"testing\\"\\n\\nfunc TestA(t *testing.T) {}\\n")
	put("b_test.go", "package m_test\\n\\nimport \\"testing\\"\\n\\nfunc TestB(t *testing.T) {}\\n")
	pkgs, err := LoadPackages([]string{"."}, LoadOptions{Dir: dir, IncludeTest: true, FilterErrorFile: true})
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, pkg := range pkgs.Packages {
		n += len(pkg.Files)
	}
	if n != 2 {
		t.Fatalf("%d files", n)
	}
}
''')),
]
for s in S:
    if s["id"]=="f02-size-without-file":
        s["id"]="f02-only-xtests"; s["needs"]="a package that consists of external tests only, loaded with its tests"; s["breaks"]="such a package is loaded without any file"
