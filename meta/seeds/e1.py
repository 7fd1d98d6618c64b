lib = "/verif/meta/demolib"
def files(dir, test, race=False):
    return {"demo.sh": open(lib + "/pkg_demo.sh.txt").read().replace("@DIR@", dir).replace("@RACE@", "-race" if race else ""), "demo_test.go.txt": test}
S = [
dict(id="e01-unreadable-config", property="E01", needs="a patch directory whose __config__.json cannot be read, for another reason than being absent",
 breaks="a patch configuration that exists but cannot be read counts as empty, and the patches are applied without it",
 edits=[("instrument/patch/apply.go", '''	data, err := os.ReadFile(configPath)
	if os.IsNotExist(err) {
		return &Config{}, nil
	}
''', '''	data, err := os.ReadFile(configPath)
	var pathErr *os.PathError
	if errors.As(err, &pathErr) {
		return &Config{}, nil
	}
''')],
 files=files("instrument/patch", '''package patch

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	if _, err := LoadConfig(dir); err != nil {
		t.Fatal(err)
	}
	// a directory of that name: it exists and cannot be read
	if err := os.Mkdir(filepath.Join(dir, "__config__.json"), 0755); err != nil {
		t.Fatal(err)
	}
	if cfg, err := LoadConfig(dir); err == nil {
		t.Fatalf("unreadable config accepted: %v", cfg)
	}
}
''')),
dict(id="e01-shadowed-update", property="E01", needs="a file that is to be updated and cannot be read, for another reason than being absent",
 breaks="a file that cannot be read is taken for empty, and replaced",
 edits=[("support/fileutil/patch.go", '''	data, dataErr := ioutil.ReadFile(file)
	if dataErr != nil {
		if !errors.Is(dataErr, os.ErrNotExist) {
			return dataErr
		}
	}
	newData, err := patch(data)
	if err != nil {
		return err
	}
''', '''	data, err := ioutil.ReadFile(file)
	if errors.Is(err, os.ErrNotExist) {
		err = nil
	}
	newData, err := patch(data)
	if err != nil {
		return err
	}
''')],
 files=files("support/fileutil", '''package fileutil

import (
	"path/filepath"
	"testing"
	"os"
)

func TestPlantedDemo(t *testing.T) {
	file := filepath.Join(t.TempDir(), "x")
	if err := os.Mkdir(file, 0755); err != nil {
		t.Fatal(err)
	}
	called := false
	err := Patch(file, func(data []byte) ([]byte, error) {
		called = true
		return data, nil
	})
	if err == nil || called {
		t.Fatalf("unreadable file: err=%v, patched=%v", err, called)
	}
}
''')),
]
