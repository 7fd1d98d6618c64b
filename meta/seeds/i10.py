lib = "/verif/meta/demolib"
def files(dir, test, race=False):
    return {"demo.sh": open(lib + "/pkg_demo.sh.txt").read().replace("@DIR@", dir).replace("@RACE@", "-race" if race else ""), "demo_test.go.txt": test}
S = [
dict(id="i10-unstable", property="I10", needs="a file with more than a dozen edits, several of them insertions at one position",
 breaks="insertions made at one position come out in another order than they were made in",
 edits=[("support/edit/edit.go", '''	sort.Stable(b.q)
''', '''	sort.Sort(b.q)
''')],
 files=files("support/edit", '''package edit

import (
	"fmt"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for n := 1; n < 60; n++ {
		b := NewBuffer([]byte("ab"))
		want := ""
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("<%d>", i)
			b.Insert(1, s)
			b.Insert(0, "")
			b.Insert(2, "")
			want += s
		}
		if got := b.String(); got != "a"+want+"b" || !strings.Contains(got, "<0>") {
			t.Fatalf("%d: %s", n, got)
		}
	}
}
''')),
dict(id="i10-tie", property="I10", needs="an insertion at the start of a range replaced before it",
 breaks="an insertion at the position where a range recorded earlier starts is refused as overlapping, or ends up behind it",
 edits=[("support/edit/edit.go", '''	if x[i].start != x[j].start {
		return x[i].start < x[j].start
	}
	return x[i].end < x[j].end
''', '''	return x[i].start < x[j].start
''')],
 files=files("support/edit", '''package edit

import "testing"

func TestPlantedDemo(t *testing.T) {
	b := NewBuffer([]byte("abcdef"))
	b.Replace(2, 4, "XY")
	b.Insert(2, "+")
	b.Insert(4, "-")
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if got := b.String(); got != "ab+XY-ef" {
		t.Fatal(got)
	}
}
''')),
dict(id="i10-notes-line", property="I10", needs="edited content whose last line is not ended while the original's is, or the other way round",
 breaks="the notes for coverage start on the last line of the code, and the cover tool does not find them",
 edits=[("instrument/instrument_go/go_tool_cover.go", '''	if !strings.HasSuffix(content, "\\n") {
''', '''	if !strings.HasSuffix(origalContent, "\\n") {
''')],
 files=files("instrument/instrument_go", '''package instrument_go

import (
	"go/token"
	"strings"
	"testing"

	"github.com/xhd2015/xgo/support/edit/goedit"
)

func TestPlantedDemo(t *testing.T) {
	for _, c := range [][2]string{{"package a\\n", "package a\\n"}, {"package a\\n", "package a\\n;var _ int"}, {"package a", "package a\\n"}} {
		got, err := AddEditsNotes(goedit.New(token.NewFileSet(), c[0]), "/a.go", c[0], c[1])
		if err != nil {
			t.Fatal(err)
		}
		lines := strings.Split(strings.TrimSuffix(got, "\\n"), "\\n")
		n := len(lines)
		if n < 4 || !strings.HasPrefix(lines[n-3], "// __xgo_file: ") || lines[n-4] == "" {
			t.Errorf("%q", got)
		}
	}
}
''')),
dict(id="i10-delete-end", property="I10", needs="a deletion up to the end of the file",
 breaks="deleting to the end of the file leaves its last byte",
 edits=[("support/edit/edit.go", '''	if end == -1 {
		end = len(b.old)
	}
	if end < start || start < 0 || end > len(b.old) {
		panic("invalid edit position")
	}
	b.q = append(b.q, edit{start, end, ""})
''', '''	if end == -1 || end == len(b.old) {
		end = len(b.old) - 1
	}
	if end < start || start < 0 || end > len(b.old) {
		panic("invalid edit position")
	}
	b.q = append(b.q, edit{start, end, ""})
''')],
 files=files("support/edit", '''package edit

import "testing"

func TestPlantedDemo(t *testing.T) {
	b := NewBuffer([]byte("abcdef"))
	b.Delete(4, -1)
	if got := b.String(); got != "abcd" {
		t.Fatal(got)
	}
	b = NewBuffer([]byte("abcdef"))
	b.Delete(1, 6)
	if got := b.String(); got != "a" {
		t.Fatal(got)
	}
}
''')),
]
