package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
)

const toyMain = `package main

import "fmt"

type T struct{ n int }

func (t *T) inc(k int) int { t.n += k; return t.n }
func (t T) get() int { return t.n }

var log []string

func say(s string) string { log = append(log, s); return s }
func add(a, b int) int { return a + b }
func early(n int) (res string, err error) {
	if n < 0 {
		err = fmt.Errorf("neg %d", n)
		return
	}
	for i := 0; i < 10; i++ {
		switch {
		case i == n:
			return fmt.Sprint("hit", i), nil
		}
	}
	res = "none"
	return
}
func isOk(n int) bool {
	say(fmt.Sprint("isOk", n))
	if n%2 == 0 {
		return true
	}
	return n > 7
}
func vari(pre string, xs ...int) string {
	s := pre
	for _, x := range xs {
		s += fmt.Sprint(",", x)
	}
	return s
}
func withDefer() (r int) {
	defer func() { r = 42 }()
	return 1
}
func cleanup(s string) {
	if e := recover(); e != nil {
		say(fmt.Sprint("rec ", e, s))
	}
}
func rec(n int) int {
	if n <= 1 {
		return 1
	}
	return n * rec(n-1)
}
func swap(a, b int) (int, int) { return b, a }
func nothing() {}
func iface(x interface{}) string { return fmt.Sprintf("%T", x) }
func shadow(a int, i int) int {
	log := a
	for i := 0; i < 3; i++ {
		log += i
	}
	return log + i
}
func run() {
	a, i := 3, 4
	t := &T{1}
	var v T
	fmt.Println(t.inc(2), v.inc(5), t.get(), v.get())
	fmt.Println(add(i, a), add(add(1, 2), add(a, i)))
	if r, err := early(a); err != nil {
		fmt.Println("err", err)
	} else if isOk(a) || isOk(a+1) && r != "" {
		fmt.Println("ok", r)
	} else if x := add(a, 1); isOk(x) {
		fmt.Println("x", x)
	} else {
		fmt.Println("neither")
	}
	for k := 0; isOk(k*2) && k < 4; k++ {
		if k == 1 {
			continue
		}
		fmt.Println("loop", k)
	}
	for isOk(i) {
		i = i - 1
	}
	fmt.Println(i, a && isOk(3) == false)
	_, e2 := early(-1)
	fmt.Println(e2, vari("p"), vari("q", 1, 2), vari("r", []int{3}...))
	fmt.Println(withDefer(), rec(5))
	a, i = swap(a, i)
	fmt.Println(a, i, iface(a), shadow(i, a))
	nothing()
	switch s := say("sw"); add(len(s), 1) {
	case 3:
		fmt.Println("three")
	}
	fs := []func() int{func() int { return add(a, 10) }, func() int { return t.get() }}
	for _, f := range fs {
		fmt.Println(f())
	}
	func() {
		defer cleanup(say("deferred"))
		say("before")
		panic(vari("boom", swap2()...))
	}()
	m := map[string]int{say("k1"): add(1, 1), say("k2"): add(2, 2)}
	fmt.Println(len(m), m[say("k2")])
	fmt.Println(order(say("o1"), isOk(2), say("o2")))
	var un interface{} = add(1, 2)
	fmt.Println(un, log)
}
func swap2() []int { return []int{1, 2} }
func order(a string, b bool, c string) string { return a + fmt.Sprint(b) + c }

func main() { run() }
`

func TestInlineKeepsMeaning(t *testing.T) {
	src := toyMain
	dir := t.TempDir()
	w := func(n, s string) {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	src = replaceOnce(src, "a && isOk(3) == false", "a > 0 && isOk(3) == false")
	w("go.mod", "module github.com/xhd2015/xgo\n\ngo 1.21\n")
	w("main.go", src)
	run := func() string {
		cmd := exec.Command("go", "run", ".")
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fatalf("%v\n%s", err, out)
		}
		return string(out)
	}
	before := run()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir}, ".")
	if err != nil || len(pkgs[0].Errors) > 0 {
		t.Fatal(err, pkgs[0].Errors)
	}
	texts, gone, notes := inlineNew(dir, pkgs, map[string][]byte{})
	if len(texts) != 1 {
		t.Fatal("nothing inlined", notes)
	}
	for f, b := range texts {
		os.WriteFile(f, b, 0o644)
		if os.Getenv("SHOW") != "" {
			t.Log(string(b))
		}
	}
	t.Log(len(gone), gone)
	if after := run(); after != before {
		t.Fatalf("before:\n%s\nafter:\n%s", before, after)
	}
}

func replaceOnce(s, a, b string) string {
	for i := 0; i+len(a) <= len(s); i++ {
		if s[i:i+len(a)] == a {
			return s[:i] + b + s[i+len(a):]
		}
	}
	return s
}
