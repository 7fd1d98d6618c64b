H = "runtime/tls/hook.go"
TH = '''package trap

import (
	"testing"

	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/tls"
)

'''
S = [
dict(id="r12-stop-at-unset", property="R12", needs="two inheritable keys, the one declared first not set on the goroutine that starts another",
 breaks="inheriting stops at the first inheritable key the creating goroutine has no value for",
 edits=[(H, '''			v, ok := g1.GetOK(loc)
			if !ok {
				continue
			}
''', '''			v, ok := g1.GetOK(loc)
			if !ok {
				break
			}
''')],
 demo=TH + '''var a, b = tls.DeclareInherit("a"), tls.DeclareInherit("b")

func TestDemo(t *testing.T) {
	get := func() (v interface{}) {
		<-xrt.FakeGo(func() { v = b.Get() })
		return v
	}
	a.Set(1)
	b.Set(2)
	if get() != 2 {
		t.Fatalf("b is not inherited")
	}
	// on a goroutine that has b, but not a
	var v interface{}
	<-xrt.FakeGo(func() {})
	done := make(chan struct{})
	go func() {
		defer close(done)
		b.Set(3)
		v = get()
	}()
	<-done
	if v != 3 {
		t.Fatalf("b is not inherited from a goroutine without a: %v", v)
	}
}
'''),
dict(id="r12-nil-value", property="R12", needs="an inheritable key set to nil on the goroutine that starts another one",
 breaks="a nil value is not inherited: the new goroutine reports the key as never set",
 edits=[(H, '''			if !ok {
				continue
			}
			g2.Set(loc, v)
''', '''			if !ok || v == nil {
				continue
			}
			g2.Set(loc, v)
''')],
 demo=TH + '''var a = tls.DeclareInherit("a")

func TestDemo(t *testing.T) {
	a.Set(nil)
	var ok bool
	<-xrt.FakeGo(func() { _, ok = a.GetOK() })
	if !ok {
		t.Fatalf("the value nil is not inherited")
	}
}
'''),
]
