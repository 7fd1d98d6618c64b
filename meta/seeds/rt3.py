exec(open("/verif/meta/seeds/common.py").read())
S = [
dict(id="r09-results-prefix", property="R09", needs="a replacer whose parameters fit and whose later results differ in type from the target's",
 breaks="only as many results are compared as there are parameters, so a replacer with wrong result types is accepted and fails when called",
 edits=[(T+"object.go", '''	for i := 0; i < nouta; i++ {
		ta := a.Out(i)
		tb := b.Out(i)
		if ta != tb {''', '''	for i := 0; i < nouta && i < nb; i++ {
		ta := a.Out(i)
		tb := b.Out(i)
		if ta != tb {''')],
 demo=HEAD + '''func demoTwo(a int) (int, error) { return a, nil }

func TestDemo(t *testing.T) {
	info := &core.FuncInfo{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "demoTwo", Name: "demoTwo", ArgNames: []string{"a"}, ResNames: []string{"x", "y"}, Func: demoTwo}
	xrt.FakeRegister(unsafe.Pointer(info))
	func() {
		defer func() {
			if recover() == nil {
				t.Fatalf("a replacer with other result types is accepted")
			}
		}()
		cancel := PushMockReplacerByName(demoPkg, "demoTwo", func(a int) (int, string) { return a, "" })
		cancel()
	}()
	PushMockReplacer(demoTwo, func(a int) (int, error) { return a, nil })()
}
'''),
dict(id="r09-post-error", property="R09", needs="a post interceptor that returns an error on a function whose last result is an error that is already set",
 breaks="the error a post interceptor returns is dropped when the call already failed",
 edits=[(T+"build.go", '''			err := postInterceptor(ctx, funcInfo, argObj, resObject, data)
			if err != nil {
				if funcInfo.LastResultErr {
					lastErr := results[len(results)-1].(*error)
					*lastErr = err
				} else {''', '''			err := postInterceptor(ctx, funcInfo, argObj, resObject, data)
			if err != nil {
				if funcInfo.LastResultErr {
					lastErr := results[len(results)-1].(*error)
					if *lastErr == nil {
						*lastErr = err
					}
				} else {''')],
 demo='''package trap

import (
	"context"
	"errors"
	"testing"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
)

var infoFail = &core.FuncInfo{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "demoFail", Name: "demoFail", ResNames: []string{"err"}, LastResultErr: true}

//go:noinline
func demoFail() (err error) {
	post, stop := xrt.XgoTrap(unsafe.Pointer(infoFail), nil, nil, []interface{}{&err})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return errors.New("own")
}

func TestDemo(t *testing.T) {
	infoFail.Func = demoFail
	xrt.FakeRegister(unsafe.Pointer(infoFail))
	mine := errors.New("mine")
	cancel := PushRecorderInterceptor(demoFail, nil, func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object, data interface{}) error {
		return mine
	})
	defer cancel()
	if err := demoFail(); err != mine {
		t.Fatalf("the interceptor's error is lost: %v", err)
	}
}
'''),
dict(id="r14-ctx-done", property="R14", needs="a call whose context is already cancelled, seen by an interceptor",
 breaks="a call with a cancelled context reaches a mock interceptor with a made-up context instead of its own",
 edits=[(T+"build.go", '''			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
			if argCtx != nil {
				if expectCtx, ok := argCtx.(context.Context); ok {
					ctx = expectCtx''', '''			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
			if argCtx != nil {
				if expectCtx, ok := argCtx.(context.Context); ok && expectCtx.Err() == nil {
					ctx = expectCtx''')],
 demo='''package trap

import (
	"context"
	"testing"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
)

var infoCtx = &core.FuncInfo{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "demoCtx", Name: "demoCtx", ArgNames: []string{"ctx"}, FirstArgCtx: true}

//go:noinline
func demoCtx(ctx context.Context) {
	post, stop := xrt.XgoTrap(unsafe.Pointer(infoCtx), nil, []interface{}{&ctx}, nil)
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
}

func TestDemo(t *testing.T) {
	infoCtx.Func = demoCtx
	xrt.FakeRegister(unsafe.Pointer(infoCtx))
	for _, done := range []bool{false, true} {
		ctx, stop := context.WithCancel(context.WithValue(context.Background(), infoCtx, "mine"))
		if done {
			stop()
		}
		var got context.Context
		cancel := PushMockInterceptor(demoCtx, func(c context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
			got = c
			return nil
		})
		demoCtx(ctx)
		cancel()
		stop()
		if got != ctx {
			t.Fatalf("done=%v: not the call's own context: %v", done, got)
		}
	}
}
'''),
dict(id="r14-recorder-skip", property="R14", needs="a recorder on a method expression with more than one argument and result, or one whose receiver is recorded",
 breaks="a recorder on an unbound method gets its results shifted by one, because results are placed by the number of arguments without the receiver",
 edits=[(T+"build.go", '''		for i := 0; i < nResults; i++ {
			callArgs[callIdx] = argTypes[callIdx].get(reflect.ValueOf(results[i]))
			callIdx++
		}''', '''		for i := 0; i < nResults; i++ {
			callIdx = nIn - 1 - i
			callArgs[callIdx] = argTypes[callIdx].get(reflect.ValueOf(results[i]))
		}''')],
 demo='''package trap

import (
	"testing"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
)

var infoPair = &core.FuncInfo{Kind: core.Kind_Func, Pkg: demoPkg, IdentityName: "demoPair", Name: "demoPair", ArgNames: []string{"a"}, ResNames: []string{"x", "y"}}

//go:noinline
func demoPair(a int) (x int, y int) {
	post, stop := xrt.XgoTrap(unsafe.Pointer(infoPair), nil, []interface{}{&a}, []interface{}{&x, &y})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	return a, a * 10
}

func TestDemo(t *testing.T) {
	infoPair.Func = demoPair
	xrt.FakeRegister(unsafe.Pointer(infoPair))
	var gx, gy int
	cancel := PushRecorder(demoPair, nil, func(a int, x int, y int) { gx, gy = x, y })
	defer cancel()
	demoPair(3)
	if gx != 3 || gy != 30 {
		t.Fatalf("recorder saw %d, %d", gx, gy)
	}
}
'''),
]
