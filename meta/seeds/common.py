HEAD = '''package trap

import (
	"testing"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	xrt "github.com/xhd2015/xgo/runtime/internal/runtime"
	"github.com/xhd2015/xgo/runtime/internal/stack"
)

var _ = unsafe.Pointer(nil)
var _ core.FuncInfo
var _ xrt.G
var _ stack.Stack

'''
T = "runtime/internal/trap/"
