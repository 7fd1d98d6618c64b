From 8876118a762687e4f51fcc423a8b01cdabab4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 01/27] fix: run every recorder's and interceptor's own post
 callback

The closures captured the loop variable; the runtime module is go 1.14, so
all of them saw the last registration and only its post ran (repeatedly).
---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 ++
 cmd/xgo/asset/runtime_gen/internal/trap/var.go  | 2 ++
 runtime/internal/trap/trap.go                   | 2 ++
 runtime/internal/trap/var.go                    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 879b509..167be3a 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post closure
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post closure
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 391589a..4e724e6 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post closure
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post closure
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 879b509..167be3a 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post closure
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post closure
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 391589a..4e724e6 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post closure
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post closure
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
-- 
2.43.0


From 6b4d5af299f53390ba19b477fbca410c7ed639d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 02/27] fix: a goroutine inherits a recorder together with the
 instance it is bound to

The clone dropped wantRecvPtr, so in new goroutines an instance's recorder
fired for every instance of the type.
---
 cmd/xgo/asset/runtime_gen/internal/trap/init.go | 10 ++++++----
 runtime/internal/trap/init.go                   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index ec2d5e8..90aec78 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
@@ -145,8 +146,9 @@ func cloneRecorderList(recorders []*recorderHolder) []*recorderHolder {
 	newRecorders := make([]*recorderHolder, len(recorders))
 	for i, recorder := range recorders {
 		newRecorders[i] = &recorderHolder{
-			pre:  recorder.pre,
-			post: recorder.post,
+			wantRecvPtr: recorder.wantRecvPtr,
+			pre:         recorder.pre,
+			post:        recorder.post,
 		}
 	}
 	return newRecorders
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index ec2d5e8..90aec78 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
@@ -145,8 +146,9 @@ func cloneRecorderList(recorders []*recorderHolder) []*recorderHolder {
 	newRecorders := make([]*recorderHolder, len(recorders))
 	for i, recorder := range recorders {
 		newRecorders[i] = &recorderHolder{
-			pre:  recorder.pre,
-			post: recorder.post,
+			wantRecvPtr: recorder.wantRecvPtr,
+			pre:         recorder.pre,
+			post:        recorder.post,
 		}
 	}
 	return newRecorders
-- 
2.43.0


From 5d38650c1c1c1936ac8e7940b381ad290a8ae2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 03/27] fix: cancelling a registration leaves dispatches in
 progress alone

Removing from the middle shifted the shared backing array under a running
dispatch (skipping one handler, running another twice), appending after a
pop overwrote it, and a second cancel of the last registration panicked
with an index out of range instead of the documented message.
---
 .../runtime_gen/internal/trap/interceptor.go   |  6 +++---
 .../asset/runtime_gen/internal/trap/mock.go    | 18 +++++++++---------
 .../asset/runtime_gen/internal/trap/record.go  | 18 +++++++++---------
 runtime/internal/trap/interceptor.go           |  6 +++---
 runtime/internal/trap/mock.go                  | 18 +++++++++---------
 runtime/internal/trap/record.go                | 18 +++++++++---------
 6 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
index 588e3eb..e1a837f 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
@@ -55,14 +55,14 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 
 		list := holder.interceptors
 		n := len(list)
-		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.interceptors = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index e6b4a9b..8a5a240 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -184,14 +184,14 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 		}
 		list := holder.mock[pc]
 		n := len(list)
-		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.mock[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -216,14 +216,14 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		}
 		list := holder.varMock[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -248,14 +248,14 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		}
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varPtrMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index fcea21d..ca84a03 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -154,14 +154,14 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 		}
 		list := holder.recorder[pc]
 		n := len(list)
-		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.recorder[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -186,14 +186,14 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		}
 		list := holder.varRecorder[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -218,14 +218,14 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		}
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varPtrRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/interceptor.go b/runtime/internal/trap/interceptor.go
index 588e3eb..e1a837f 100644
--- a/runtime/internal/trap/interceptor.go
+++ b/runtime/internal/trap/interceptor.go
@@ -55,14 +55,14 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 
 		list := holder.interceptors
 		n := len(list)
-		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.interceptors = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index e6b4a9b..8a5a240 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -184,14 +184,14 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 		}
 		list := holder.mock[pc]
 		n := len(list)
-		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.mock[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -216,14 +216,14 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		}
 		list := holder.varMock[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -248,14 +248,14 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		}
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varPtrMock[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index fcea21d..ca84a03 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -154,14 +154,14 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 		}
 		list := holder.recorder[pc]
 		n := len(list)
-		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.recorder[pc] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -186,14 +186,14 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		}
 		list := holder.varRecorder[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -218,14 +218,14 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		}
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
-		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+		if n > 0 && list[n-1] == h {
+			holder.varPtrRecorder[varAddr] = list[: n-1 : n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
-- 
2.43.0


From b45427ef46cd1440c0d47bc925fdd0ea26016310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 04/27] fix: variable recorders with both pre and post, or only
 a pointer post

pre and post of the same type were rejected (the comparison was inverted),
and a pointer recorder given only as post was installed for value reads.
---
 cmd/xgo/asset/runtime_gen/internal/trap/record.go | 4 ++--
 runtime/internal/trap/record.go                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index ca84a03..f2f8815 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index ca84a03..f2f8815 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
-- 
2.43.0


From d9546dcac4f9a5d25d50900e9a66064dac3c9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 05/27] fix: compare all parameters but the receiver when
 checking a replacer

With the receiver skipped the loop ran one parameter too far and panicked
inside reflect for every replacer, matching or not.
---
 cmd/xgo/asset/runtime_gen/internal/trap/object.go | 2 +-
 runtime/internal/trap/object.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 831bf43..29ed304 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 831bf43..29ed304 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
-- 
2.43.0


From 5ad9b0569e9285030446fc98f905fd3095c35ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 06/27] fix: report an unknown pointer-variable name instead of
 dereferencing nil

---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 2 +-
 runtime/internal/trap/mock.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index 8a5a240..5a7b465 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -329,7 +329,7 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
 	if strings.HasPrefix(funcName, "*") {
 		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
-		if ptrFn.Kind == core.Kind_Var {
+		if ptrFn != nil && ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index 8a5a240..5a7b465 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -329,7 +329,7 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
 	if strings.HasPrefix(funcName, "*") {
 		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
-		if ptrFn.Kind == core.Kind_Var {
+		if ptrFn != nil && ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
-- 
2.43.0


From e8102f04beac19d7e11662b6670f1548a5f26e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 07/27] fix: do not drop the error of a variable pointer's mock
 interceptor

---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 8 +++++++-
 runtime/internal/trap/mock.go                   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index 5a7b465..b933495 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -68,7 +68,13 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				err := interceptor(context.Background(), fnInfo, argObj, resObject)
+				if err != nil {
+					if err == ErrMocked {
+						return
+					}
+					panic(err)
+				}
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index 5a7b465..b933495 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -68,7 +68,13 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				err := interceptor(context.Background(), fnInfo, argObj, resObject)
+				if err != nil {
+					if err == ErrMocked {
+						return
+					}
+					panic(err)
+				}
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
-- 
2.43.0


From 3eb9ff3028d487e2ae0da37d5c9fed43c3ba3dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 08/27] fix: never run the trace filter while already trapping

The filter was consulted at any depth, so a filter that calls an
instrumented function recursed without bound.
---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 +-
 runtime/internal/trap/trap.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 167be3a..7d1af6a 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -212,7 +212,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	// filter trace
 	var allowTracingThisEntry bool
-	if isTracing && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
+	if depth <= 1 && isTracing && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
 		allowTracingThisEntry = true
 	}
 
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 167be3a..7d1af6a 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -212,7 +212,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	// filter trace
 	var allowTracingThisEntry bool
-	if isTracing && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
+	if depth <= 1 && isTracing && (stackData.filterTrace == nil || stackData.filterTrace(funcInfo)) {
 		allowTracingThisEntry = true
 	}
 
-- 
2.43.0


From b4eed76dca28e653df0963e85ed40793aacc5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 09/27] fix: a trace that ends, or never starts, leaves mocks
 and recorders in place

Finishing a trace detached the goroutine's stack with every registration
on it, and a trace without OnFinish and OutputFile left the goroutine
marked as tracing, with its post callback run outside the trapping depth.
---
 .../asset/runtime_gen/internal/trap/trap.go   | 21 +++++++++++++++++--
 runtime/internal/trap/trap.go                 | 21 +++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 7d1af6a..0454294 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -298,13 +298,18 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 				}
 			}
 		}
-		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
+			// nowhere to report to: this is not a trace
+			stackData.hasStartedTracing = false
 			if stackAttached {
 				stack.Detach()
 			}
-			return postRecorder, false
+			if !mocked && mock != nil {
+				mocked = mock(funcInfo, recvPtr, args, results)
+			}
+			return callRecorderWithDepth, mocked
 		}
+		stackData.filterTrace = filterTrace
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
 	}
@@ -445,7 +450,19 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
+			// the trace is over, the goroutine's registrations are not:
+			// keep them on a fresh stack
 			stack.Detach()
+			stackData.hasStartedTracing = false
+			stackData.filterTrace = nil
+			stackData.onFinish = nil
+			stackData.stackOutputFile = ""
+			stack.Attach(&stack.Stack{
+				Begin: xgo_runtime.XgoRealTimeNow(),
+				Data: map[interface{}]interface{}{
+					dataKey: stackData,
+				},
+			})
 		}
 	}
 	if mocked {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 7d1af6a..0454294 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -298,13 +298,18 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 				}
 			}
 		}
-		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
+			// nowhere to report to: this is not a trace
+			stackData.hasStartedTracing = false
 			if stackAttached {
 				stack.Detach()
 			}
-			return postRecorder, false
+			if !mocked && mock != nil {
+				mocked = mock(funcInfo, recvPtr, args, results)
+			}
+			return callRecorderWithDepth, mocked
 		}
+		stackData.filterTrace = filterTrace
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
 	}
@@ -445,7 +450,19 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
+			// the trace is over, the goroutine's registrations are not:
+			// keep them on a fresh stack
 			stack.Detach()
+			stackData.hasStartedTracing = false
+			stackData.filterTrace = nil
+			stackData.onFinish = nil
+			stackData.stackOutputFile = ""
+			stack.Attach(&stack.Stack{
+				Begin: xgo_runtime.XgoRealTimeNow(),
+				Data: map[interface{}]interface{}{
+					dataKey: stackData,
+				},
+			})
 		}
 	}
 	if mocked {
-- 
2.43.0


From f789b43261743f5e37e30f8111b2bf722e0f57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 10/27] fix: variable rewriting follows Go's scopes in select,
 type parameters, if, for, switch and range

---
 instrument/resolve/expr.go               |  3 +++
 instrument/resolve/generic_go1.18.go     | 26 ++++++++++++++++++++++++
 instrument/resolve/generic_non_go1.18.go |  4 ++++
 instrument/resolve/name.go               |  5 +++++
 instrument/resolve/stmt.go               | 15 ++++++++++++--
 5 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index addf4b5..bb56a23 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -133,8 +133,11 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.X)
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
+		c.traverseExpr(node.Max)
 	case *ast.ChanType:
 		// chan something
+	case *ast.FuncType:
+		// func(...) ..., a case of a type switch
 	case *ast.MapType:
 		// map[key]value
 	case *ast.StructType:
diff --git a/instrument/resolve/generic_go1.18.go b/instrument/resolve/generic_go1.18.go
index a1ec6c0..57dceac 100644
--- a/instrument/resolve/generic_go1.18.go
+++ b/instrument/resolve/generic_go1.18.go
@@ -51,3 +51,29 @@ func (c *Scope) resolveIndexListExpr(expr ast.Expr) (types.Info, bool) {
 	}
 	return types.Unknown{}, true
 }
+
+// getTypeParamNames returns the names of type parameters declared
+// by a function, or by the receiver of a method
+func getTypeParamNames(recv *ast.FieldList, funcType *ast.FuncType) []string {
+	names := getFieldNames(funcType.TypeParams)
+	if recv == nil || len(recv.List) == 0 {
+		return names
+	}
+	recvType := deparen(recv.List[0].Type)
+	if star, ok := recvType.(*ast.StarExpr); ok {
+		recvType = deparen(star.X)
+	}
+	var params []ast.Expr
+	switch typ := recvType.(type) {
+	case *ast.IndexExpr:
+		params = []ast.Expr{typ.Index}
+	case *ast.IndexListExpr:
+		params = typ.Indices
+	}
+	for _, param := range params {
+		if idt, ok := param.(*ast.Ident); ok {
+			names = append(names, idt.Name)
+		}
+	}
+	return names
+}
diff --git a/instrument/resolve/generic_non_go1.18.go b/instrument/resolve/generic_non_go1.18.go
index 1a3a8e5..9f5d4ed 100644
--- a/instrument/resolve/generic_non_go1.18.go
+++ b/instrument/resolve/generic_non_go1.18.go
@@ -17,3 +17,7 @@ func (c *Scope) traverseIndexListExpr(expr ast.Expr) bool {
 func (c *Scope) resolveIndexListExpr(expr ast.Expr) (types.Info, bool) {
 	return nil, false
 }
+
+func getTypeParamNames(recv *ast.FieldList, funcType *ast.FuncType) []string {
+	return nil
+}
diff --git a/instrument/resolve/name.go b/instrument/resolve/name.go
index c639271..7c1d2c2 100644
--- a/instrument/resolve/name.go
+++ b/instrument/resolve/name.go
@@ -27,6 +27,11 @@ func getFuncDeclNamesNoBlank(recv *ast.FieldList, funcType *ast.FuncType) []stri
 			names = append(names, name)
 		}
 	}
+	for _, name := range getTypeParamNames(recv, funcType) {
+		if !isBlankName(name) {
+			names = append(names, name)
+		}
+	}
 	return names
 }
 
diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index ba73aa8..a140a30 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -15,6 +15,10 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.EmptyStmt:
 		// nothing
 	case *ast.RangeStmt:
+		// the operand is evaluated before
+		// the key and the value get declared
+		c.traverseExpr(node.X)
+		c = c.newScope()
 		if node.Tok == token.DEFINE {
 			if key, ok := node.Key.(*ast.Ident); ok && !isBlankName(key.Name) {
 				c.Add(key.Name)
@@ -23,7 +27,6 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 				c.Add(value.Name)
 			}
 		}
-		c.traverseExpr(node.X)
 		c.traverseBlockStmt(node.Body)
 	case *ast.DeferStmt:
 		c.traverseCallExpr(node.Call)
@@ -104,23 +107,27 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 			}
 		}
 	case *ast.TypeSwitchStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseStmt(node.Assign)
 		c.traverseBlockStmt(node.Body)
 	case *ast.BadStmt:
 		// nothing
 	case *ast.IfStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseExpr(node.Cond)
 		// node.Then =
 		c.traverseBlockStmt(node.Body)
 		c.traverseStmt(node.Else)
 	case *ast.ForStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseExpr(node.Cond)
 		c.traverseStmt(node.Post)
 		c.traverseBlockStmt(node.Body)
 	case *ast.SwitchStmt:
+		c = c.newScope()
 		c.traverseStmt(node.Init)
 		c.traverseExpr(node.Tag)
 		c.traverseBlockStmt(node.Body)
@@ -139,10 +146,14 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.IncDecStmt:
 		// ignore
 	case *ast.CaseClause:
+		c.traverseExprs(node.List)
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-		// TODO: handle name introduced in case
+		// names introduced in case are visible
+		// to the body of that case only
+		c = c.newScope()
+		c.traverseStmt(node.Comm)
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.SendStmt:
 		// ignore
-- 
2.43.0


From 95a38938136f16b8168358e2b82bb38e21f3b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 11/27] fix: infer the type of a variable initialised from
 untyped constants as Go does

---
 instrument/resolve/collect_var_ref.go |  4 ++
 instrument/resolve/resolve.go         | 55 +++++++++++++++++++++++++--
 2 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index 507bc06..54bab1e 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -155,6 +155,10 @@ func (c *Scope) tryResolveDeclType(decl *edit.Decl) bool {
 		return false
 	}
 	objType := obj.Type()
+	if _, ok := objType.(types.Tuple); ok {
+		// var a, b = f()
+		objType = types.Unknown{}
+	}
 	if types.IsUnknown(objType) {
 		decl.ResolvedValueType = types.Unknown{}
 		return false
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index c876c92..973823b 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -127,6 +127,12 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 						varType = c.resolveType(decl.Type)
 					} else if decl.Value != nil {
 						valInfo := c.resolveInfo(decl.Value)
+						if decl.Kind == edit.DeclKindConst {
+							if lit, ok := valInfo.(types.UntypedLiteral); ok {
+								// const without type remains untyped
+								return lit
+							}
+						}
 						if obj, ok := valInfo.(types.Object); ok {
 							varType = obj.Type()
 						}
@@ -223,8 +229,11 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			// first op type
 			opValue := c.resolveObject(expr.X)
 			// if untyped literal, resolve the second op
-			if _, ok := opValue.(types.UntypedLiteral); ok {
+			if xLit, ok := opValue.(types.UntypedLiteral); ok {
 				opValue = c.resolveObject(expr.Y)
+				if yLit, ok := opValue.(types.UntypedLiteral); ok {
+					return mergeUntyped(xLit, yLit)
+				}
 			}
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
@@ -239,12 +248,18 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
 			}
+			if lit, ok := opValue.(types.UntypedLiteral); ok {
+				if lit.Type_ != types.Basic("int") {
+					return types.Unknown{}
+				}
+				return lit
+			}
 			return types.Value{
 				Type_: opValue.Type(),
 			}
 		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
 			// boolean
-			return types.Value{
+			return types.UntypedLiteral{
 				Type_: types.Basic("bool"),
 			}
 		}
@@ -544,13 +559,47 @@ func getBasicLitConstType(kind token.Token) types.Type {
 	case token.STRING:
 		return types.Basic("string")
 	case token.CHAR:
-		return types.Basic("byte")
+		// rune
+		return types.Basic("int32")
 	case token.FLOAT:
 		return types.Basic("float64")
+	case token.IMAG:
+		return types.Basic("complex128")
 	}
 	return types.Unknown{}
 }
 
+// mergeUntyped returns the kind of an operation on
+// two untyped constants: the later of int, rune, float and complex
+func mergeUntyped(x types.UntypedLiteral, y types.UntypedLiteral) types.Info {
+	xKind := untypedNumericKind(x.Type_)
+	yKind := untypedNumericKind(y.Type_)
+	if xKind == 0 || yKind == 0 {
+		if x.Type_ != y.Type_ {
+			return types.Unknown{}
+		}
+		return x
+	}
+	if xKind > yKind {
+		return x
+	}
+	return y
+}
+
+func untypedNumericKind(typ types.Type) int {
+	switch typ {
+	case types.Basic("int"):
+		return 1
+	case types.Basic("int32"):
+		return 2
+	case types.Basic("float64"):
+		return 3
+	case types.Basic("complex128"):
+		return 4
+	}
+	return 0
+}
+
 func (c *Scope) newFileScope(pkg *edit.Package, file *edit.File) *Scope {
 	// config.LogDebug("newFileScope: next pkgDepth=%d", c.PkgDepth+1)
 	return newFileScope(c.Global, pkg, file, c.PkgDepth+1)
-- 
2.43.0


From 89431ea67e6da5b54d6f2fdb44180dde3309eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 12/27] fix: resolve a package declaration in the file
 declaring it, not where it is used

---
 instrument/resolve/collect_var_ref.go |  6 +++++-
 instrument/resolve/resolve.go         | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index 54bab1e..7e4a6ce 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -144,7 +144,11 @@ func (c *Scope) tryResolveDeclType(decl *edit.Decl) bool {
 	if decl.ResolvedValueType != nil {
 		return !types.IsUnknown(decl.ResolvedValueType)
 	}
-	info := c.resolveInfo(decl.Value)
+	scope := c
+	if fileScope := c.Global.cachedFileScopes[decl.File]; fileScope != nil {
+		scope = fileScope
+	}
+	info := scope.resolveInfo(decl.Value)
 	if types.IsUnknown(info) {
 		decl.ResolvedValueType = types.Unknown{}
 		return false
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index 973823b..e0f4dd1 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -108,6 +108,8 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				if config.DEBUG {
 					config_debug.OnResolvePackageDeclareInfo(c.Package.PkgPath(), c.File.File.File.Name, expr)
 				}
+				// a declaration is resolved in the file declaring it
+				c := c.declScope(decl)
 				if decl.Kind == edit.DeclKindType {
 					typ := c.resolveType(decl.Type)
 					if types.IsUnknown(typ) {
@@ -621,6 +623,15 @@ func getEmbedFieldName(typ ast.Expr) string {
 	return ident.Name
 }
 
+// declScope returns the scope in which a package level
+// declaration of c's package gets resolved
+func (c *Scope) declScope(decl *edit.Decl) *Scope {
+	if decl.File == nil {
+		return c
+	}
+	return c.newFileScope(c.Package.Package, decl.File)
+}
+
 func (c *Scope) resolveDef(def *Define) types.Info {
 	if def.Index == -1 {
 		// var := pkg.Name{}
-- 
2.43.0


From a210f7df0a35c094497f8aae6c547c4b3dd7c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 13/27] fix: type methods registered after the first lookup are
 found

---
 cmd/xgo/asset/runtime_gen/functab/functab.go | 26 +++++++++++---------
 runtime/functab/functab.go                   | 26 +++++++++++---------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/functab/functab.go b/cmd/xgo/asset/runtime_gen/functab/functab.go
index a046de0..e976ede 100755
--- a/cmd/xgo/asset/runtime_gen/functab/functab.go
+++ b/cmd/xgo/asset/runtime_gen/functab/functab.go
@@ -119,7 +119,7 @@ func GetFuncByFullName(fullName string) *core.FuncInfo {
 }
 
 func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
-	return getTypeMethodMapping()[typ]
+	return getTypeMethods(typ)
 }
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
@@ -312,18 +312,22 @@ func registerIndex(funcInfo *core.FuncInfo) {
 	}
 }
 
-var mappingTypeOnce sync.Once
+// typeMethodMapping is built lazily, typeMethodIndexed
+// is the number of funcInfos it already covers
+var typeMethodMutex sync.Mutex
+var typeMethodIndexed int
 
-func getTypeMethodMapping() map[reflect.Type]map[string]*core.FuncInfo {
-	mappingTypeOnce.Do(initTypeMethodMapping)
-	return typeMethodMapping
-}
-
-func initTypeMethodMapping() {
-	typeMethodMapping = make(map[reflect.Type]map[string]*core.FuncInfo)
-	for _, funcInfo := range funcInfos {
-		registerTypeMethod(funcInfo)
+func getTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
+	typeMethodMutex.Lock()
+	defer typeMethodMutex.Unlock()
+	if typeMethodMapping == nil {
+		typeMethodMapping = make(map[reflect.Type]map[string]*core.FuncInfo)
+	}
+	// functions may be registered after the first lookup
+	for ; typeMethodIndexed < len(funcInfos); typeMethodIndexed++ {
+		registerTypeMethod(funcInfos[typeMethodIndexed])
 	}
+	return typeMethodMapping[typ]
 }
 
 func registerTypeMethod(funcInfo *core.FuncInfo) {
diff --git a/runtime/functab/functab.go b/runtime/functab/functab.go
index a046de0..e976ede 100644
--- a/runtime/functab/functab.go
+++ b/runtime/functab/functab.go
@@ -119,7 +119,7 @@ func GetFuncByFullName(fullName string) *core.FuncInfo {
 }
 
 func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
-	return getTypeMethodMapping()[typ]
+	return getTypeMethods(typ)
 }
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
@@ -312,18 +312,22 @@ func registerIndex(funcInfo *core.FuncInfo) {
 	}
 }
 
-var mappingTypeOnce sync.Once
+// typeMethodMapping is built lazily, typeMethodIndexed
+// is the number of funcInfos it already covers
+var typeMethodMutex sync.Mutex
+var typeMethodIndexed int
 
-func getTypeMethodMapping() map[reflect.Type]map[string]*core.FuncInfo {
-	mappingTypeOnce.Do(initTypeMethodMapping)
-	return typeMethodMapping
-}
-
-func initTypeMethodMapping() {
-	typeMethodMapping = make(map[reflect.Type]map[string]*core.FuncInfo)
-	for _, funcInfo := range funcInfos {
-		registerTypeMethod(funcInfo)
+func getTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
+	typeMethodMutex.Lock()
+	defer typeMethodMutex.Unlock()
+	if typeMethodMapping == nil {
+		typeMethodMapping = make(map[reflect.Type]map[string]*core.FuncInfo)
+	}
+	// functions may be registered after the first lookup
+	for ; typeMethodIndexed < len(funcInfos); typeMethodIndexed++ {
+		registerTypeMethod(funcInfos[typeMethodIndexed])
 	}
+	return typeMethodMapping[typ]
 }
 
 func registerTypeMethod(funcInfo *core.FuncInfo) {
-- 
2.43.0


From ebb0ee98ade53f6e0e1e76cc0ba421248db2d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 14/27] fix: a variable type spanning several lines no longer
 shifts the lines after it

---
 instrument/instrument_var/trap_var.go | 37 +++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/instrument/instrument_var/trap_var.go b/instrument/instrument_var/trap_var.go
index f780f1c..fd92d74 100644
--- a/instrument/instrument_var/trap_var.go
+++ b/instrument/instrument_var/trap_var.go
@@ -3,8 +3,10 @@ package instrument_var
 import (
 	"fmt"
 	"go/ast"
+	"go/scanner"
 	"go/token"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/xhd2015/xgo/instrument/config"
@@ -91,6 +93,7 @@ func rewriteVarDefAndRefs(fset *token.FileSet, pkgPath string, file *edit.File,
 	if typeCode == "" {
 		return false
 	}
+	typeCode = inOneLine(typeCode)
 
 	varName := decl.Ident.Name
 
@@ -118,6 +121,40 @@ func rewriteVarDefAndRefs(fset *token.FileSet, pkgPath string, file *edit.File,
 	return true
 }
 
+// inOneLine puts a type spanning multiple lines into
+// one line, so that the lines after the inserted code
+// keep their numbers
+func inOneLine(typeCode string) string {
+	if !strings.Contains(typeCode, "\n") {
+		return typeCode
+	}
+	var s scanner.Scanner
+	src := []byte(typeCode)
+	s.Init(token.NewFileSet().AddFile("", -1, len(src)), src, nil, 0)
+
+	var tokens []string
+	for {
+		_, tok, lit := s.Scan()
+		if tok == token.EOF {
+			break
+		}
+		if tok == token.SEMICOLON || lit == "" {
+			lit = tok.String()
+		} else if tok == token.STRING && strings.Contains(lit, "\n") {
+			// raw tag
+			if tag, err := strconv.Unquote(lit); err == nil {
+				lit = strconv.Quote(tag)
+			}
+		}
+		tokens = append(tokens, lit)
+	}
+	if n := len(tokens); n > 0 && tokens[n-1] == ";" {
+		// implicit semicolon at the end
+		tokens = tokens[:n-1]
+	}
+	return strings.Join(tokens, " ")
+}
+
 func applyRewrite(prefix string, varRef *edit.VarRef) {
 	fileEdit := varRef.File.Edit
 	if varRef.Addr != nil && !varRef.FieldAccess {
-- 
2.43.0


From 2fa4495b4d2e501bc8080b6ba8bcde8d9aea7842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 15/27] fix: accept parenthesized receiver types

A method declared on (*T) or *(T) made instrumentation panic.
---
 instrument/ast/recv.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/instrument/ast/recv.go b/instrument/ast/recv.go
index f093fc6..85476b3 100644
--- a/instrument/ast/recv.go
+++ b/instrument/ast/recv.go
@@ -38,10 +38,12 @@ func ParseReceiverInfo(fnName string, receiverType ast.Expr) (identityName strin
 // which is the *ast.Ident for the type name portion (e.g., "Type").
 func ParseReceiverType(typeExpr ast.Expr) (ptr bool, generic bool, recvType *ast.Ident) {
 	orig := typeExpr
+	// a receiver's type may be parenthesized: (*T), *(T)
+	typeExpr = unparen(typeExpr)
 	starExpr, ok := typeExpr.(*ast.StarExpr)
 	if ok {
 		ptr = true
-		typeExpr = starExpr.X
+		typeExpr = unparen(starExpr.X)
 	}
 	indexExpr, ok := typeExpr.(*ast.IndexExpr)
 	if ok {
@@ -64,3 +66,13 @@ func ParseReceiverType(typeExpr ast.Expr) (ptr bool, generic bool, recvType *ast
 	}
 	return ptr, generic, idt
 }
+
+func unparen(expr ast.Expr) ast.Expr {
+	for {
+		paren, ok := expr.(*ast.ParenExpr)
+		if !ok {
+			return expr
+		}
+		expr = paren.X
+	}
+}
-- 
2.43.0


From 96aa529bd794a96aa46d44034ae426ef50912707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 16/27] fix: parts of variables whose address is taken or that
 are sliced stay addressable

---
 instrument/resolve/decl.go | 13 ++++++++---
 instrument/resolve/expr.go | 46 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/instrument/resolve/decl.go b/instrument/resolve/decl.go
index 65dff9d..0c2dfb2 100644
--- a/instrument/resolve/decl.go
+++ b/instrument/resolve/decl.go
@@ -1,6 +1,9 @@
 package resolve
 
-import "go/ast"
+import (
+	"go/ast"
+	"go/token"
+)
 
 func (ctx *Scope) traverseDecl(node ast.Decl) {
 	if node == nil {
@@ -15,8 +18,12 @@ func (ctx *Scope) traverseDecl(node ast.Decl) {
 					ctx.Add(spec.Name.Name)
 				}
 			case *ast.ValueSpec:
-				for _, value := range spec.Values {
-					ctx.traverseExpr(value)
+				if node.Tok != token.CONST {
+					// len(arr) is constant
+					// as long as arr gets not rewritten
+					for _, value := range spec.Values {
+						ctx.traverseExpr(value)
+					}
 				}
 				// name after values
 				for _, name := range spec.Names {
diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index bb56a23..16601e5 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -74,7 +74,7 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 	case *ast.UnaryExpr:
 		// take addr
 		if node.Op == token.AND {
-			switch x := node.X.(type) {
+			switch x := deparen(node.X).(type) {
 			case *ast.Ident:
 				if c.collectIdent(node, x) {
 					return
@@ -100,6 +100,7 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 					}
 				}
 			}
+			c.keepAddressable(node.X)
 		}
 		c.traverseExpr(node.X)
 	case *ast.CallExpr:
@@ -130,6 +131,8 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.Index)
 	case *ast.SliceExpr:
 		// something[...:...], only traverse the index
+		// an array must be addressable
+		c.keepPartAddressable(node.X)
 		c.traverseExpr(node.X)
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
@@ -172,6 +175,47 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 	}
 }
 
+// keepAddressable marks the variable expr is a part of,
+// so that it is referred to by its address
+func (c *Scope) keepAddressable(expr ast.Expr) {
+	switch expr := deparen(expr).(type) {
+	case *ast.SelectorExpr:
+		c.keepPartAddressable(expr.X)
+	case *ast.IndexExpr:
+		c.keepPartAddressable(expr.X)
+	}
+}
+
+// keepPartAddressable is keepAddressable for
+// something X in X.Field, X[...] and X[...:...]
+func (c *Scope) keepPartAddressable(expr ast.Expr) {
+	expr = deparen(expr)
+	if obj, ok := c.resolveInfo(expr).(types.Object); ok {
+		if ptrObj, ok := obj.(types.Pointer); ok {
+			obj = ptrObj.Value
+		}
+		typ := obj.Type()
+		if typ != nil && !types.IsUnknown(typ) {
+			switch typ.Underlying().(type) {
+			case types.Struct, types.Array:
+				// held by the variable itself
+			default:
+				return
+			}
+			if _, ok := obj.(types.PkgVariable); ok {
+				ptr := types.Pointer{Value: obj}
+				c.Global.ExprInfo[expr] = ptr
+				if sel, ok := expr.(*ast.SelectorExpr); ok {
+					// pkg.VarName
+					c.Global.ExprInfo[sel.Sel] = ptr
+				}
+				return
+			}
+		}
+	}
+	c.keepAddressable(expr)
+}
+
 func deparen(expr ast.Expr) ast.Expr {
 	if expr == nil {
 		return nil
-- 
2.43.0


From bfe0b288664c0aca9310d333050bed71b8125c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 17/27] fix: methods promoted to or called on parts of a
 variable tell whether its address is needed

---
 instrument/resolve/resolve.go    | 136 +++++++++++++++++++++----------
 instrument/resolve/types/type.go |   4 +
 2 files changed, 97 insertions(+), 43 deletions(-)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index e0f4dd1..f59c76c 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -312,11 +312,16 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			return info
 		case types.PkgTypeMethod:
 			return info
+		case types.Object:
+			if typ := info.Type(); typ != nil && !types.IsUnknown(typ) {
+				if arr, ok := typ.Underlying().(types.Array); ok {
+					return types.Value{Type_: arr.Elem}
+				}
+			}
 		}
 
 		// otherwise this yields an element type
-		// from a slice or array
-		// TODO: support array
+		// from a slice
 		return types.Unknown{}
 	case *ast.BasicLit:
 		typ := getBasicLitConstType(expr.Kind)
@@ -327,21 +332,22 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			Type_: typ,
 		}
 	case *ast.StructType:
-		fields := make([]types.StructField, len(expr.Fields.List))
-		for i, field := range expr.Fields.List {
+		fields := make([]types.StructField, 0, len(expr.Fields.List))
+		for _, field := range expr.Fields.List {
 			typ := c.lazyResolveType(field.Type)
 			if len(field.Names) > 0 {
 				for _, name := range field.Names {
-					fields[i] = types.StructField{
+					fields = append(fields, types.StructField{
 						Name: name.Name,
 						Type: typ,
-					}
+					})
 				}
 			} else {
-				fields[i] = types.StructField{
-					Name: getEmbedFieldName(field.Type),
-					Type: typ,
-				}
+				fields = append(fields, types.StructField{
+					Name:     getEmbedFieldName(field.Type),
+					Type:     typ,
+					Embedded: true,
+				})
 			}
 		}
 		return types.Struct{
@@ -712,15 +718,68 @@ func forAllNestedExpr(expr ast.Expr, fn func(expr ast.Expr)) {
 	case *ast.SelectorExpr:
 		forAllNestedExpr(expr.X, fn)
 		fn(expr.Sel)
+	case *ast.IndexExpr:
+		// element of an array
+		forAllNestedExpr(expr.X, fn)
 	case *ast.ParenExpr:
 		forAllNestedExpr(expr.X, fn)
 	}
 }
 
+// resolveFieldToObject resolves a field or method of valType,
+// including the ones promoted through embedded fields
+func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDetectedPointer func()) types.Object {
+	obj := c.resolveDirectField(valType, fieldName, onDetectedPointer)
+	if !types.IsUnknown(obj) {
+		return obj
+	}
+	type embedding struct {
+		typ types.Type
+		// isPtr: reached through a pointer, so
+		// it is always addressable
+		isPtr bool
+	}
+	level := []embedding{{typ: valType}}
+	// the shallowest one wins
+	for depth := 0; depth < 8 && len(level) > 0; depth++ {
+		var next []embedding
+		for _, e := range level {
+			underlying := e.typ.Underlying()
+			isPtr := e.isPtr
+			if rawPtr, ok := underlying.(types.RawPtr); ok {
+				isPtr = true
+				underlying = rawPtr.Elem
+			}
+			structType, ok := underlying.(types.Struct)
+			if !ok {
+				// could have any method
+				return types.Unknown{}
+			}
+			for _, field := range structType.Fields {
+				if field.Embedded {
+					next = append(next, embedding{typ: types.ResolveLazy(field.Type), isPtr: isPtr})
+				}
+			}
+		}
+		for _, e := range next {
+			onPointer := onDetectedPointer
+			if e.isPtr {
+				onPointer = nil
+			}
+			obj := c.resolveDirectField(e.typ, fieldName, onPointer)
+			if !types.IsUnknown(obj) {
+				return obj
+			}
+		}
+		level = next
+	}
+	return types.Unknown{}
+}
+
 // valType can be: LazyType, ptr to LazyType
 // LazyType usually comes from struct field
 // deferred resolving
-func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDetectedPointer func()) types.Object {
+func (c *Scope) resolveDirectField(valType types.Type, fieldName string, onDetectedPointer func()) types.Object {
 	valType = types.ResolveLazy(valType)
 	var isPtr bool
 	resolveType := valType
@@ -754,39 +813,30 @@ func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDet
 				Recv: resolvedNamedType,
 				// TODO params
 			}
-		} else {
-			// check fields
-			var isPtr bool
-			valType := valType.Underlying()
-			if rawPtr, ok := valType.(types.RawPtr); ok {
-				isPtr = true
-				valType = rawPtr.Elem
+		}
+	}
+
+	// check fields
+	underlying := valType.Underlying()
+	if rawPtr, ok := underlying.(types.RawPtr); ok {
+		underlying = rawPtr.Elem
+	}
+	ud, ok := underlying.(types.Struct)
+	if ok {
+		var fieldType types.Type
+		for _, field := range ud.Fields {
+			if field.Name == fieldName {
+				fieldType = field.Type
+				break
 			}
-			ud, ok := valType.(types.Struct)
-			if ok {
-				var fieldType types.Type
-				for _, field := range ud.Fields {
-					if field.Name == fieldName {
-						fieldType = field.Type
-						break
-					}
-				}
-				// struct X{ *Reader }
-				// x:=&X{}
-				// x.Reader -> *Reader
-				if fieldType != nil && !types.IsUnknown(fieldType) {
-					v := types.Value{
-						Type_: fieldType,
-					}
-					// comment the following code due to: https://github.com/xhd2015/xgo/issues/361
-					_ = isPtr
-					// if isPtr && !types.IsPointer(fieldType) {
-					// 	return types.Pointer{
-					// 		Value: v,
-					// 	}
-					// }
-					return v
-				}
+		}
+		// struct X{ *Reader }
+		// x:=&X{}
+		// x.Reader -> *Reader
+		if fieldType != nil && !types.IsUnknown(fieldType) {
+			// always a value, see issue https://github.com/xhd2015/xgo/issues/361
+			return types.Value{
+				Type_: fieldType,
 			}
 		}
 	}
diff --git a/instrument/resolve/types/type.go b/instrument/resolve/types/type.go
index 022c98d..096e862 100644
--- a/instrument/resolve/types/type.go
+++ b/instrument/resolve/types/type.go
@@ -127,6 +127,10 @@ type Struct struct {
 type StructField struct {
 	Name string
 	Type Type
+
+	// Embedded indicates the field has no name of its own,
+	// its fields and methods are promoted
+	Embedded bool
 }
 
 type Interface struct {
-- 
2.43.0


From 90e0e1f4928178a61127b1bb121efa295795f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 18/27] fix: report the failure of commands run by cmd.Output
 without options

---
 support/cmd/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/cmd/cmd.go b/support/cmd/cmd.go
index 7b8ea9d..a0cff75 100644
--- a/support/cmd/cmd.go
+++ b/support/cmd/cmd.go
@@ -175,7 +175,7 @@ func cmdExecEnv(cmd string, args []string, env []string, dir string, useStdout b
 	outStr = strings.TrimSuffix(outStr, "\r")
 	outStr = strings.TrimSuffix(outStr, "\n")
 	if err != nil {
-		if c != nil && !c.ignoreError {
+		if c == nil || !c.ignoreError {
 			return outStr, err
 		}
 		err = nil
-- 
2.43.0


From a0c06f164e35f03d06e0ad32a81ae08ef1019cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 19/27] fix: report errors of concurrent copies and of closing
 a copied file, follow relative directory links

---
 support/filecopy/copy.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 366faac..445ace4 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -220,6 +220,13 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	close(ch)
 	// NOTE: must wait all goroutines to finish
 	wg.Wait()
+	if err == nil {
+		// an error sent after the last file was handed out
+		select {
+		case err = <-errCh:
+		default:
+		}
+	}
 
 	// fmt.Printf("copied: %d\n", atomic.LoadInt64(&added))
 	return err
@@ -259,6 +266,10 @@ func copyDirHandle(srcDir string, targetAbsDir string, opts *copyOptions, handle
 		if err != nil {
 			return err
 		}
+		if !filepath.IsAbs(linkDir) {
+			// relative to the directory holding the link
+			linkDir = filepath.Join(filepath.Dir(srcDir), linkDir)
+		}
 		actualDir = linkDir
 	}
 	// clean example:
@@ -318,7 +329,7 @@ func CopyFileAll(src string, dst string) error {
 	return copyFile(src, dst, true, nil)
 }
 
-func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
+func copyFile(src string, dst string, mkdirs bool, buf []byte) (err error) {
 	reader, err := os.Open(src)
 	if err != nil {
 		return err
@@ -336,7 +347,13 @@ func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
 	if err != nil {
 		return err
 	}
-	defer writer.Close()
+	defer func() {
+		// what was written may only be found missing on close
+		closeErr := writer.Close()
+		if err == nil {
+			err = closeErr
+		}
+	}()
 
 	// NOTE: go has optimization when copy file on linux
 	// but that omits the buffer we pass to it,
-- 
2.43.0


From 6dfccc63e32399b366b5d3beaced5d4c235ff1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 20/27] fix: complete a file's record before it is counted as
 read

---
 instrument/load/load.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrument/load/load.go b/instrument/load/load.go
index 0988579..f294f95 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -110,9 +110,9 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 				case f := <-readChan:
 					content, err := readFile(overlayFS, f.AbsPath, maxFileSize)
 					if err != nil {
-						// mark the file done
-						wg.Done()
 						f.Error = err
+						// mark the file done, after everything is known of it
+						wg.Done()
 						continue
 					}
 					f.Content = content
-- 
2.43.0


From 30062bd5c2f1808bd50d0f99a8249ccedc211be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 21/27] fix: report a modfile that cannot be resolved, and
 patches that cannot be renamed

---
 cmd/xgo/main.go  | 2 +-
 cmd/xgo/patch.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 2eace03..d8c4f21 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -662,7 +662,7 @@ func handleBuild(cmd string, args []string) error {
 			// make modfile absolute
 			modfile, err = filepath.Abs(modfile)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 		instrumentGo := filepath.Join(instrumentGoroot, "bin", "go"+osinfo.EXE_SUFFIX)
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index d477740..3c3ca9a 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -67,7 +67,7 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 				return fmt.Errorf("extract patches: %w", err)
 			}
 			patchDir = filepath.Join(patchDir, fmt.Sprintf("go%d.%d", goVersion.Major, goVersion.Minor))
-			filepath.WalkDir(patchDir, func(path string, d os.DirEntry, err error) error {
+			err = filepath.WalkDir(patchDir, func(path string, d os.DirEntry, err error) error {
 				if err != nil {
 					return err
 				}
@@ -76,6 +76,10 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 				}
 				return nil
 			})
+			// a missing patchDir is reported below
+			if err != nil && !os.IsNotExist(err) {
+				return fmt.Errorf("rename patches: %w", err)
+			}
 			xgoSrc, err = os.MkdirTemp("", "xgo-src-*")
 			if err != nil {
 				return err
-- 
2.43.0


From 662bb6ee3599d3fe1d273040293ccd83f4458c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 22/27] fix: IS_WINDOWS was swapped

---
 support/osinfo/osinfo_nonwin.go | 2 +-
 support/osinfo/osinfo_win.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/osinfo/osinfo_nonwin.go b/support/osinfo/osinfo_nonwin.go
index d672bd2..801c944 100644
--- a/support/osinfo/osinfo_nonwin.go
+++ b/support/osinfo/osinfo_nonwin.go
@@ -9,4 +9,4 @@ const EXE_SUFFIX = ""
 // symbolic as long as possible
 const FORCE_COPY_UNSYM = false
 
-const IS_WINDOWS = true
+const IS_WINDOWS = false
diff --git a/support/osinfo/osinfo_win.go b/support/osinfo/osinfo_win.go
index ccf357d..8777909 100644
--- a/support/osinfo/osinfo_win.go
+++ b/support/osinfo/osinfo_win.go
@@ -9,4 +9,4 @@ const EXE_SUFFIX = ".exe"
 // symbolic as it may cause failure
 const FORCE_COPY_UNSYM = true
 
-const IS_WINDOWS = false
+const IS_WINDOWS = true
-- 
2.43.0


From dfe0ac171e294e346548cc8dc2d019bb23954005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 23/27] fix: a handler that panics with an error answers with
 that error

---
 support/netutil/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/netutil/http.go b/support/netutil/http.go
index a7ebe63..b5a2ae6 100644
--- a/support/netutil/http.go
+++ b/support/netutil/http.go
@@ -42,7 +42,7 @@ func HandleJSON(w http.ResponseWriter, r *http.Request, h func(ctx context.Conte
 			stack := debug.Stack()
 			log.Printf("panic: %s", stack)
 			if pe, ok := e.(error); ok {
-				e = pe
+				err = pe
 			} else {
 				err = fmt.Errorf("panic: %v", e)
 			}
-- 
2.43.0


From 9dfb27778463e85b5c2e0fd204eab611a711d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 24/27] fix: aliases of one overlaid file get the same target
 everywhere, on every run

---
 instrument/overlay/io.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 7ae14bb..1aa34a1 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -79,6 +79,11 @@ func ParseGoOverlay(input *GoOverlay, opts PathOptions) *ParsedOverlay {
 			TargetCanonical: evalSymlinksAbs(tgtRes),
 		})
 	}
+	// input.Replace has no order: when several keys are aliases of one file,
+	// every use of the entries must pick the same of them, on every run
+	sort.Slice(out.Entries, func(i, j int) bool {
+		return out.Entries[i].SourceInput < out.Entries[j].SourceInput
+	})
 	return out
 }
 
@@ -90,9 +95,9 @@ func (p *ParsedOverlay) ApplyFileRedirects(fs Overlay) {
 	if p == nil {
 		return
 	}
-	for _, e := range p.Entries {
+	for source, target := range p.CanonicalReplace() {
 		// Canonical source/target; OverrideFile re-keys via absFileKey.
-		fs.OverrideFile(e.SourceCanonical, e.TargetCanonical)
+		fs.OverrideFile(source, target)
 	}
 }
 
-- 
2.43.0


From f859984451bd3e9d568966d70fba1e7ada66ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 25/27] fix: a file the caller's overlay removes stays removed

---
 cmd/xgo/trace.go              |  3 +++
 instrument/overlay/io.go      |  7 +++++++
 instrument/overlay/overlay.go | 24 ++++++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index d5ef4ef..9a1a812 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -720,6 +720,9 @@ func applyBlankImportThroughOverlay(overlayFS overlay.Overlay, fileReplace map[o
 		return nil
 	}
 	for src, prepTarget := range fileReplace {
+		if overlayFS.Removed(src) {
+			continue
+		}
 		_, content, err := overlayFS.Read(src)
 		if err != nil {
 			if prepTarget == "" {
diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 1aa34a1..a6ca596 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -136,6 +136,10 @@ func (p *ParsedOverlay) ProjectOntoCallerSources(composed *GoOverlay) {
 }
 
 func ResolveAbsFile(file AbsFile, opts PathOptions) AbsFile {
+	if file == "" {
+		// an empty target stands for a removed file, it is not a path
+		return ""
+	}
 	path := filepath.FromSlash(string(file))
 	if !filepath.IsAbs(path) && opts.BaseDir != "" {
 		path = filepath.Join(opts.BaseDir, path)
@@ -151,6 +155,9 @@ func CanonicalizeAbsFile(file AbsFile, opts PathOptions) AbsFile {
 }
 
 func evalSymlinksAbs(file AbsFile) AbsFile {
+	if file == "" {
+		return ""
+	}
 	path := filepath.FromSlash(string(file))
 	if resolved, err := filepath.EvalSymlinks(path); err == nil {
 		path = resolved
diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index a10ff8e..43381cb 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -19,6 +19,9 @@ type FileOverlay struct {
 	Content string
 
 	hasOverriddenContent bool
+
+	// the file is to be treated as if it did not exist
+	removed bool
 }
 
 func MakeOverlay() Overlay {
@@ -39,7 +42,13 @@ func absFileKey(file AbsFile) AbsFile {
 	return AbsFile(path)
 }
 
+// OverrideFile redirects absFile to targetFile. Like in Go's overlay, an empty
+// targetFile removes absFile.
 func (o Overlay) OverrideFile(absFile AbsFile, targetFile AbsFile) {
+	if targetFile == "" {
+		o[absFileKey(absFile)] = &FileOverlay{removed: true}
+		return
+	}
 	o[absFileKey(absFile)] = &FileOverlay{
 		AbsFile: absFileKey(targetFile),
 	}
@@ -58,11 +67,20 @@ func (o Overlay) Get(absFile AbsFile) *FileOverlay {
 	return o[absFileKey(absFile)]
 }
 
+// Removed tells whether absFile is to be treated as if it did not exist.
+func (o Overlay) Removed(absFile AbsFile) bool {
+	overlayFile := o.Get(absFile)
+	return overlayFile != nil && overlayFile.removed
+}
+
 func (o Overlay) Size(absFile AbsFile) (size int64, err error) {
 	overlayFile := o.Get(absFile)
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.removed {
+			return 0, &os.PathError{Op: "stat", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return int64(len(overlayFile.Content)), nil
 		}
@@ -82,6 +100,9 @@ func (o Overlay) Read(absFile AbsFile) (hitContent bool, content string, err err
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.removed {
+			return false, "", &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return true, overlayFile.Content, nil
 		}
@@ -101,6 +122,9 @@ func (o Overlay) ReadBytes(absFile AbsFile) (hitContent bool, content []byte, er
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.removed {
+			return false, nil, &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return true, []byte(overlayFile.Content), nil
 		}
-- 
2.43.0


From 1a5edc3009ad2f61a58e5e30d0c27ddaef18f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 26/27] fix: a function named by a mock is trapped however many
 a file has

---
 instrument/instrument_func/trap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/instrument/instrument_func/trap.go b/instrument/instrument_func/trap.go
index 8ff6713..5efc89f 100644
--- a/instrument/instrument_func/trap.go
+++ b/instrument/instrument_func/trap.go
@@ -106,8 +106,8 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			config_debug.OnTrapFunc(pkgPath, funcDecl, identityName)
 		}
 
+		var hitRecorder bool
 		if instrumentMode != config.InstrumentMode_All {
-			var hitRecorder bool
 			if recorder != nil {
 				var hasFnRecord bool
 				var hasTypeMethodRecord bool
@@ -160,7 +160,9 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			// take the first 100, see
 			//  - https://github.com/xhd2015/xgo/issues/333#issuecomment-2830937257
 			var addExtra bool
-			if instrumentMode == config.InstrumentMode_All {
+			if instrumentMode == config.InstrumentMode_All || hitRecorder {
+				// explicitly mocked functions are always trapped, the
+				// limits below are for functions trapped in bulk
 				addExtra = true
 			} else if len(extraFuncs) < config.MAX_EXTRA_FUNCS_PER_FILE {
 				if pkgQuota != nil {
-- 
2.43.0


From f49420f9f9865dbac8c36b2acd7fb1f69b6e198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 27/27] fix: the value of a variable in a patch command is not
 substituted again, in map order

---
 instrument/patch/apply.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/instrument/patch/apply.go b/instrument/patch/apply.go
index bbfc6e0..8cde39c 100644
--- a/instrument/patch/apply.go
+++ b/instrument/patch/apply.go
@@ -322,21 +322,26 @@ func shouldSkipKind(kind string, skipKinds []string) bool {
 }
 
 func substituteEnvSlice(args []string, extraEnv map[string]string) []string {
+	replacer := makeEnvReplacer(extraEnv)
 	result := make([]string, len(args))
 	for i, arg := range args {
-		result[i] = arg
-		for k, v := range extraEnv {
-			result[i] = strings.ReplaceAll(result[i], "${"+k+"}", v)
-		}
+		result[i] = replacer.Replace(arg)
 	}
 	return result
 }
 
 func substituteEnv(s string, extraEnv map[string]string) string {
+	return makeEnvReplacer(extraEnv).Replace(s)
+}
+
+// makeEnvReplacer replaces all ${VAR} in one pass: a value is never substituted
+// again, so the result does not depend on the order of the map.
+func makeEnvReplacer(extraEnv map[string]string) *strings.Replacer {
+	oldnew := make([]string, 0, 2*len(extraEnv))
 	for k, v := range extraEnv {
-		s = strings.ReplaceAll(s, "${"+k+"}", v)
+		oldnew = append(oldnew, "${"+k+"}", v)
 	}
-	return s
+	return strings.NewReplacer(oldnew...)
 }
 
 func resolveCwd(cwd string, goroot string, extraEnv map[string]string) string {
-- 
2.43.0

