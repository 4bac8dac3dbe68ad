From f4fab692a0165d72bbea7aa3b7dacecf4882f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 01/15] fix: reject a re-mock before patching, so the mock in
 force is kept

---
 convey.go   | 7 +++++--
 mock.go     | 1 +
 mock_var.go | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/convey.go b/convey.go
index 7e7bd3e..552c9f1 100644
--- a/convey.go
+++ b/convey.go
@@ -48,12 +48,15 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-func addToGlobal(mocker mockerInstance) {
-	tool.DebugPrintf("%v added\n", mocker.key())
+func checkGlobal(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
 	if ok {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
+}
+
+func addToGlobal(mocker mockerInstance) {
+	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
 }
 
diff --git a/mock.go b/mock.go
index 676f006..2a3c47b 100644
--- a/mock.go
+++ b/mock.go
@@ -327,6 +327,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	if mocker.isPatched {
 		return mocker
 	}
+	checkGlobal(mocker) // a rejected re-mock must leave the previous mock in force
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
diff --git a/mock_var.go b/mock_var.go
index 910816c..d4af185 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -73,6 +73,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 	defer mocker.lock.Unlock()
 
 	if !mocker.isPatched {
+		checkGlobal(mocker) // a rejected re-mock must leave the previous mock in force
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From 56274918484d41cc12362156e931eb8e606bc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 02/15] fix: remove an unpatched mocker from the context it was
 added in

---
 convey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 552c9f1..75ed2a8 100644
--- a/convey.go
+++ b/convey.go
@@ -62,7 +62,14 @@ func addToGlobal(mocker mockerInstance) {
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
-	delete(gMocker[len(gMocker)-1], mocker.key())
+	// the mocker may have been added in an outer 'PatchConvey'
+	for i := len(gMocker) - 1; i >= 0; i-- {
+		last := gMocker[i][mocker.key()]
+		delete(gMocker[i], mocker.key())
+		if last == mocker {
+			return
+		}
+	}
 }
 
 // Unpatch all mocks in current 'PatchConvey' context
-- 
2.43.0


From 2527b1f4ce9d61c4fe6768ad354c6630e9f883cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 03/15] fix: calling origin must not overwrite the arguments of
 the mocked call

---
 mock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 2a3c47b..395fa3d 100644
--- a/mock.go
+++ b/mock.go
@@ -313,7 +313,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From 81ce050016b0c617b9f36ccc563c84a9515cc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 04/15] fix: pass variadic arguments through without copying
 them

---
 internal/tool/call.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index 40dd333..22a61a0 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -22,16 +22,8 @@ import (
 
 func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 	if f.Type().IsVariadic() {
-		newArgs := make([]reflect.Value, 0)
-		lastArg := args[len(args)-1]
-		for i := 0; i < len(args)-1; i++ {
-			newArgs = append(newArgs, args[i])
-		}
-
-		for i := 0; i < lastArg.Len(); i++ {
-			newArgs = append(newArgs, lastArg.Index(i))
-		}
-		return f.Call(newArgs)
+		// pass the variadic slice as it is, the callee may check for nil or write its elements
+		return f.CallSlice(args)
 	} else {
 		return f.Call(args)
 	}
-- 
2.43.0


From 899cda851a9585cd0b1ab59d5ca76108b1fc31ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 05/15] fix: unpatch the mocks of a context in reverse order,
 as they may overlap

---
 convey.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/convey.go b/convey.go
index 75ed2a8..4589902 100644
--- a/convey.go
+++ b/convey.go
@@ -23,21 +23,20 @@ import (
 	"github.com/smartystreets/goconvey/convey"
 )
 
-var gMocker = make([]map[uintptr]mockerInstance, 0)
+// gMocker holds the mocks of every 'PatchConvey' context, in the order they are added
+var gMocker = make([][]mockerInstance, 0)
 
 func init() {
-	gMocker = append(gMocker, make(map[uintptr]mockerInstance))
+	gMocker = append(gMocker, []mockerInstance{})
 }
 
 func PatchConvey(items ...interface{}) {
 	for i, item := range items {
 		if reflect.TypeOf(item).Kind() == reflect.Func {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
-				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
+				gMocker = append(gMocker, []mockerInstance{})
 				defer func() {
-					for _, mocker := range gMocker[len(gMocker)-1] {
-						mocker.unPatch()
-					}
+					UnPatchAll()
 					gMocker = gMocker[:len(gMocker)-1]
 				}()
 				return tool.ReflectCall(reflect.ValueOf(item), args)
@@ -49,29 +48,43 @@ func PatchConvey(items ...interface{}) {
 }
 
 func checkGlobal(mocker mockerInstance) {
-	last, ok := gMocker[len(gMocker)-1][mocker.key()]
-	if ok {
-		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
+	mockers := gMocker[len(gMocker)-1]
+	if i := indexOf(mockers, mocker.key()); i >= 0 {
+		tool.Assert(false, "re-mock %v, previous mock at: %v", mocker.name(), mockers[i].caller())
 	}
 }
 
 func addToGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v added\n", mocker.key())
-	gMocker[len(gMocker)-1][mocker.key()] = mocker
+	gMocker[len(gMocker)-1] = append(gMocker[len(gMocker)-1], mocker)
 }
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
 	// the mocker may have been added in an outer 'PatchConvey'
 	for i := len(gMocker) - 1; i >= 0; i-- {
-		last := gMocker[i][mocker.key()]
-		delete(gMocker[i], mocker.key())
+		j := indexOf(gMocker[i], mocker.key())
+		if j < 0 {
+			continue
+		}
+		last := gMocker[i][j]
+		gMocker[i] = append(gMocker[i][:j:j], gMocker[i][j+1:]...)
 		if last == mocker {
 			return
 		}
 	}
 }
 
+// indexOf gets the index of the mock which has the given key, -1 if there is no such mock
+func indexOf(mockers []mockerInstance, key uintptr) int {
+	for i, mocker := range mockers {
+		if mocker.key() == key {
+			return i
+		}
+	}
+	return -1
+}
+
 // Unpatch all mocks in current 'PatchConvey' context
 //
 // If the caller is out of 'PatchConvey', it will unpatch all mocks
@@ -97,7 +110,9 @@ func removeFromGlobal(mocker mockerInstance) {
 //		}
 //	})
 func UnPatchAll() {
-	for _, mocker := range gMocker[len(gMocker)-1] {
-		mocker.unPatch()
+	// mocks may overlap(a struct and its field, instantiations sharing the same code), so the last one goes first
+	mockers := gMocker[len(gMocker)-1]
+	for i := len(mockers) - 1; i >= 0; i-- {
+		mockers[i].unPatch()
 	}
 }
-- 
2.43.0


From 9f591e78e00757aef860f084cf8844ada46a1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 06/15] fix: let PatchConvey accept a nil action, as Convey
 does

---
 convey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 4589902..4623495 100644
--- a/convey.go
+++ b/convey.go
@@ -32,7 +32,7 @@ func init() {
 
 func PatchConvey(items ...interface{}) {
 	for i, item := range items {
-		if reflect.TypeOf(item).Kind() == reflect.Func {
+		if item != nil && reflect.TypeOf(item).Kind() == reflect.Func {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
 				gMocker = append(gMocker, []mockerInstance{})
 				defer func() {
-- 
2.43.0


From 489ef199bcc67b7c72132896f86f2c030cbd4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 07/15] fix: apply the value when To is called on a mocked
 variable

---
 mock_var.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mock_var.go b/mock_var.go
index d4af185..0ce59a1 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -53,17 +53,15 @@ func MockValue(targetPtr interface{}) *MockerVar {
 }
 
 func (mocker *MockerVar) To(value interface{}) *MockerVar {
-	var v reflect.Type
-
-	if value == nil {
-		mocker.hook = reflect.Zero(mocker.targetType)
-		v = mocker.targetType
-	} else {
-		mocker.hook = reflect.ValueOf(value)
-		v = reflect.TypeOf(value)
+	hook := reflect.Zero(mocker.targetType)
+	if value != nil {
+		hook = reflect.ValueOf(value)
 	}
+	v := hook.Type()
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	mocker.UnPatch() // a new value takes effect even if the variable is mocked already
+	mocker.hook = hook
 	mocker.Patch()
 	return mocker
 }
-- 
2.43.0


From f908160187b3bfcd31dcb4ccefe2bf184cfecc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 08/15] fix: goroutine ID offset on Go 1.25 and above

---
 internal/tool/goroutine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tool/goroutine.go b/internal/tool/goroutine.go
index 9dd4a60..e849f44 100644
--- a/internal/tool/goroutine.go
+++ b/internal/tool/goroutine.go
@@ -25,14 +25,15 @@ import (
 
 // The `goid` field offset in the struct g in the runtime package
 // 152 before, 160 after go1.22 (go1.23 introduced the `syscallbp` field before goid)
+// and 152 again after go1.24 (go1.25 removed `gobuf.ret` before goid)
 var gGoroutineIDOffset uintptr
 
 func init() {
 	gGoroutineIDOffset = 152 // Go1.22-
 	vcode := strings.Split(strings.TrimPrefix(runtime.Version(), "go"), ".")
 	if len(vcode) >= 2 && vcode[0] == "1" {
-		if subv, err := strconv.ParseInt(vcode[1], 10, 64); err == nil && subv > 22 {
-			gGoroutineIDOffset = 160 // Go1.23+
+		if subv, err := strconv.ParseInt(vcode[1], 10, 64); err == nil && subv > 22 && subv < 25 {
+			gGoroutineIDOffset = 160 // Go1.23, Go1.24
 		}
 	}
 }
-- 
2.43.0


From 9a4f705a73e9b932df9cdf3dcc62c68949dcfeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 09/15] fix: do not print or panic while the world is stopped

---
 internal/monkey/mem/write.go        | 23 ++++++++++++++++-------
 internal/monkey/mem/write_darwin.go |  5 -----
 internal/monkey/mem/write_linux.go  |  5 -----
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 5d71863..d8e7122 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -25,9 +25,20 @@ import (
 // WriteWithSTW copies data bytes to the target address and replaces the original bytes, during which it will stop the
 // world (only the current goroutine's P is running).
 func WriteWithSTW(target uintptr, data []byte) {
+	tool.DebugPrintf("WriteWithSTW: target(0x%x), target page(0x%x), len(%v)\n", target, common.PageOf(target), len(data))
+
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
+	// do not print or panic until the world starts again: neither is allowed when the world is stopped
+	err := writePages(target, data)
+	ctx.StartTheWorld()
+
+	tool.Assert(err == nil, err)
+	tool.DebugPrintf("WriteWithSTW end\n")
+}
 
+// writePages writes the data page by page.
+func writePages(target uintptr, data []byte) error {
 	begin := target
 	end := target + uintptr(len(data))
 	for begin < end {
@@ -35,15 +46,13 @@ func WriteWithSTW(target uintptr, data []byte) {
 			nextPage := common.PageOf(begin) + uintptr(common.PageSize())
 			buf := data[:nextPage-begin]
 			data = data[nextPage-begin:]
-			err := Write(begin, buf)
-			tool.Assert(err == nil, err)
+			if err := Write(begin, buf); err != nil {
+				return err
+			}
 			begin += uintptr(len(buf))
 			continue
 		}
-		err := Write(begin, data)
-		tool.Assert(err == nil, err)
-		break
+		return Write(begin, data)
 	}
-
-	ctx.StartTheWorld()
+	return nil
 }
diff --git a/internal/monkey/mem/write_darwin.go b/internal/monkey/mem/write_darwin.go
index 529a300..2f23723 100644
--- a/internal/monkey/mem/write_darwin.go
+++ b/internal/monkey/mem/write_darwin.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(darwin)")
 	return nil
 }
 
diff --git a/internal/monkey/mem/write_linux.go b/internal/monkey/mem/write_linux.go
index cab438c..85cb171 100644
--- a/internal/monkey/mem/write_linux.go
+++ b/internal/monkey/mem/write_linux.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(linux)")
 	return nil
 }
 
-- 
2.43.0


From f76590ba64b526991ce6b19dfb31d470aa1500dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 10/15] fix: reject functions too short to patch on arm64

---
 internal/monkey/inst/disasm_arm64.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/monkey/inst/disasm_arm64.go b/internal/monkey/inst/disasm_arm64.go
index 3c66efc..7e22054 100644
--- a/internal/monkey/inst/disasm_arm64.go
+++ b/internal/monkey/inst/disasm_arm64.go
@@ -54,6 +54,10 @@ func calcFnAddrRange(name string, fn func()) (uintptr, uintptr) {
 
 func Disassemble(code []byte, required int, checkLen bool) int {
 	tool.Assert(len(code) > required, "function is too short to patch")
+	for pos := 0; pos < required; pos += 4 {
+		inst, err := arm64asm.Decode(code[pos:])
+		tool.Assert(err != nil || inst.Op != arm64asm.RET || !checkLen, "function is too short to patch")
+	}
 	return required
 }
 
-- 
2.43.0


From 3a62c8ca59800ea7e75d0d4c218047260b1b2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 11/15] fix: reject a condition that takes GenericInfo of a
 non-generic function

---
 mock_condition.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_condition.go b/mock_condition.go
index 4105790..428e2a5 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -51,6 +51,7 @@ func (m *mockCondition) SetWhenForce(when interface{}) {
 	}
 
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(wVal.Type())
+	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
 	whenType := reflect.FuncOf(inTypes, []reflect.Type{out1}, hookType.IsVariadic())
 	m.when = reflect.MakeFunc(whenType, func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(wVal, m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
-- 
2.43.0


From 171d28b22dc88454bb140df53f700b2dd71413f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:54 +0000
Subject: [PATCH 12/15] fix: continue in the original function without changing
 a register

The jump from the moved entry of a function to the rest of it went through
RDX, which the moved instructions may have set for the rest to use.
---
 internal/monkey/inst/inst_amd64.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/monkey/inst/inst_amd64.go b/internal/monkey/inst/inst_amd64.go
index 8be7baa..4ad0cc4 100644
--- a/internal/monkey/inst/inst_amd64.go
+++ b/internal/monkey/inst/inst_amd64.go
@@ -18,9 +18,12 @@ package inst
 
 import "unsafe"
 
+// BranchTo jumps without changing any register: the code before it may have put values needed later in any of them.
 func BranchTo(to uintptr) (res []byte) {
-	res = append(res, rdxMOV(to)...)         // MOVABS RDX, to
-	res = append(res, []byte{0xff, 0xe2}...) // JMP RDX
+	res = append(res, []byte{0xff, 0x25, 0, 0, 0, 0}...) // JMP [RIP+0]
+	addr := make([]byte, unsafe.Sizeof(to))
+	*(*uintptr)(unsafe.Pointer(&addr[0])) = to
+	res = append(res, addr...) // to
 	return
 }
 
-- 
2.43.0


From f12c105ee3637a806a11c237462c4335ca038912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 13/15] fix: looking up a nil function field fails instead of
 giving a function without code

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 4f6bcac..7f71660 100644
--- a/utils.go
+++ b/utils.go
@@ -65,7 +65,7 @@ func getFieldMethod(instance interface{}, fieldName string) (interface{}, bool)
 	}
 
 	field := v.FieldByName(fieldName)
-	if !field.IsValid() || field.Kind() != reflect.Func {
+	if !field.IsValid() || field.Kind() != reflect.Func || field.IsNil() {
 		return nil, false
 	}
 
-- 
2.43.0


From 548584b0cc835415c4b421bdfb7b50f66dbe10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:41 +0000
Subject: [PATCH 14/15] fix: report the error of VirtualProtect itself; the
 thread's last error may be none by the time it is asked for

---
 internal/monkey/mem/prot/protect_windows.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/monkey/mem/prot/protect_windows.go b/internal/monkey/mem/prot/protect_windows.go
index 525b89d..a0c4647 100644
--- a/internal/monkey/mem/prot/protect_windows.go
+++ b/internal/monkey/mem/prot/protect_windows.go
@@ -43,9 +43,9 @@ func mProtectPage(page, prot uintptr) error {
 }
 
 func virtualProtect(lpAddress uintptr, dwSize int, flNewProtect uint32, lpflOldProtect uintptr) error {
-	ret, _, _ := procVirtualProtect.Call(lpAddress, uintptr(dwSize), uintptr(flNewProtect), lpflOldProtect)
+	ret, _, err := procVirtualProtect.Call(lpAddress, uintptr(dwSize), uintptr(flNewProtect), lpflOldProtect)
 	if ret == 0 {
-		return syscall.GetLastError()
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 78d6f426da7ac3835ae3e726e48e7619184a7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 15/15] fix: pad the arm64 page writer with 16384 bytes as its
 macros say, not 4096, so that it does not share a page with its target where
 pages are 16 KiB

---
 internal/monkey/mem/write_darwin_arm64.s | 5 +++--
 internal/monkey/mem/write_linux_arm64.s  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/monkey/mem/write_darwin_arm64.s b/internal/monkey/mem/write_darwin_arm64.s
index c6cd376..6edcb00 100644
--- a/internal/monkey/mem/write_darwin_arm64.s
+++ b/internal/monkey/mem/write_darwin_arm64.s
@@ -16,10 +16,11 @@
 
 #include "textflag.h"
 
-#define NOP64 WORD $0x1f2003d5; WORD $0x1f2003d5;
+#define NOP16 WORD $0xd503201f; WORD $0xd503201f; WORD $0xd503201f; WORD $0xd503201f;
+#define NOP64 NOP16; NOP16; NOP16; NOP16;
 #define NOP512 NOP64; NOP64; NOP64; NOP64; NOP64; NOP64; NOP64; NOP64;
 #define NOP4096 NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512;
-#define NOP16384 NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096;
+#define NOP16384 NOP4096; NOP4096; NOP4096; NOP4096;
 
 #define protRW $(0x1|0x2|0x10)
 #define mProtect $(0x2000000+74)
diff --git a/internal/monkey/mem/write_linux_arm64.s b/internal/monkey/mem/write_linux_arm64.s
index 333d44e..457b35c 100644
--- a/internal/monkey/mem/write_linux_arm64.s
+++ b/internal/monkey/mem/write_linux_arm64.s
@@ -16,10 +16,11 @@
 
 #include "textflag.h"
 
-#define NOP64 WORD $0x1f2003d5; WORD $0x1f2003d5;
+#define NOP16 WORD $0xd503201f; WORD $0xd503201f; WORD $0xd503201f; WORD $0xd503201f;
+#define NOP64 NOP16; NOP16; NOP16; NOP16;
 #define NOP512 NOP64; NOP64; NOP64; NOP64; NOP64; NOP64; NOP64; NOP64;
 #define NOP4096 NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512;
-#define NOP16384 NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096;
+#define NOP16384 NOP4096; NOP4096; NOP4096; NOP4096;
 
 #define protRW $(0x1|0x2)
 #define mProtect $0xe2
-- 
2.43.0

