From 7222c8bb1d7b2773a7ff1fd8f55513beffe13431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 01/76] fix: shift signed integers to the right arithmetically

---
 internals/compiler/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a2fd942..543e63d 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1604,6 +1604,9 @@ func (c *Compiler) compileXorBinary(expr *ast.BinaryOperation) value.Value {
 func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	if _, isSigned := expr.Type.(*ctypes.Integer); isSigned {
+		return c.block().NewAShr(leftValue, rightValue)
+	}
 	return c.block().NewLShr(leftValue, rightValue)
 }
 
-- 
2.43.0


From 6995fa4cecfdde70f8983c8c72419e5214b9e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 02/76] fix: zero-extend unsigned integers and booleans when
 they are widened

---
 internals/compiler/compiler.go             |  6 +++---
 internals/compiler/compiler_conversions.go | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 543e63d..2d0df4b 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -186,7 +186,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		toReturnType := c.ToLLVMType(typeParameter)
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, length, ctypes.IsUnsignedInteger(call.Parameters[1].GetType()))
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -230,7 +230,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		typeParameter := call.TypeParameters[0]
 		toReturnType := types.NewPointer(c.ToLLVMType(typeParameter))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, length, ctypes.IsUnsignedInteger(call.Parameters[0].GetType()))
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -1638,7 +1638,7 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 		if ctypes.IsFloat(call.TypeParameters[0]) != ctypes.IsFloat(call.Parameters[0].GetType()) {
 			return c.handleFloatIntCast(call.TypeParameters[0], call.Parameters[0].GetType(), variable, toReturnType)
 		}
-		return c.handleNumericBitCast(toReturnType, variable)
+		return c.handleNumericBitCast(toReturnType, variable, ctypes.IsUnsignedInteger(call.Parameters[0].GetType()))
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 92fcf53..c0f990b 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -22,8 +22,8 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	panic("")
 }
 
-// handleIntegerCast tries to pass variable type to toReturnType
-func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value) value.Value {
+// handleIntegerCast tries to pass variable type to toReturnType, isUnsigned tells if the variable is an unsigned integer
+func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value, isUnsigned bool) value.Value {
 	variableType := variable.Type().(*types.IntType)
 	if variableType.BitSize > toReturnType.BitSize {
 		return c.block().NewTrunc(variable, toReturnType)
@@ -32,7 +32,7 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 		return variable
 	}
 
-	if variable.Type() == types.I1 {
+	if isUnsigned || variableType.BitSize == 1 {
 		// SExt extends the bit sign of the variable, i1 can be considered as a sign, so
 		// it will be extended accross all the bits, for example if you cast
 		// i1 '1' to i8, you will get 111...1110, which is -1.
@@ -45,10 +45,10 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 // performs a cast bitsize, if first parameter is a float the second param should be a float as well
 // if you call this function and toReturnType is not
 // a float or an integer the program will probably panic
-func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value) value.Value {
+func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value, isUnsigned bool) value.Value {
 	integerType, isInteger := toReturnType.(*types.IntType)
 	if isInteger {
-		return c.handleIntegerCast(integerType, variable)
+		return c.handleIntegerCast(integerType, variable, isUnsigned)
 	}
 	return c.handleFloatCast(toReturnType.(*types.FloatType), variable)
 }
@@ -70,7 +70,7 @@ func (c *Compiler) handleFloatIntCast(typeParameter ctypes.Type, parameter ctype
 	if ctypes.IsFloat(parameter) {
 		return c.floatToInt(toReturn.(*types.IntType), variable, ctypes.IsUnsignedInteger(typeParameter))
 	} else if ctypes.IsFloat(typeParameter) {
-		return c.intToFloat(toReturn.(*types.FloatType), variable, ctypes.IsUnsignedInteger(parameter))
+		return c.intToFloat(toReturn.(*types.FloatType), variable, ctypes.IsUnsignedInteger(parameter) || parameter == ctypes.I1)
 	}
 
 	c.exitInternalError("atleast one parameter need to be a float")
-- 
2.43.0


From a2ce1023ab477a70cb9662dc64f84fbc19da13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 03/76] fix: use the right operand when folding constant
 expressions

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 7f566ff..9763fa3 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -79,7 +79,7 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 		return c.compileIdentifier(expr).(constant.Constant)
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
-		right := c.compileConstantExpression(expr.Left)
+		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
-- 
2.43.0


From d098a12279aa20643acefa6330b53378b86d950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 04/76] fix: shift signed constants to the right arithmetically

---
 internals/compiler/compiler_constant.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 9763fa3..18d698f 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -137,6 +137,9 @@ func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation,
 	case ops.LeftShift:
 		return constant.NewShl(first, second)
 	case ops.RightShift:
+		if _, isSigned := expr.Type.(*ctypes.Integer); isSigned {
+			return constant.NewAShr(first, second)
+		}
 		return constant.NewLShr(first, second)
 	case ops.Divide:
 		if types.IsInt(first.Type()) {
-- 
2.43.0


From eb59045291a963b5f30ddec9952e8bca86030e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 05/76] fix: convert constants according to the sign of their
 types

---
 internals/compiler/compiler_constant.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 18d698f..72f257a 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -22,7 +22,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 			}
 
 			if integerType.BitSize < to.BitSize {
-				if val.Type() == types.I1 {
+				if integerType.BitSize == 1 || ctypes.IsUnsignedInteger(originalType) {
 					// SExt extends the bit sign of the val, i1 can be considered as a sign, so
 					// it will be extended accross all the bits, for example if you cast
 					// i1 '1' to i8, you will get 111...1110, which is -1.
@@ -36,7 +36,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 		}
 
 		if _, ok := val.Type().(*types.FloatType); ok {
-			if ctypes.IsUnsignedInteger(originalType) {
+			if ctypes.IsUnsignedInteger(expr.GetType()) {
 				return constant.NewFPToUI(val, to)
 			}
 
@@ -49,7 +49,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 	if types.IsFloat(to) {
 		to := to.(*types.FloatType)
 		if _, ok := val.Type().(*types.IntType); ok {
-			if !ctypes.IsUnsignedInteger(originalType) {
+			if !ctypes.IsUnsignedInteger(originalType) && originalType != ctypes.I1 {
 				return constant.NewSIToFP(val, to)
 			}
 
-- 
2.43.0


From 4810277d4030b4e4a5978389bdc14497ce33199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 06/76] fix: resolve the type argument of alloc and sizeof
 before taking its size

---
 internals/semantic/semantic_builtin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ac35b79..88aafdb 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -44,8 +44,8 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
-	t := allocCall.TypeParameters[0]
-	s.replaceAnonymous(t)
+	t := s.replaceAnonymous(allocCall.TypeParameters[0])
+	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsNumeric(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
@@ -108,7 +108,7 @@ func (s *Semantic) analyzeSizeOf(sizeOfCall *ast.BuiltinCall) ctypes.Type {
 		s.error("expected one type parameter for sizeOf builtin call", sizeOfCall.Token)
 		return ctypes.TODO()
 	}
-	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(sizeOfCall.TypeParameters[0])
+	sizeOfCall.TypeParameters[0] = s.replaceAnonymous(sizeOfCall.TypeParameters[0])
 	sizeOfCall.Type = sizeOfCall.TypeParameters[0]
 	return ctypes.I32
 }
-- 
2.43.0


From a2227b8eb83b78f1076f34dead684cc12bea6be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 07/76] fix: give i1 a size of one byte and empty structs an
 alignment of one

---
 internals/ctypes/types.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b02bae1..7ee3cd4 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -97,11 +97,12 @@ func (i *Integer) String() string {
 func (_ *Integer) CandiceType() {}
 
 func (i *Integer) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	// i1 still takes a whole byte in memory
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *Integer) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return i.SizeOf()
 }
 
 type UInteger struct {
@@ -415,7 +416,7 @@ func (s *Struct) SizeOf() int64 {
 }
 
 func (s *Struct) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range s.Fields {
 		alignment := t.Alignment()
 		if alignment >= maximumAlignment {
-- 
2.43.0


From 9478ba9a8482e139401e604081af67a0d9fe47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 08/76] fix: let realloc scale its length by the size of the
 element

---
 internals/compiler/compiler.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 2d0df4b..96f7678 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -182,12 +182,13 @@ func (c *Compiler) initializeBuiltinLib() {
 	}
 
 	c.builtins["realloc"] = func(c *Compiler, call *ast.BuiltinCall) value.Value {
-		typeParameter := call.GetType()
-		toReturnType := c.ToLLVMType(typeParameter)
+		returnType := call.GetType()
+		toReturnType := c.ToLLVMType(returnType)
+		elementType := c.context.UnwrapAnonymous(returnType.(*ctypes.Pointer).Inner)
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
 		length = c.handleIntegerCast(types.I64, length, ctypes.IsUnsignedInteger(call.Parameters[1].GetType()))
-		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
+		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementType.SizeOf()))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
 		alloca := c.block().NewAlloca(castedValue.Type())
-- 
2.43.0


From 80740c8129b39b68c585a024625dd9d9d0a2021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 09/76] fix: analyze the operands of asm

---
 internals/semantic/semantic_builtin.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 88aafdb..8c18eb8 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -126,5 +126,9 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 		return ctypes.TODO()
 	}
 
+	for _, parameter := range asmCall.Parameters[1:] {
+		s.analyzeExpression(parameter)
+	}
+
 	return s.UnwrapAnonymous(asmCall.TypeParameters[0])
 }
-- 
2.43.0


From c1f6b923af50baa0329b5f8ecb629b68cb961fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 10/76] fix: initialize global strings statically instead of
 where they are first used

---
 internals/compiler/compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 96f7678..7084ad3 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1053,10 +1053,9 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			// and allocate it again so we can use it normally, we cache that result into globalVariables + .global
 			if types.IsArray(global.Type()) {
 				array := c.m.NewGlobalDef(name+".global_alloca", global)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				globalDefinition := c.m.NewGlobalDef(name+".global", constant.NewNull(pointer.Type().(*types.PointerType)))
+				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
+				globalDefinition := c.m.NewGlobalDef(name+".global", pointer)
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
-				c.block().NewStore(pointer, globalDefinition)
 				return globalDefinition
 			}
 
-- 
2.43.0


From 24b3cc90c320bb5c77d854cf3877dedb72a0e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 11/76] fix: forget that a literal was allocated once its value
 is loaded

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 7084ad3..645a4c0 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1183,9 +1183,9 @@ func unwrapArrayGepType(arr *types.ArrayType) types.Type {
 }
 
 func (c *Compiler) loadIfPointer(val value.Value) value.Value {
+	c.doNotAllocate = false
 	if c.doNotLoadIntoMemory {
 		c.doNotLoadIntoMemory = false
-		c.doNotAllocate = false
 		return val
 	}
 	if types.IsPointer(val.Type()) {
@@ -1205,9 +1205,9 @@ func (c *Compiler) loadIfPointer(val value.Value) value.Value {
 }
 
 func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) value.Value {
+	c.doNotAllocate = false
 	if c.doNotLoadIntoMemory {
 		c.doNotLoadIntoMemory = false
-		c.doNotAllocate = false
 		return val
 	}
 	if types.IsPointer(val.Type()) {
-- 
2.43.0


From 52d619813c6c8f8f53bf651840daa7f1bbfa0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 12/76] fix: index the arrays and pointers that functions
 return

---
 internals/compiler/compiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 645a4c0..d814680 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1148,6 +1148,12 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	leftArray := c.compileExpression(access.Left)
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
+	// and don't let it leak into the expression of the index
+	c.doNotLoadIntoMemory = false
+	// arrays that are not in memory (returned by a function) need an address
+	if types.IsArray(leftArray.Type()) {
+		leftArray = c.allocateIfNotPointer(leftArray)
+	}
 	index := c.loadIfPointer(c.compileExpression(access.Access))
 
 	// If it's an array do not load into memory, just calculate offset
-- 
2.43.0


From 213ed528f76e1fbb2e1fbadec3e992f83a0f4862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 13/76] fix: compile the operands of a comparison before
 picking its block

---
 internals/compiler/compiler_comparisons.go | 24 ++++++++--------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 4f5ca8b..4c9dac8 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -11,27 +11,21 @@ import (
 )
 
 func (c *Compiler) handleComparisonOperations(expr *ast.BinaryOperation) value.Value {
-	if left, isPointer := expr.Left.GetType().(*ctypes.Pointer); isPointer {
-		if left.Inner == ctypes.I8 {
-			return c.compareMemoryI8(c.loadIfPointer(c.compileExpression(expr.Left)),
-				c.loadIfPointer(c.compileExpression(expr.Right)),
-				c.getIPredComparison(expr.Operation, ctypes.I32),
-			)
+	// Operands can change the current block, so compile them before using it
+	left := c.loadIfPointer(c.compileExpression(expr.Left))
+	right := c.loadIfPointer(c.compileExpression(expr.Right))
+
+	if pointer, isPointer := expr.Left.GetType().(*ctypes.Pointer); isPointer {
+		if pointer.Inner == ctypes.I8 {
+			return c.compareMemoryI8(left, right, c.getIPredComparison(expr.Operation, ctypes.I32))
 		}
 	}
 
 	if _, isFloat := expr.Left.GetType().(*ctypes.Float); isFloat {
-		return c.block().NewFCmp(
-			c.getFPredComparison(expr.Operation, expr.Left.GetType()),
-			c.loadIfPointer(c.compileExpression(expr.Left)),
-			c.loadIfPointer(c.compileExpression(expr.Right)),
-		)
+		return c.block().NewFCmp(c.getFPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 	}
 
-	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()),
-		c.loadIfPointer(c.compileExpression(expr.Left)),
-		c.loadIfPointer(c.compileExpression(expr.Right)),
-	)
+	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 }
 
 func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPred {
-- 
2.43.0


From bf283efcb1e1c2421dae864892941216cc022650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 14/76] fix: keep the statements that follow nested logical
 operators

---
 internals/compiler/compiler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index d814680..82b8e99 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -328,7 +328,8 @@ func (c *Compiler) Compile(tree ast.Node) {
 		c.doNotAllocate = false
 	}()
 
-	if c.currentFunction != nil && len(c.currentFunction.Blocks) > 0 && c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1].Term != nil {
+	// Nothing after a terminator can execute
+	if c.currentFunction != nil && len(c.blocks) > 0 && c.block().Term != nil {
 		return
 	}
 
@@ -609,7 +610,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		c.Compile(statement)
 	}
 
-	lastBlock := c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1]
+	lastBlock := c.block()
 	// If return hasn't been declared, declare a void return
 	if lastBlock.Term == nil {
 		if funk.GetFunctionType().IsMainFunction() {
-- 
2.43.0


From cc934607160a9902daba71339f667eb456575ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 15/76] fix: leave block expressions on return and keep
 functions out of them

---
 internals/compiler/compiler.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 82b8e99..04c6c3a 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -53,9 +53,12 @@ type Compiler struct {
 	currentBreakLeaveBlock              *ir.Block
 	currentContinueEscapeBlock          *ir.Block
 	currentValueToReturnBlockExpression value.Value
-	context                             *semantic.Semantic
-	modules                             map[string]*Compiler
-	compiledModules                     map[string]*Compiler
+
+	// Where code generation goes on when the current block expression returns its value
+	currentLeaveBlockExpression *ir.Block
+	context                     *semantic.Semantic
+	modules                     map[string]*Compiler
+	compiledModules             map[string]*Compiler
 
 	eventHandler func(Event)
 }
@@ -536,6 +539,7 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 			toReturnLoaded,
 			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, toReturn.Type()),
 		)
+		c.block().NewBr(c.currentLeaveBlockExpression)
 		return
 	}
 
@@ -604,6 +608,11 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Set it as current function
 	prevFunction := c.currentFunction
 	c.currentFunction = llvmFunction
+	// The body doesn't belong to the block expression or the loop that the function may be declared in
+	prevValue, prevLeaveExpression := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = nil, nil
+	prevBreak, prevContinue := c.currentBreakLeaveBlock, c.currentContinueEscapeBlock
+	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = nil, nil
 
 	// Compile block
 	for _, statement := range funk.GetBlock().Statements {
@@ -629,6 +638,8 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Pop block, stack and restore current function
 	c.popBlock()
 	c.currentFunction = prevFunction
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = prevValue, prevLeaveExpression
+	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = prevBreak, prevContinue
 }
 
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
@@ -1228,11 +1239,18 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
 	alloca := c.block().NewAlloca(t)
-	c.currentValueToReturnBlockExpression = alloca
+	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	leave := c.currentFunction.NewBlock("leave-block-expression-" + random.RandomString(5))
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = alloca, leave
 	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(5))
 	c.block().NewBr(newBlock)
-	c.blocks[len(c.blocks)-1] = c.compileBlock(block.Block, newBlock)
-	c.currentValueToReturnBlockExpression = nil
+	lastBlock := c.compileBlock(block.Block, newBlock)
+	if lastBlock.Term == nil {
+		// every path of the block returned before
+		lastBlock.NewUnreachable()
+	}
+	c.blocks[len(c.blocks)-1] = leave
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = previousValue, previousLeave
 	return alloca
 }
 
-- 
2.43.0


From f7e97395c1b0b75313bb6f8960c5ed2a1934be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 16/76] fix: jump to the loop condition from where its update
 ends

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 04c6c3a..447d836 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -737,7 +737,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = previousBreak, previousContinue
 
 	// compile update statement
-	c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
+	lastUpdateBlock := c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
 
 	// jump to the update statement
 	if possibleNewBlock.Term == nil {
@@ -745,7 +745,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	}
 
 	// go to the condition again
-	update.NewBr(condition)
+	lastUpdateBlock.NewBr(condition)
 
 	// Compile condition block
 	c.pushBlock(condition)
-- 
2.43.0


From ea894fe9393424d6a9c70a640943637b9f05a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 17/76] fix: do not sign-extend unsigned offsets of arrays and
 pointers

---
 internals/compiler/compiler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 447d836..8e13813 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1167,6 +1167,7 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 		leftArray = c.allocateIfNotPointer(leftArray)
 	}
 	index := c.loadIfPointer(c.compileExpression(access.Access))
+	index = c.widenOffset(index, access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
 	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
@@ -1181,6 +1182,11 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	return c.calculatePointerOffset(leftArray, index)
 }
 
+// widenOffset makes the sign of an offset explicit, getelementptr considers that every offset is signed
+func (c *Compiler) widenOffset(offset value.Value, t ctypes.Type) value.Value {
+	return c.handleIntegerCast(types.I64, offset, ctypes.IsUnsignedInteger(t))
+}
+
 func (c *Compiler) calculatePointerOffset(pointer value.Value, offset value.Value) value.Value {
 	calculatedPointer := c.block().NewGetElementPtr(pointer.Type().(*types.PointerType).ElemType, pointer, offset)
 	calculatedPointer.InBounds = true
@@ -1519,7 +1525,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 
 	// Memory access via '+'
 	if types.IsPointer(leftValue.Type()) {
-		newPointer := c.calculatePointerOffset(leftValue, rightValue)
+		newPointer := c.calculatePointerOffset(leftValue, c.widenOffset(rightValue, expr.Right.GetType()))
 		// return this pointer on another stack register because it's going to get used
 		toReturnPointer := c.block().NewAlloca(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
@@ -1562,6 +1568,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.widenOffset(rightValue, expr.Right.GetType())
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-- 
2.43.0


From c43ac081705d397a6557fd847eab5ce98a1621d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 18/76] fix: report a failure to write the intermediate file

---
 internals/compiler/compiler.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 8e13813..f9c6eeb 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -261,17 +261,26 @@ func (c *Compiler) GenerateExecutableCXX(output string, cxx string, flags []stri
 	defer func() {
 		os.Remove(".intermediate_output.ll")
 	}()
-	fd, _ := os.Create(".intermediate_output.ll")
-	_, _ = c.m.WriteTo(fd)
+	fd, err := os.Create(".intermediate_output.ll")
+	if err != nil {
+		return err
+	}
+	_, err = c.m.WriteTo(fd)
+	if closeErr := fd.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
 	endFlags := []string{".intermediate_output.ll", "-o", output}
 	endFlags = append(endFlags, flags...)
 	cmd := exec.Command(cxx, endFlags...)
 	stdout := &bytes.Buffer{}
 	cmd.Stdout = stdout
 	cmd.Stderr = stdout
-	err := cmd.Run()
+	err = cmd.Run()
 	if err != nil {
-		return fmt.Errorf("error compiling with %s:\n"+stdout.String()+"\n status: "+err.Error(), cxx)
+		return fmt.Errorf("error compiling with %s:\n%s\n status: %w", cxx, stdout.String(), err)
 	}
 
 	return nil
-- 
2.43.0


From 9d4050b9ac93b3577b48ac990b7d253b2eabdd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 19/76] fix: exit with a failure status when a command fails

---
 internals/build/builder.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index d15cc31..968bca8 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -43,7 +43,7 @@ func ExecuteProject() {
 	Flags:
 		--release - Create or runs an optimized build of the project (run, build).
 		`)
-		return
+		os.Exit(1)
 	}
 
 	if flags.Mode == "init" {
@@ -55,11 +55,12 @@ func ExecuteProject() {
 		bytes, err := os.ReadFile(flags.Path)
 		if err != nil {
 			logger.Error("File", err.Error())
-			return
+			os.Exit(1)
 		}
 
 		if err := tree_printer.WriteOutput(string(bytes), os.Stdout); err != nil {
 			logger.Error("Generating AST", err.Error())
+			os.Exit(1)
 		}
 		return
 	}
@@ -68,14 +69,14 @@ func ExecuteProject() {
 
 	if err != nil {
 		logger.Error("Project", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	codeEntryPoint, err := os.ReadFile(config.EntryPoint)
 
 	if err != nil {
 		logger.Error("Project", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	p := parser.New(lexer.New(string(codeEntryPoint)))
@@ -84,7 +85,7 @@ func ExecuteProject() {
 		for _, err := range p.Errors {
 			logger.Error("Parsing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 	s := semantic.New()
 	s.Analyze(tree)
@@ -97,7 +98,7 @@ func ExecuteProject() {
 		for _, err := range s.Errors {
 			logger.Error("Analyzing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 
 	c := compiler.New(s)
@@ -120,25 +121,25 @@ func ExecuteProject() {
 		err := c.GenerateExecutableExperimental(config.Output, config.CXX, config.CompilerFlags, flags.Release, config.BinaryKind != Object)
 		if err != nil {
 			logger.Error("Internally At Compile Time", err.Error())
-			return
+			os.Exit(1)
 		}
 
 	} else if config.CompileKind == CXX {
 		err := c.GenerateExecutableCXX(config.Output, config.CXX, config.CompilerFlags)
 		if err != nil {
 			logger.Error("Internally At Compile Time", err.Error())
-			return
+			os.Exit(1)
 		}
 
 	} else {
 		logger.Error("Configuration", "Unknown compiling kind, use either 'llvm' or 'cxx'.")
-		return
+		os.Exit(1)
 	}
 
 	if flags.Mode == "run" {
 		if config.BinaryKind == Object {
 			logger.Error("you can't run a project that needs to an object!", "Consider setting 'binary' to 'exe' in candice.json")
-			return
+			os.Exit(1)
 		}
 
 		cmd := exec.Command("./" + config.Output)
@@ -148,6 +149,10 @@ func ExecuteProject() {
 		err := cmd.Run()
 		if err != nil {
 			fmt.Println(err)
+			if exitError, ok := err.(*exec.ExitError); ok && exitError.ExitCode() > 0 {
+				os.Exit(exitError.ExitCode())
+			}
+			os.Exit(1)
 		}
 	} else {
 		passedTime := float64(time.Now().UnixMilli() - current.UnixMilli())
@@ -166,26 +171,26 @@ func createSampleProject(basePath string) {
 	fd, err := os.Create(candiceJson)
 	if err != nil {
 		logger.Error("Setup", "error setting up candice.json", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	_, err = fd.Write([]byte(CandiceJSONDefault))
 	if err != nil {
 		logger.Error("Setup", "error setting up candice.json", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	candiceMain := path.Join(relative, basePath, "main.cd")
 	fdMain, err := os.Create(candiceMain)
 	if err != nil {
 		logger.Error("Setup", "error setting up main.cd", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	_, err = fdMain.Write([]byte(CandiceProgramDefault))
 	if err != nil {
 		logger.Error("Setup", "error setting up main.cd", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	logger.Success("Project created on path " + candiceJson + " " + "\nEnjoy coding!")
-- 
2.43.0


From 1df338931338a1c63d4925755dda2414628d7e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 20/76] fix: report a failure to write the program to run

---
 internals/compiler/compiler_exec.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler_exec.go b/internals/compiler/compiler_exec.go
index d83a98e..4731e1a 100644
--- a/internals/compiler/compiler_exec.go
+++ b/internals/compiler/compiler_exec.go
@@ -10,13 +10,22 @@ import (
 
 func GenerateExecutable(writer io.WriterTo, path string) error {
 	_ = os.Remove(".intermediate_output.ll")
-	fd, _ := os.Create(".intermediate_output.ll")
-	_, _ = writer.WriteTo(fd)
+	fd, err := os.Create(".intermediate_output.ll")
+	if err != nil {
+		return err
+	}
+	_, err = writer.WriteTo(fd)
+	if closeErr := fd.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
 	cmd := exec.Command("clang", ".intermediate_output.ll", "-o", path, "-O3", "-mllvm", "-inline-threshold=0")
 	stdout := &bytes.Buffer{}
 	cmd.Stdout = stdout
 	cmd.Stderr = stdout
-	err := cmd.Run()
+	err = cmd.Run()
 	//_ = os.Remove(".intermediate_output.ll")
 	if err != nil {
 		return errors.New("error compiling with clang:\n" + stdout.String())
-- 
2.43.0


From 9e20c300df9103cffdf4c5d0a0ed2ae21f9bd041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 21/76] fix: keep printed names apart from the functions of the
 C library

---
 internals/compiler/compiler_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index 392357e..7ceee16 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -12,7 +12,8 @@ func (c *Compiler) createString(s string) value.Value {
 	var globalDef value.Value
 	s += string(byte(0))
 	if definition, ok := c.globalBuiltinDefinitions[s]; !ok {
-		globalDef = c.m.NewGlobalDef(s[:len(s)-1], constant.NewCharArrayFromString(s))
+		// no function or variable has a name like this one
+		globalDef = c.m.NewGlobalDef(".string."+s[:len(s)-1], constant.NewCharArrayFromString(s))
 		c.globalBuiltinDefinitions[s] = globalDef
 	} else {
 		globalDef = definition
-- 
2.43.0


From 0e640cde6325305c67ba6a2495d362dca7a2d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 22/76] fix: store values into the union fields of struct
 literals

---
 internals/compiler/compiler.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f9c6eeb..1c42197 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1289,22 +1289,15 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 		// Get field position
 		i, field := struktType.GetField(decl.Name)
 
-		if anonymous, ok := field.(*ctypes.Anonymous); ok {
-			field = c.types[anonymous.Name].candiceType
-		}
-
 		// Compile the expression to have the value
-		compiledValue := c.compileExpression(decl.Expression)
+		compiledValue := c.loadIfPointer(c.compileExpression(decl.Expression))
 
 		// Get the pointer pointing to the memory where we need to store in
 		ptr := c.block().NewGetElementPtr(possibleStruct.llvmType, struktValue, zero, constant.NewInt(types.I32, int64(i)))
 		ptr.InBounds = true
 
-		// Unwrap value pointer
-		compiledValue = c.loadIfPointer(c.bitcastIfUnion(field, compiledValue, ptr.Type()))
-
-		// Store in the pointer the compiler value
-		c.block().NewStore(compiledValue, ptr)
+		// Store in the pointer the compiled value
+		c.block().NewStore(compiledValue, c.bitcastIfUnion(field, ptr, types.NewPointer(compiledValue.Type())))
 	}
 
 	// Do not allocate on declaration/assignments because we are already allocating above.
-- 
2.43.0


From a26507000e7cadd79d65ad6e1b43f4f4d490e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 23/76] fix: return unions that are not in memory from block
 expressions

---
 internals/compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 1c42197..1f81831 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -546,7 +546,7 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	if c.currentValueToReturnBlockExpression != nil {
 		c.block().NewStore(
 			toReturnLoaded,
-			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, toReturn.Type()),
+			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, types.NewPointer(toReturnLoaded.Type())),
 		)
 		c.block().NewBr(c.currentLeaveBlockExpression)
 		return
-- 
2.43.0


From 47c1df3eea843f1f2ad1b2832d35766bd3ef5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 24/76] fix: test the condition of an else-if in the block that
 computes it

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 1f81831..6faa1f7 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -690,10 +690,10 @@ func (c *Compiler) compileIf(ifStatement *ast.IfStatement) {
 		// is true jump to this block, else jump to the next one, which would be the next jump condition or
 		// the else
 		condition := c.compileExpression(conditions[i])
-		conditionLoaded := c.loadIfPointer(condition)
+		conditionLoaded := c.toBool(c.loadIfPointer(condition))
 		// Recharge block because compiling expressions can change current blocks
 		lastJumpToCondition = c.popBlock()
-		lastJumpToCondition.NewCondBr(c.toBool(conditionLoaded), currentBlock, jumpToNextCondition)
+		lastJumpToCondition.NewCondBr(conditionLoaded, currentBlock, jumpToNextCondition)
 		lastJumpToCondition = jumpToNextCondition
 	}
 
-- 
2.43.0


From 2c3b4fb63600ec7a603cc9bf1f8e009f868ddfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:56 +0000
Subject: [PATCH 25/76] fix: keep the characters of a local string constant out
 of the stack

---
 internals/compiler/compiler.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6faa1f7..bd460db 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1048,15 +1048,14 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 		if !types.IsPointer(identifier.Type()) {
 			c.doNotLoadIntoMemory = true
 			if types.IsArray(identifier.Type()) {
+				// A string outlives the function, so its characters can't be in the stack
 				global := identifier.(constant.Constant)
-				array := c.block().NewAlloca(global.Type())
-				c.block().NewStore(global, array)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				lastAlloca := c.block().NewAlloca(pointer.Type())
-				c.variables.Add(name, lastAlloca)
-				c.block().NewStore(pointer, lastAlloca)
+				array := c.m.NewGlobalDef("string.constant."+random.RandomString(10), global)
+				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
+				globalDefinition := c.m.NewGlobalDef("string.constant."+random.RandomString(10), pointer)
+				c.variables.Add(name, globalDefinition)
 				c.doNotLoadIntoMemory = false
-				return lastAlloca
+				return globalDefinition
 			}
 		}
 		return identifier
-- 
2.43.0


From 53d9369932fc0a5cb987efb24d3e160a99424a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 26/76] fix: capture variables through nested anonymous
 functions, keep captured constants constant

---
 internals/semantic/semantic.go | 76 +++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3b49395..657f07a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -21,21 +21,28 @@ import (
 	"github.com/gabivlj/candice/pkg/logger"
 )
 
+// enclosingFunction is a function whose body is being analyzed
+type enclosingFunction struct {
+	functionType *ctypes.Function
+	// nil if it's a named function, which doesn't capture variables
+	anonymous *ast.AnonymousFunction
+}
+
 type Semantic struct {
 	variables *undomap.UndoMap[string, *SemanticType]
 
-	definedTypes                          map[string]ctypes.Type
-	builtinHandlers                       map[string]func(builtin *ast.BuiltinCall) ctypes.Type
-	currentStatementBeingAnalyzed         ast.Statement
-	currentFunctionBeingAnalyzed          *ctypes.Function
-	currentAnonymousFunctionBeingAnalyzed *ast.AnonymousFunction
-	returns                               bool
-	currentExpectedReturnType             ctypes.Type
-	Errors                                []error
-	Warnings                              []error
-	insideBreakableBlock                  bool
-	expectConstantExpression              bool
-	expectNonConstantExpression           bool
+	definedTypes                  map[string]ctypes.Type
+	builtinHandlers               map[string]func(builtin *ast.BuiltinCall) ctypes.Type
+	currentStatementBeingAnalyzed ast.Statement
+	currentFunctionBeingAnalyzed  *ctypes.Function
+	enclosingFunctions            []enclosingFunction
+	returns                       bool
+	currentExpectedReturnType     ctypes.Type
+	Errors                        []error
+	Warnings                      []error
+	insideBreakableBlock          bool
+	expectConstantExpression      bool
+	expectNonConstantExpression   bool
 
 	// We maintain references to other semantic analyzers here, those are generated by import statements.
 	// The structure of this map is
@@ -330,7 +337,9 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 }
 
 func (s *Semantic) analyzeFunctionStatement(fun *ast.FunctionDeclarationStatement) {
+	s.enclosingFunctions = append(s.enclosingFunctions, enclosingFunction{functionType: fun.FunctionType})
 	s.analyzeFunctionType(fun.Token, fun.FunctionType, fun.Block)
+	s.enclosingFunctions = s.enclosingFunctions[:len(s.enclosingFunctions)-1]
 }
 
 func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function) {
@@ -382,19 +391,18 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunction) ctypes.Type {
 	temporaryReturns := s.returns
 	s.returns = false
-	tmpAnon := s.currentAnonymousFunctionBeingAnalyzed
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
-	s.currentAnonymousFunctionBeingAnalyzed = anonymousFunction
+	s.enclosingFunctions = append(s.enclosingFunctions, enclosingFunction{anonymousFunction.FunctionType, anonymousFunction})
 	s.analyzeFunctionType(anonymousFunction.Token, anonymousFunction.FunctionType, anonymousFunction.Block)
 	s.currentFunctionBeingAnalyzed = tmpFun
-	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
+	s.enclosingFunctions = s.enclosingFunctions[:len(s.enclosingFunctions)-1]
 	s.returns = temporaryReturns
 	return anonymousFunction.FunctionType
 }
 
 func (s *Semantic) analyzingInsideFunction() bool {
-	return s.currentFunctionBeingAnalyzed != nil || s.currentAnonymousFunctionBeingAnalyzed != nil
+	return s.currentFunctionBeingAnalyzed != nil
 }
 
 func (s *Semantic) expectStatementInsideFunction(t token.Token) {
@@ -994,6 +1002,29 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	return call.Type
 }
 
+// captureVariable captures the variable in the anonymous function being analyzed, and also in every anonymous function
+// between it and the function that declares the variable (each one gets the value from the function around it).
+// Returns false if a named function is in between.
+func (s *Semantic) captureVariable(name string, owner *ctypes.Function) bool {
+	var functions []*ast.AnonymousFunction
+	for i := len(s.enclosingFunctions) - 1; i >= 0; i-- {
+		if s.enclosingFunctions[i].functionType == owner {
+			for _, function := range functions {
+				function.CapturedVariables = append(function.CapturedVariables, name)
+			}
+			return true
+		}
+
+		if s.enclosingFunctions[i].anonymous == nil {
+			return false
+		}
+
+		functions = append(functions, s.enclosingFunctions[i].anonymous)
+	}
+
+	return false
+}
+
 func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if module, ok := s.modules[identifier.Name]; ok {
 		identifier.Type = module
@@ -1003,9 +1034,16 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
-		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+		// Constants are known at compile time, there is nothing to capture
+		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil && !identifierType.IsConstant {
+			if s.expectConstantExpression {
+				s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
+			}
+
+			if !s.captureVariable(identifier.Name, identifierType.parentFunction) {
+				s.errorWithStatement("'"+ast.RetrieveID(identifier.Name)+"' is a local variable of another function", identifier.Token)
+			}
+
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
 			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
 			return identifierTypeUnwrap
-- 
2.43.0


From 905961d46d1189ca1d26747d1db1bf7bf60a8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 27/76] fix: initialise a global string with another constant

---
 internals/compiler/compiler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index bd460db..c8810a3 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -794,6 +794,11 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 
 	if c.currentFunction == nil {
 		c.doNotAllocate = false
+		// The value of another constant that is in memory is what that memory contains
+		if global, isGlobal := valueCompiled.(*ir.Global); isGlobal && !decl.Constant {
+			valueCompiled = global.Init
+		}
+
 		if _, isConstant := valueCompiled.(constant.Constant); isConstant {
 			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant}
 		} else {
-- 
2.43.0


From 903bda99224571a5a6d2d78eb4e34a2b73673e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 28/76] fix: compare function types of different arity and
 reject conversions from unions

---
 internals/semantic/semantic.go | 40 +++++-----------------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 657f07a..ab83d9d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -671,7 +671,7 @@ func (s *Semantic) existsTypeInUnion(union *ctypes.Union, other ctypes.Type) boo
 func (s *Semantic) checkPossibleCommaTypeEquality(first, second ctypes.Type) bool {
 	if firstTypeList, isList := first.(*ctypes.TypeList); isList {
 		secondTypeList, ok := second.(*ctypes.TypeList)
-		if !ok {
+		if !ok || len(firstTypeList.Types) != len(secondTypeList.Types) {
 			return false
 		}
 
@@ -704,7 +704,7 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) || firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -732,7 +732,8 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 	return false
 }
 
-// areTypesEqualIncludingUnions repetition of areTypesEqual but with union checks
+// areTypesEqualIncludingUnions is areTypesEqual, but a value can also be stored in a union (first) which has a field of its type,
+// and a pointer can point to such an union
 func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool {
 	first = s.UnwrapAnonymous(first)
 	second = s.UnwrapAnonymous(second)
@@ -745,42 +746,11 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 		return s.existsTypeInUnion(union, second)
 	}
 
-	if union, isUnion := second.(*ctypes.Union); isUnion {
-		return s.existsTypeInUnion(union, first)
-	}
-
-	if s.checkPossibleCommaTypeEquality(first, second) {
-		return true
-	}
-
 	if ctypes.IsPointer(first) && ctypes.IsPointer(second) {
 		return s.areTypesEqualIncludingUnions(first.(*ctypes.Pointer).Inner, second.(*ctypes.Pointer).Inner)
 	}
 
-	if firstFunc, ok := first.(*ctypes.Function); ok {
-		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
-			return false
-		}
-		for i, param := range firstFunc.Parameters {
-			if !s.areTypesEqualIncludingUnions(secondFunc.Parameters[i], param) {
-				return false
-			}
-		}
-		return s.areTypesEqualIncludingUnions(firstFunc.Return, secondFunc.Return)
-	}
-
-	if ctypes.IsArray(first) {
-		fArray := first.(*ctypes.Array)
-		sArray, ok := second.(*ctypes.Array)
-		if !ok {
-			return false
-		}
-
-		return fArray.Length == sArray.Length && s.areTypesEqualIncludingUnions(fArray.Inner, sArray.Inner)
-	}
-
-	return false
+	return s.areTypesEqual(first, second)
 }
 
 func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
-- 
2.43.0


From c0a53bd31d9c6fa1664b20a1568493f8dd95a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 29/76] fix: reject operands that operators, casts and builtins
 can't be compiled for

---
 internals/semantic/semantic.go         | 15 +++++++++++++--
 internals/semantic/semantic_builtin.go | 12 ++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ab83d9d..430613e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -804,7 +804,7 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 	}
 
 	indexType := s.analyzeExpression(indexAccess.Access)
-	if !ctypes.IsNumeric(indexType) {
+	if !ctypes.IsInteger(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
 
@@ -1049,6 +1049,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			s.typeMismatchError(prefixOperation.String(), prefixOperation.Right, prefixOperation.Token, ctypes.LiteralToType("i32"), t)
 		}
 
+		prefixOperation.Type = ctypes.I1
 		return ctypes.I1
 	}
 
@@ -1382,11 +1383,14 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
+		} else if !ctypes.IsNumeric(left) && !ctypes.IsPointer(left) {
+			s.cantOperateThisOperationError(binaryOperation, left, right)
 		}
 		return ctypes.I1
 	}
 
-	if ctypes.IsNumeric(left) {
+	isBitwise := binaryOperation.Operation == ops.BinaryAND || binaryOperation.Operation == ops.BinaryOR || binaryOperation.Operation == ops.BinaryXOR
+	if ctypes.IsNumeric(left) && !(isBitwise && ctypes.IsFloat(left)) {
 		return left
 	}
 
@@ -1420,6 +1424,9 @@ func (s *Semantic) replaceAnonymous(t ctypes.Type) ctypes.Type {
 func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement) {
 	s.expectStatementInsideFunction(switchStatement.Token)
 	condition := s.UnwrapAnonymous(s.analyzeExpression(switchStatement.Condition))
+	if !ctypes.IsInteger(condition) {
+		s.typeMismatchError(switchStatement.Condition.String(), switchStatement.Condition, switchStatement.Token, ctypes.I32, condition)
+	}
 
 	allCasesReturn := true
 
@@ -1469,6 +1476,10 @@ func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 	for i := range typeList.Types {
 		typeList.Types[i] = s.replaceAnonymous(typeList.Types[i])
 		typeList.Types[i] = s.UnwrapAnonymous(typeList.Types[i])
+		if typeList.Types[i] == ctypes.VoidType {
+			s.errorWithStatement("you can't declare a void variable", m.Token)
+			return
+		}
 	}
 
 	for i, name := range m.Names {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 8c18eb8..20193fc 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,8 +24,10 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
-	if (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) &&
-		(ctypes.IsPointer(toType) || ctypes.IsArray(toType) || ctypes.IsNumeric(toType)) {
+	// Pointers can be turned into any integer, but not into floats. And arrays only decay to pointers.
+	if ctypes.IsNumeric(currentType) && (ctypes.IsNumeric(toType) || ctypes.IsPointer(toType)) ||
+		ctypes.IsPointer(currentType) && (ctypes.IsInteger(toType) || ctypes.IsPointer(toType)) ||
+		ctypes.IsArray(currentType) && ctypes.IsPointer(toType) {
 		castCall.Type = toType
 		return toType
 	}
@@ -47,7 +49,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	t := s.replaceAnonymous(allocCall.TypeParameters[0])
 	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
-	if !ctypes.IsNumeric(expr) {
+	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
 	}
 	allocCall.Type = &ctypes.Pointer{Inner: t}
@@ -62,7 +64,9 @@ func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't print on constants", printCall)
 	for _, param := range printCall.Parameters {
-		s.analyzeExpression(param)
+		if s.analyzeExpression(param) == ctypes.VoidType {
+			s.errorWithExpression("you can't print a void expression", param)
+		}
 	}
 	return ctypes.VoidType
 }
-- 
2.43.0


From 139a1603dbc4d800cd960a585063afa943cfc128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 30/76] fix: accept floats as conditions

---
 internals/compiler/compiler_conversions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index c0f990b..9f1bd09 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 	"github.com/llir/llvm/ir/value"
@@ -18,6 +19,9 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	if _, ok := value.Type().(*types.PointerType); ok {
 		return c.block().NewICmp(enum.IPredNE, c.block().NewPtrToInt(value, types.I64), zero)
 	}
+	if float, ok := value.Type().(*types.FloatType); ok {
+		return c.block().NewFCmp(enum.FPredUNE, value, constant.NewFloat(float, 0))
+	}
 	c.exitInternalError("can't pass to a boolean the value: " + value.String())
 	panic("")
 }
-- 
2.43.0


From 38b0e03fd0f4e10b20492b775c54943e8ada034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 31/76] fix: compile the unary plus

---
 internals/compiler/compiler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index c8810a3..e5932c7 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1022,6 +1022,10 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 		return c.block().NewICmp(enum.IPredEQ, c.toBool(c.loadIfPointer(prefixValue)), zero)
 	}
 
+	if prefix.Operation == ops.Add {
+		return c.loadIfPointer(prefixValue)
+	}
+
 	c.exitErrorExpression("unknown prefix", prefix)
 	return nil
 }
-- 
2.43.0


From c8dde7d6fbb6cdb30e12012622a1ebac4df93753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:35 +0000
Subject: [PATCH 32/76] fix: shift by amounts of another width

---
 internals/compiler/compiler.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index e5932c7..18832f2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1643,9 +1643,16 @@ func (c *Compiler) compileXorBinary(expr *ast.BinaryOperation) value.Value {
 	return c.block().NewXor(leftValue, rightValue)
 }
 
-func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
+// compileShiftOperands compiles both operands, giving the right one the type of the left one
+func (c *Compiler) compileShiftOperands(expr *ast.BinaryOperation) (value.Value, value.Value) {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	isUnsigned := ctypes.IsUnsignedInteger(expr.Right.GetType())
+	return leftValue, c.handleIntegerCast(leftValue.Type().(*types.IntType), rightValue, isUnsigned)
+}
+
+func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
+	leftValue, rightValue := c.compileShiftOperands(expr)
 	if _, isSigned := expr.Type.(*ctypes.Integer); isSigned {
 		return c.block().NewAShr(leftValue, rightValue)
 	}
@@ -1653,8 +1660,7 @@ func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Valu
 }
 
 func (c *Compiler) compileShiftLeftBinary(expr *ast.BinaryOperation) value.Value {
-	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
-	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	leftValue, rightValue := c.compileShiftOperands(expr)
 	return c.block().NewShl(leftValue, rightValue)
 }
 
-- 
2.43.0


From d60f01b2fbac8feb18d164c4cf0c1c4904c3db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 33/76] fix: negate booleans

---
 internals/compiler/compiler.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 18832f2..94e6ebf 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -973,9 +973,7 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 			return c.block().NewFMul(prefixValue, negativeOne)
 		}
 
-		negativeOne = constant.NewInt(prefixValue.Type().(*types.IntType), -1)
-
-		return c.block().NewMul(prefixValue, negativeOne)
+		return c.block().NewSub(constant.NewInt(prefixValue.Type().(*types.IntType), 0), prefixValue)
 	}
 
 	if prefix.Operation == ops.AddOne || prefix.Operation == ops.SubtractOne {
-- 
2.43.0


From b2bdd520500962f0221e7c83c6611b63ac790717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:05 +0000
Subject: [PATCH 34/76] fix: return the result of a function that returns
 nothing

---
 internals/compiler/compiler.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 94e6ebf..502d2c7 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -533,15 +533,16 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 
 func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	if ret.Expression == nil {
-		if c.currentFunction.Name() == "main" {
-			c.block().NewRet(zero)
-			return
-		}
-		c.block().NewRet(nil)
+		c.compileVoidReturn()
 		return
 	}
 
 	toReturn := c.compileExpression(ret.Expression)
+	if toReturn.Type().Equal(types.Void) {
+		c.compileVoidReturn()
+		return
+	}
+
 	toReturnLoaded := c.loadIfPointer(toReturn)
 	if c.currentValueToReturnBlockExpression != nil {
 		c.block().NewStore(
@@ -555,6 +556,15 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	c.block().NewRet(toReturnLoaded)
 }
 
+// compileVoidReturn leaves a function that returns nothing
+func (c *Compiler) compileVoidReturn() {
+	if c.currentFunction.Name() == "main" {
+		c.block().NewRet(zero)
+		return
+	}
+	c.block().NewRet(nil)
+}
+
 // defines function type without compiling its body
 func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func {
 	if fn, ok := c.globalVariables[name]; ok {
-- 
2.43.0


From d33f5167ca7c7fb2597762731facda51fe552bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 35/76] fix: reject a loop condition that has no value

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 430613e..aee493a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -323,7 +323,7 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 
 	condition := s.analyzeExpression(forStatement.Condition)
 
-	if !ctypes.IsNumeric(condition) && condition != ctypes.VoidType {
+	if !ctypes.IsNumeric(condition) {
 		s.typeMismatchError(forStatement.Condition.String(), forStatement.Condition, forStatement.Token, ctypes.I1, condition)
 	}
 
-- 
2.43.0


From 97c6f9aeeb1d939370121c750a085debeab7171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 36/76] fix: a switch without a default may not return

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index aee493a..595abf0 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1451,7 +1451,7 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 		s.analyzeBlock(switchStatement.Default)
 		allCasesReturn = allCasesReturn && s.returns
 	} else {
-		s.returns = false
+		allCasesReturn = false
 	}
 
 	s.returns = allCasesReturn
-- 
2.43.0


From 7bacf97ed925c8f5f47d38a848df712ee3577aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 37/76] fix: drop the statements after the one that returns

---
 internals/semantic/semantic.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 595abf0..c6491a6 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -191,12 +191,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 			return
 		}
 	case *ast.MacroBlock:
-		for _, stmt := range statementType.Block.Statements {
-			if s.returns {
-				return
-			}
-			s.analyzeStatement(stmt)
-		}
+		statementType.Block.Statements = s.analyzeStatements(statementType.Block.Statements)
 		return
 	case *ast.Block:
 		s.analyzeBlock(statementType)
@@ -301,13 +296,21 @@ func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.expectStatementInsideFunction(block.Token)
 	s.enterFrame()
-	for _, stmt := range block.Statements {
+	block.Statements = s.analyzeStatements(block.Statements)
+	s.leaveFrame()
+}
+
+// analyzeStatements analyzes a list of statements up to the one that returns, and gives back the ones that
+// were analyzed: what follows can't be reached, so it doesn't have to be correct and must not be compiled.
+func (s *Semantic) analyzeStatements(statements []ast.Statement) []ast.Statement {
+	s.returns = false
+	for i, stmt := range statements {
+		s.analyzeStatement(stmt)
 		if s.returns {
-			return
+			return statements[:i+1]
 		}
-		s.analyzeStatement(stmt)
 	}
-	s.leaveFrame()
+	return statements
 }
 
 func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
@@ -369,13 +372,9 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	fun.Return = s.UnwrapAnonymous(fun.Return)
 	s.currentExpectedReturnType = fun.Return
 
+	s.returns = false
 	if block != nil {
-		for _, statement := range block.Statements {
-			if s.returns {
-				break
-			}
-			s.analyzeStatement(statement)
-		}
+		block.Statements = s.analyzeStatements(block.Statements)
 	}
 
 	if !s.returns && fun.Return != ctypes.VoidType {
-- 
2.43.0


From f0049859f56298c3f67ab94ad84d6369085f4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 38/76] fix: a constant may be an index or an argument on the
 left of an assignment, and can't be incremented

---
 internals/semantic/semantic.go | 45 +++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c6491a6..062c6c5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -285,9 +285,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 	s.expectStatementInsideFunction(assign.Token)
 	right := s.analyzeExpression(assign.Expression)
-	s.expectNonConstantExpression = true
-	left := s.analyzeExpression(assign.Left)
-	s.expectNonConstantExpression = false
+	left := s.analyzeMutatedExpression(assign.Left)
 	if !s.areTypesEqualIncludingUnions(left, right) {
 		s.typeMismatchError(assign.String(), assign.Expression, s.currentStatementBeingAnalyzed.GetToken(), left, right)
 	}
@@ -300,6 +298,24 @@ func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.leaveFrame()
 }
 
+// analyzeMutatedExpression analyzes an expression which is going to be stored to, it can't be a constant
+func (s *Semantic) analyzeMutatedExpression(expression ast.Expression) ctypes.Type {
+	previous := s.expectNonConstantExpression
+	s.expectNonConstantExpression = true
+	t := s.analyzeExpression(expression)
+	s.expectNonConstantExpression = previous
+	return t
+}
+
+// analyzeReadExpression analyzes an expression which is only read, even if it's part of an expression that is going to be stored to
+func (s *Semantic) analyzeReadExpression(expression ast.Expression) ctypes.Type {
+	previous := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
+	t := s.analyzeExpression(expression)
+	s.expectNonConstantExpression = previous
+	return t
+}
+
 // analyzeStatements analyzes a list of statements up to the one that returns, and gives back the ones that
 // were analyzed: what follows can't be reached, so it doesn't have to be correct and must not be compiled.
 func (s *Semantic) analyzeStatements(statements []ast.Statement) []ast.Statement {
@@ -515,7 +531,10 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 
 func (s *Semantic) analyzeBuiltinCall(call *ast.BuiltinCall) ctypes.Type {
 	if builtinHandler, ok := s.builtinHandlers[call.Name]; ok {
+		expectNonConstantExpression := s.expectNonConstantExpression
+		s.expectNonConstantExpression = false
 		t := builtinHandler(call)
+		s.expectNonConstantExpression = expectNonConstantExpression
 		call.Type = t
 		return t
 	}
@@ -802,7 +821,7 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 		s.errorWithStatement("expected a pointer or an array for an index access, instead we got "+leftType.String(), indexAccess.Token)
 	}
 
-	indexType := s.analyzeExpression(indexAccess.Access)
+	indexType := s.analyzeReadExpression(indexAccess.Access)
 	if !ctypes.IsInteger(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
@@ -922,7 +941,7 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 
 func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.throwInvalidOperationForConstant("can't call non constant functions for a constant expression", call)
-	possibleFuncType := s.analyzeExpression(call.Left)
+	possibleFuncType := s.analyzeReadExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
 	var funcType *ctypes.Function
@@ -956,7 +975,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 			continue
 		}
 
-		paramType := s.analyzeExpression(param)
+		paramType := s.analyzeReadExpression(param)
 
 		if i >= len(funcType.Parameters) {
 			continue
@@ -1034,7 +1053,12 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 }
 
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
-	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	var t ctypes.Type
+	if prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne {
+		t = s.UnwrapAnonymous(s.analyzeMutatedExpression(prefixOperation.Right))
+	} else {
+		t = s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	}
 	prefixOperation.Type = t
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
@@ -1331,9 +1355,12 @@ func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock)
 	t := s.UnwrapAnonymous(blockExpression.Type)
 	tmpReturns := s.returns
 	tmpExpectedReturnType := s.currentExpectedReturnType
+	tmpExpectNonConstantExpression := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	defer func() {
 		s.returns = tmpReturns
 		s.currentExpectedReturnType = tmpExpectedReturnType
+		s.expectNonConstantExpression = tmpExpectNonConstantExpression
 	}()
 
 	s.currentExpectedReturnType = t
@@ -1363,8 +1390,8 @@ func (s *Semantic) analyzeShiftOperation(binaryOperation *ast.BinaryOperation, l
 }
 
 func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctypes.Type {
-	left := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Left))
-	right := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Right))
+	left := s.UnwrapAnonymous(s.analyzeReadExpression(binaryOperation.Left))
+	right := s.UnwrapAnonymous(s.analyzeReadExpression(binaryOperation.Right))
 
 	if ctypes.IsPointer(left) && ctypes.IsInteger(right) && (binaryOperation.Operation == ops.Add || binaryOperation.Operation == ops.Subtract) {
 		binaryOperation.Type = left
-- 
2.43.0


From 3160150e183da22e5cfc01137afd7baa534192d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 39/76] fix: name every operation

---
 internals/ops/operations.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/ops/operations.go b/internals/ops/operations.go
index 5097cad..0c838f6 100644
--- a/internals/ops/operations.go
+++ b/internals/ops/operations.go
@@ -77,8 +77,10 @@ func (o Operation) String() string {
 		return "<="
 	case Equals:
 		return "=="
-	case Assigns:
+	case Assigns, TempAssign:
 		return "="
+	case At:
+		return "@"
 	case NotEquals:
 		return "!="
 	case Paren:
-- 
2.43.0


From 133568c09bf94a0a2988dd4cfe162f4a3c0b6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 40/76] fix: reject storing to what is not a place in memory

---
 internals/semantic/semantic.go       | 56 +++++++++++++++++++++++-----
 internals/semantic/semantic_steps.go |  2 +-
 internals/semantic/semantic_type.go  |  8 ++++
 3 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 062c6c5..338c930 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -279,7 +279,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
-	s.variables.Add(funk.Name, s.newType(funk))
+	s.variables.Add(funk.Name, s.newFunctionType(funk))
 }
 
 func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
@@ -298,8 +298,9 @@ func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.leaveFrame()
 }
 
-// analyzeMutatedExpression analyzes an expression which is going to be stored to, it can't be a constant
+// analyzeMutatedExpression analyzes an expression which is going to be stored to, it must be a place in memory that isn't a constant
 func (s *Semantic) analyzeMutatedExpression(expression ast.Expression) ctypes.Type {
+	s.expectPlace(expression)
 	previous := s.expectNonConstantExpression
 	s.expectNonConstantExpression = true
 	t := s.analyzeExpression(expression)
@@ -307,6 +308,49 @@ func (s *Semantic) analyzeMutatedExpression(expression ast.Expression) ctypes.Ty
 	return t
 }
 
+// expectPlace checks that the expression is something that can be stored to
+func (s *Semantic) expectPlace(expression ast.Expression) {
+	switch place := expression.(type) {
+	case *ast.Identifier:
+		if variable := s.variables.Get(place.Name); variable == nil || !variable.isDeclaredFunction {
+			return
+		}
+	case *ast.IndexAccess:
+		return
+	case *ast.BinaryOperation:
+		if place.Operation == ops.Dot && !s.isFunctionOfModule(place) {
+			return
+		}
+	case *ast.PrefixOperation:
+		if place.Operation == ops.Multiply || place.Operation == ops.AddOne || place.Operation == ops.SubtractOne {
+			return
+		}
+	case *ast.CommaExpressions:
+		for _, placeInList := range place.Expressions {
+			s.expectPlace(placeInList)
+		}
+		return
+	}
+	s.errorWithExpression("you can only store values in variables, fields, elements and dereferenced pointers", expression)
+}
+
+// isFunctionOfModule checks if the access is to a function that is declared in a module
+func (s *Semantic) isFunctionOfModule(access *ast.BinaryOperation) bool {
+	left, isIdentifier := access.Left.(*ast.Identifier)
+	if !isIdentifier {
+		return false
+	}
+
+	module, isModule := s.modules[left.Name]
+	right, isIdentifier := access.Right.(*ast.Identifier)
+	if !isModule || !isIdentifier {
+		return false
+	}
+
+	variable := module.variables.Get(module.TranslateName(right.Name))
+	return variable != nil && variable.isDeclaredFunction
+}
+
 // analyzeReadExpression analyzes an expression which is only read, even if it's part of an expression that is going to be stored to
 func (s *Semantic) analyzeReadExpression(expression ast.Expression) ctypes.Type {
 	previous := s.expectNonConstantExpression
@@ -1083,14 +1127,6 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			return t
 		}
 
-		if _, isInteger := prefixOperation.Right.(*ast.Integer); !isInteger {
-			if _, isFloat := prefixOperation.Right.(*ast.Float); isFloat {
-				s.errorWithStatement("you can't add a number literal", prefixOperation.Token)
-			}
-		} else {
-			s.errorWithStatement("you can't add a number literal", prefixOperation.Token)
-		}
-
 		return t
 	}
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 9f1c6ff..78784cf 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -33,7 +33,7 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-				s.variables.Add(t.FunctionType.Name, s.newType(t.FunctionType))
+				s.variables.Add(t.FunctionType.Name, s.newFunctionType(t.FunctionType))
 			}
 
 		case *ast.MacroBlock:
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index e789cce..ff90f17 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -11,6 +11,8 @@ type SemanticType struct {
 	parentFunction *ctypes.Function
 	Type           ctypes.Type
 	IsConstant     bool
+	// isDeclaredFunction is true for functions that are declared with a name, they aren't variables
+	isDeclaredFunction bool
 }
 
 func (s *Semantic) newType(t ctypes.Type) *SemanticType {
@@ -20,6 +22,12 @@ func (s *Semantic) newType(t ctypes.Type) *SemanticType {
 	}
 }
 
+func (s *Semantic) newFunctionType(t *ctypes.Function) *SemanticType {
+	declaredType := s.newType(t)
+	declaredType.isDeclaredFunction = true
+	return declaredType
+}
+
 func (s *Semantic) wrapInOperators(expression ast.Expression, times int, operator ops.Operation) ast.Expression {
 	newType := expression.GetType()
 	if operator == ops.Multiply {
-- 
2.43.0


From f22c0012e17bb3df6e657ce55bb10323e8f7a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 41/76] fix: reject leaving a loop from an anonymous function
 inside of it

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 338c930..c7f4a35 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -424,6 +424,13 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 
 	temporaryFunctionAnalyzed := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = fun
+	// The body is on its own: it can't leave loops that are outside of it, and it isn't part of the expression where it appears
+	temporaryInsideBreakableBlock := s.insideBreakableBlock
+	temporaryExpectConstantExpression := s.expectConstantExpression
+	temporaryExpectNonConstantExpression := s.expectNonConstantExpression
+	s.insideBreakableBlock = false
+	s.expectConstantExpression = false
+	s.expectNonConstantExpression = false
 	s.enterFrame()
 
 	s.replaceAnonymousFunctionParameterTypes(fun)
@@ -445,6 +452,9 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.leaveFrame()
 	s.currentFunctionBeingAnalyzed = temporaryFunctionAnalyzed
 	s.currentExpectedReturnType = temporaryExpectedReturnType
+	s.insideBreakableBlock = temporaryInsideBreakableBlock
+	s.expectConstantExpression = temporaryExpectConstantExpression
+	s.expectNonConstantExpression = temporaryExpectNonConstantExpression
 }
 
 func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunction) ctypes.Type {
-- 
2.43.0


From b62fe4e59c777cf293110276f4994933dbc2ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 42/76] fix: capture constants that are declared in a list,
 check constants inside of nested contexts, reject unknown attributes of
 literals

---
 internals/semantic/semantic.go      | 39 +++++++++++++++++------------
 internals/semantic/semantic_type.go |  2 ++
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c7f4a35..f6a9c04 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -308,6 +308,15 @@ func (s *Semantic) analyzeMutatedExpression(expression ast.Expression) ctypes.Ty
 	return t
 }
 
+// analyzeConstantExpression analyzes an expression which may have to be constant
+func (s *Semantic) analyzeConstantExpression(expression ast.Expression, constant bool) ctypes.Type {
+	previous := s.expectConstantExpression
+	s.expectConstantExpression = constant
+	t := s.analyzeExpression(expression)
+	s.expectConstantExpression = previous
+	return t
+}
+
 // expectPlace checks that the expression is something that can be stored to
 func (s *Semantic) expectPlace(expression ast.Expression) {
 	switch place := expression.(type) {
@@ -597,17 +606,13 @@ func (s *Semantic) analyzeBuiltinCall(call *ast.BuiltinCall) ctypes.Type {
 }
 
 func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationStatement) {
-	s.expectConstantExpression = declaration.Constant
-
-	ctype := s.analyzeExpression(declaration.Expression)
+	ctype := s.analyzeConstantExpression(declaration.Expression, declaration.Constant)
 
 	if list, ok := ctype.(*ctypes.TypeList); ok {
 		s.errorWithStatement(fmt.Sprintf("the expression returns %d values, but you only declared 1", len(list.Types)), declaration.Token)
 		return
 	}
 
-	s.expectConstantExpression = false
-
 	if ctypes.VoidType == ctype {
 		s.errorWithStatement("you can't declare a void variable", declaration.Token)
 		return
@@ -964,6 +969,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
+			continue
 		}
 		expression := s.analyzeExpression(value.Expression)
 		if !s.areTypesEqualIncludingUnions(structType.Fields[index], expression) {
@@ -1076,22 +1082,23 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
-		// Constants are known at compile time, there is nothing to capture
-		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil && !identifierType.IsConstant {
-			if s.expectConstantExpression {
-				s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
-			}
+		isKnown := identifierType.IsConstant && !identifierType.isInMemory
 
+		// There is nothing to capture when the value is known at compile time
+		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil && !isKnown {
 			if !s.captureVariable(identifier.Name, identifierType.parentFunction) {
 				s.errorWithStatement("'"+ast.RetrieveID(identifier.Name)+"' is a local variable of another function", identifier.Token)
 			}
 
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
-			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
-			return identifierTypeUnwrap
+			captured := s.newType(identifierTypeUnwrap)
+			captured.IsConstant = identifierType.IsConstant
+			captured.isInMemory = true
+			s.variables.Add(identifier.Name, captured)
+			identifierType = captured
 		}
 
-		if !identifierType.IsConstant && s.expectConstantExpression {
+		if !isKnown && s.expectConstantExpression {
 			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
 		}
 
@@ -1398,6 +1405,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 }
 
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
+	s.throwInvalidOperationForConstant("you can't use a block on constants", blockExpression)
 	t := s.UnwrapAnonymous(blockExpression.Type)
 	tmpReturns := s.returns
 	tmpExpectedReturnType := s.currentExpectedReturnType
@@ -1503,9 +1511,7 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 	allCasesReturn := true
 
 	for _, caseStatement := range switchStatement.Cases {
-		s.expectConstantExpression = true
-		caseExpression := s.UnwrapAnonymous(s.analyzeExpression(caseStatement.Case))
-		s.expectConstantExpression = false
+		caseExpression := s.UnwrapAnonymous(s.analyzeConstantExpression(caseStatement.Case, true))
 		if !s.areTypesEqual(condition, caseExpression) {
 			s.typeMismatchError(caseExpression.String(), caseStatement.Case, caseStatement.Token, condition, caseExpression)
 			return
@@ -1557,6 +1563,7 @@ func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 	for i, name := range m.Names {
 		declaredType := s.newType(typeList.Types[i])
 		declaredType.IsConstant = m.Constant
+		declaredType.isInMemory = true
 		s.variables.Add(name, declaredType)
 	}
 
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index ff90f17..abac340 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -11,6 +11,8 @@ type SemanticType struct {
 	parentFunction *ctypes.Function
 	Type           ctypes.Type
 	IsConstant     bool
+	// isInMemory is true if the variable has to be read from memory even though it may be a constant
+	isInMemory bool
 	// isDeclaredFunction is true for functions that are declared with a name, they aren't variables
 	isDeclaredFunction bool
 }
-- 
2.43.0


From c27d307adb00632ce31bd09730a9713f363debfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 43/76] fix: methods and modules are not values

---
 internals/semantic/semantic.go | 90 ++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f6a9c04..f5bf11b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -62,6 +63,9 @@ type Semantic struct {
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
+	// calledExpression is the expression on the left of the call that is being analyzed, only this one can be a method
+	calledExpression ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 }
@@ -1001,7 +1005,10 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 
 func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.throwInvalidOperationForConstant("can't call non constant functions for a constant expression", call)
+	temporaryCalledExpression := s.calledExpression
+	s.calledExpression = call.Left
 	possibleFuncType := s.analyzeReadExpression(call.Left)
+	s.calledExpression = temporaryCalledExpression
 
 	// it is possible that we are retrieving a sturct access with function
 	var funcType *ctypes.Function
@@ -1074,9 +1081,9 @@ func (s *Semantic) captureVariable(name string, owner *ctypes.Function) bool {
 }
 
 func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
-	if module, ok := s.modules[identifier.Name]; ok {
-		identifier.Type = module
-		return module
+	if _, ok := s.modules[identifier.Name]; ok {
+		s.errorWithStatement("a module is not a value: "+ast.RetrieveID(identifier.Name), identifier.Token)
+		return ctypes.TODO()
 	}
 
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
@@ -1216,41 +1223,62 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 	return accessedElement.Type
 }
 
+// findFunctionInAllModules finds the function that can be called as a method of a type which isn't a struct nor an union
 func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *ctypes.Function {
-	for _, semantic := range s.modules {
-		v := semantic.variables.Get(semantic.TranslateName(accessName))
-		if v == nil {
-			continue
-		}
-
-		if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-			if !s.areTypesEqual(funk.Parameters[0], t) {
-				continue
-			}
+	names := make([]string, 0, len(s.modules))
+	for name := range s.modules {
+		names = append(names, name)
+	}
+	sort.Strings(names)
 
-			return funk
+	for _, name := range names {
+		if fn := s.modules[name].findMethod(t, accessName); fn != nil {
+			return fn
 		}
 	}
 
+	return s.findMethod(t, accessName)
+}
+
+func (s *Semantic) findMethod(t ctypes.Type, accessName string) *ctypes.Function {
 	v := s.variables.Get(s.TranslateName(accessName))
+	if v == nil || !v.isDeclaredFunction {
+		return nil
+	}
 
-	if v == nil {
+	fn := v.Type.(*ctypes.Function)
+	if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], t) {
 		return nil
 	}
 
-	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if !s.areTypesEqual(funk.Parameters[0], t) {
-			return nil
-		}
+	return fn
+}
 
-		return funk
+// analyzeMethodAccess lets the call know that the expression on the left of the access is its first argument
+func (s *Semantic) analyzeMethodAccess(access *ast.BinaryOperation, fn *ctypes.Function) ctypes.Type {
+	if s.calledExpression != access {
+		s.errorWithStatement("you can only call a method, it's not a value by itself: "+access.String(), access.Token)
+		return ctypes.TODO()
 	}
 
-	return nil
+	s.additionalExpression = access.Left
+	return fn
+}
+
+// analyzeAccessedExpression analyzes the left side of an access, which may be a module
+func (s *Semantic) analyzeAccessedExpression(expression ast.Expression) ctypes.Type {
+	if identifier, isIdentifier := expression.(*ast.Identifier); isIdentifier {
+		if module, isModule := s.modules[identifier.Name]; isModule {
+			identifier.Type = module
+			return module
+		}
+	}
+
+	return s.analyzeExpression(expression)
 }
 
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
-	left := s.analyzeExpression(binaryOperation.Left)
+	left := s.analyzeAccessedExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
 	var isFieldAccessor bool
 	if module, isModule := left.(*Semantic); isModule {
@@ -1273,8 +1301,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.analyzeMethodAccess(binaryOperation, fn)
 		}
 		ptr.Inner = fieldAccessor
 	} else {
@@ -1286,8 +1313,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.analyzeMethodAccess(binaryOperation, fn)
 		}
 	}
 
@@ -1304,18 +1330,22 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 
 		// Maybe the user wanted to access a member function, on this module or another
 		variable := m.variables.Get(m.TranslateName(namePlusId))
-		if variable == nil || !ctypes.IsFunction(variable.Type) {
+		if variable == nil || !variable.isDeclaredFunction {
 			s.errorWithStatement("unknown field "+binaryOperation.String(), binaryOperation.Token)
 			return ctypes.TODO()
 		}
 
 		fn := variable.Type.(*ctypes.Function)
-		if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], left) {
+		if len(fn.Parameters) == 0 {
+			s.errorWithStatement("unknown field "+binaryOperation.String(), binaryOperation.Token)
+			return ctypes.TODO()
+		}
+
+		if !s.areTypesEqual(fn.Parameters[0], left) {
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-		s.additionalExpression = binaryOperation.Left
-		return variable.Type
+		return s.analyzeMethodAccess(binaryOperation, fn)
 	}
 
 	binaryOperation.Type = t
-- 
2.43.0


From f98495ee1e2436671f78d6a01f60c96f6f5299b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 44/76] fix: report import cycles

---
 internals/semantic/semantic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f5bf11b..2e415e9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1393,6 +1393,10 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	}
 	endHash := currentPathPlusImport + hashType.String()
 	if existingSemantic, ok := paths[endHash]; ok {
+		if existingSemantic == nil {
+			s.errorWithStatement("import cycle, the file with path "+importStatement.Path.String()+" is being imported already", importStatement.Token)
+			return
+		}
 		s.modules[importStatement.Name] = existingSemantic
 		// We need this for methods that are referenced as
 		// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
@@ -1415,6 +1419,8 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		return
 	}
 
+	// It's nil while the file is being analyzed, so we can recognise an import cycle
+	paths[endHash] = nil
 	internalSemantic := New()
 	// Get the local directory where the user is importing
 	dir, _ := path.Split(importStatement.Path.Value)
@@ -1422,6 +1428,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	internalSemantic.ContextDirectoryPath = path.Join(s.ContextDirectoryPath, dir)
 	internalSemantic.Analyze(tree)
 	if len(internalSemantic.Errors) > 0 {
+		delete(paths, endHash)
 		s.errorWithStatement("error analyzing file imported on path "+importStatement.Path.String(), importStatement.Token)
 		s.Errors = append(s.Errors, internalSemantic.Errors...)
 		return
-- 
2.43.0


From 329cdcf93fcb04b1a336b39f039ca71886ceaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 45/76] fix: tell apart types of the same name in the
 parameters of imports

---
 internals/semantic/semantic.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2e415e9..f2c56d3 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1360,6 +1360,35 @@ func (s *Semantic) isArithmetic(op ops.Operation) bool {
 		op == ops.Modulo
 }
 
+// typeKey identifies a type, also from the types of other modules that have the same name
+func typeKey(t ctypes.Type) string {
+	switch t := t.(type) {
+	case *ctypes.Pointer:
+		return "*" + typeKey(t.Inner)
+	case *ctypes.Array:
+		return "[" + strconv.FormatInt(t.Length, 10) + "]" + typeKey(t.Inner)
+	case *ctypes.Function:
+		key := strings.Builder{}
+		key.WriteString("func(")
+		for _, parameter := range t.Parameters {
+			key.WriteString(typeKey(parameter))
+			key.WriteByte(',')
+		}
+		key.WriteByte(')')
+		if t.Return != nil {
+			key.WriteString(typeKey(t.Return))
+		}
+		return key.String()
+	case *ctypes.Struct:
+		return t.Name
+	case *ctypes.Union:
+		return t.Name
+	case *ctypes.Anonymous:
+		return t.Name
+	}
+	return t.String()
+}
+
 // analyzeImport works in a really tricky way
 //   - First off we start by gathering all types that the file is gonna need as parameters
 //   - Then we should parse and analyze the file that is being imported if it hasn't been yet
@@ -1389,7 +1418,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	hashType := strings.Builder{}
 	for _, t := range types {
 		hashType.WriteByte(',')
-		hashType.WriteString(t.String())
+		hashType.WriteString(typeKey(t))
 	}
 	endHash := currentPathPlusImport + hashType.String()
 	if existingSemantic, ok := paths[endHash]; ok {
-- 
2.43.0


From f913d5b36c5dba44acea533c843898f938206c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 46/76] fix: reject references to constants that are stored in
 memory

---
 internals/semantic/semantic.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f2c56d3..3970d60 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -347,6 +347,20 @@ func (s *Semantic) expectPlace(expression ast.Expression) {
 	s.errorWithExpression("you can only store values in variables, fields, elements and dereferenced pointers", expression)
 }
 
+// isInsideConstant checks if the expression is a place in the memory of a constant
+func (s *Semantic) isInsideConstant(expression ast.Expression) bool {
+	switch place := expression.(type) {
+	case *ast.Identifier:
+		variable := s.variables.Get(place.Name)
+		return variable != nil && variable.IsConstant && variable.isInMemory
+	case *ast.IndexAccess:
+		return !ctypes.IsPointer(place.Left.GetType()) && s.isInsideConstant(place.Left)
+	case *ast.BinaryOperation:
+		return place.Operation == ops.Dot && !ctypes.IsPointer(place.Left.GetType()) && s.isInsideConstant(place.Left)
+	}
+	return false
+}
+
 // isFunctionOfModule checks if the access is to a function that is declared in a module
 func (s *Semantic) isFunctionOfModule(access *ast.BinaryOperation) bool {
 	left, isIdentifier := access.Left.(*ast.Identifier)
@@ -1164,6 +1178,9 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 
 	if prefixOperation.Operation == ops.BinaryAND {
 		s.throwInvalidOperationForConstant("you can't ref on constant expressions", prefixOperation)
+		if s.isInsideConstant(prefixOperation.Right) {
+			s.errorWithExpression("you can't reference a constant, it could be mutated", prefixOperation.Right)
+		}
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
 	}
-- 
2.43.0


From 1429a8167d7c200513990c1d1258a984bcbfa1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 47/76] fix: report declarations of what isn't an identifier in
 lists

---
 internals/parser/parser_assignment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 9e0de25..8b03a06 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -53,6 +53,12 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 
 		p.expect(token.ASSIGN)
 		p.nextToken()
+		for _, name := range commaExpr.Expressions {
+			if _, isIdentifier := name.(*ast.Identifier); !isIdentifier {
+				p.addErrorMessage("you can only declare identifiers, this isn't one: " + name.String())
+				return nil
+			}
+		}
 		return &ast.MultipleDeclarationStatement{
 			Token:      declToken,
 			Names:      ast.IdentifiersToStrings(commaExpr.Expressions),
-- 
2.43.0


From 2831621e967b8a04dff0a81285b75adcaa29d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 48/76] fix: check the type that a list declaration gives

---
 internals/semantic/semantic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3970d60..0095ccf 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1641,6 +1641,11 @@ func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 			s.errorWithStatement("you can't declare a void variable", m.Token)
 			return
 		}
+		// Check if the declaration is forcing the type
+		if m.Type != ctypes.TODO() && !s.areTypesEqual(m.Type, typeList.Types[i]) {
+			s.typeMismatchError(m.String(), m.Expression, m.Token, m.Type, typeList.Types[i])
+			return
+		}
 	}
 
 	for i, name := range m.Names {
-- 
2.43.0


From 46bac90a4e0882e6305b0564e82279623d23714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 49/76] fix: report undefined types in casts, array literals
 and function types

---
 internals/semantic/semantic.go         | 23 +++++++++++++++++++++++
 internals/semantic/semantic_builtin.go |  2 +-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 0095ccf..c3c1d8c 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -203,6 +203,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 
 	case *ast.UnionStatement:
 		// moved to fillTypes
+		s.resolveFunctionFields(statementType.Type.Fields)
 		return
 
 	case *ast.ImportStatement:
@@ -213,6 +214,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 		s.analyzeDeclarationStatement(statementType)
 		return
 	case *ast.StructStatement:
+		s.resolveFunctionFields(statementType.Type.Fields)
 		return
 
 	case *ast.IfStatement:
@@ -230,6 +232,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 	case *ast.ExternStatement:
 		// moved to fillTypes
 		// s.analyzeExternStatement(statementType)
+		s.replaceAnonymous(statementType.Type)
 		return
 
 	case *ast.ExpressionStatement:
@@ -557,6 +560,15 @@ func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement)
 	s.returns = true
 }
 
+// resolveFunctionFields finds the types that the functions in the fields of a struct or union use
+func (s *Semantic) resolveFunctionFields(fields []ctypes.Type) {
+	for _, field := range fields {
+		if _, isFunction := s.unwrap(field).(*ctypes.Function); isFunction {
+			s.replaceAnonymous(field)
+		}
+	}
+}
+
 func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 	s.definedTypes[statementType.Type.Name] = statementType.Type
 	for i, t := range statementType.Type.Fields {
@@ -738,6 +750,16 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return arr
 	}
 
+	if fn, ok := t.(*ctypes.Function); ok && toSwap == ctypes.TODO() {
+		for i, parameter := range fn.Parameters {
+			fn.Parameters[i] = s.swapTypes(parameter, toSwap)
+		}
+		if fn.Return != nil {
+			fn.Return = s.swapTypes(fn.Return, toSwap)
+		}
+		return fn
+	}
+
 	if _, stopRecursionForStruct := t.(*ctypes.Struct); stopRecursionForStruct {
 		return t
 	}
@@ -1000,6 +1022,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 
 func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Type {
 	arrayType := arrayLiteral.Type.(*ctypes.Array)
+	s.replaceAnonymous(arrayType)
 	currType := arrayType.Inner
 
 	if int(arrayType.Length) < len(arrayLiteral.Values) {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 20193fc..166eefd 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -22,7 +22,7 @@ func (s *Semantic) analyzeAddCompilerFlag(addCompilerFlag *ast.BuiltinCall) ctyp
 func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
-	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
+	toType := s.replaceAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
 	// Pointers can be turned into any integer, but not into floats. And arrays only decay to pointers.
 	if ctypes.IsNumeric(currentType) && (ctypes.IsNumeric(toType) || ctypes.IsPointer(toType)) ||
-- 
2.43.0


From 1aaeb108b67ea948c18a6bd0905b32c80d0fda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 50/76] fix: don't slice past the end of the file when showing
 the line of an error

---
 internals/lexer/lexer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 657608b..8fd980e 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -58,10 +58,21 @@ func (l *Lexer) RetrieveLine(t token.Token) string {
 		t.OverallPosition = len(l.input) - 1
 		currentColumn = len(l.input) - 2
 	}
+	// Tokens at the end of the file can be past the last character
+	end := t.OverallPosition + 1
+	if end > len(l.input) {
+		end = len(l.input)
+	}
+	if currentColumn >= end {
+		currentColumn = end - 1
+	}
+	if currentColumn < -1 {
+		currentColumn = -1
+	}
 	for currentColumn >= 0 && l.input[currentColumn] != '\n' && l.input[currentColumn] != '\t' {
 		currentColumn--
 	}
-	return l.input[currentColumn+1 : t.OverallPosition+1]
+	return l.input[currentColumn+1 : end]
 }
 
 // Returns if there is a combination with the next char, else returns otherwise param
-- 
2.43.0


From 166eb7ab7bc926c8ec2144209e1789d836a5dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 51/76] fix: read the escapes of char literals

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 8fd980e..94d2be0 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -99,7 +99,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 func (l *Lexer) readCharLiteral() token.Token {
 	l.readChar()
 	var literal byte
-	if l.peekChar() == '\\' {
+	if l.ch == '\\' {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
-- 
2.43.0


From 462143ff476cafe744356e9ad4e3ff6973b475e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 52/76] fix: keep the bytes of strings that aren't ASCII

---
 internals/lexer/lexer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 94d2be0..7dc3812 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -254,7 +254,8 @@ func (l *Lexer) parseNumericToken() token.Token {
 }
 
 func (l *Lexer) readString() string {
-	s := ""
+	// Bytes are kept as they are, they can be part of a multibyte character
+	s := []byte{}
 	l.readChar()
 	for l.ch != '"' && l.ch != 0 {
 		if l.ch == '\\' {
@@ -262,22 +263,22 @@ func (l *Lexer) readString() string {
 			if l.peekChar() == 'n' {
 				l.readChar()
 				l.readChar()
-				s += string('\n')
+				s = append(s, '\n')
 				continue
 			}
 
 			// Read it as a literal
 			l.readChar()
-			s += string(l.ch)
+			s = append(s, l.ch)
 			l.readChar()
 			continue
 		}
 
-		s += string(l.ch)
+		s = append(s, l.ch)
 		l.readChar()
 	}
 
-	return s
+	return string(s)
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-- 
2.43.0


From 4ca9b4a76e87b66b551a019954d3a8747d2095b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 53/76] fix: report missing types, and missing names and
 parentheses next to them

---
 internals/parser/parser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cd7d1..e9b9f9e 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -372,7 +372,7 @@ func (p *Parser) parseAnonymousFunction() ast.Expression {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.isType() {
 		returnType = p.parseTypes()
 	}
 
@@ -412,7 +412,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Statement {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.isType() {
 		returnType = p.parseTypes()
 	}
 
@@ -614,6 +614,7 @@ func (p *Parser) parseType() ctypes.Type {
 	if p.currentToken.Type == token.LPAREN {
 		p.nextToken()
 		t := p.parseTypes()
+		p.expect(token.RPAREN)
 		p.nextToken()
 		return t
 	}
@@ -717,7 +718,17 @@ func (p *Parser) parseType() ctypes.Type {
 		return &ctypes.Array{Length: integer, Inner: p.parseType()}
 	}
 
-	return nil
+	p.addErrorMessage("expected a type")
+	return ctypes.TODO()
+}
+
+// isType returns whether a type can start with the current token
+func (p *Parser) isType() bool {
+	switch p.currentToken.Type {
+	case token.LPAREN, token.ASTERISK, token.IDENT, token.FUNCTION, token.LBRACKET:
+		return true
+	}
+	return false
 }
 
 func (p *Parser) parsePrefix() ast.Expression {
@@ -1152,7 +1163,7 @@ func (p *Parser) parseExtern() ast.Statement {
 		return &ast.ExternStatement{}
 	}
 
-	if fun, ok := t.(*ctypes.Function); !ok || fun.Name == "" {
+	if fun, ok := t.(*ctypes.Function); !ok || ast.RetrieveID(fun.Name) == "" {
 		p.addErrorMessage("badly formed external function")
 	} else {
 		fun.ExternalName = ast.RetrieveID(fun.Name)
-- 
2.43.0


From cdb1eb3e1fac5e7aeeadb98584b1e27cb3a96a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 54/76] fix: report declarations of constants without a name

---
 internals/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e9b9f9e..a4e4ffc 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -532,10 +532,12 @@ func (p *Parser) parseIdentifierStatement() ast.Statement {
 }
 
 func (p *Parser) parseMultipleDeclarations(isConstant bool) ast.Statement {
+	p.expect(token.IDENT)
 	firstLiteral := p.nextToken()
 	names := []string{ast.CreateIdentifier(firstLiteral.Literal, p.ID)}
 	for p.currentToken.Type == token.COMMA {
 		p.nextToken()
+		p.expect(token.IDENT)
 		names = append(names, ast.CreateIdentifier(p.nextToken().Literal, p.ID))
 	}
 	p.expect(token.COLON)
@@ -567,6 +569,7 @@ func (p *Parser) parseDeclaration() ast.Statement {
 		return p.parseMultipleDeclarations(isConstant)
 	}
 
+	p.expect(token.IDENT)
 	id := p.currentToken
 	// pass id
 	p.nextToken()
-- 
2.43.0


From 7ae797c57ce0873420e3ab5b03cd22f780ea8c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 55/76] fix: report what isn't a function after pub and
 built-in functions of modules

---
 internals/parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index a4e4ffc..e35ac61 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -218,6 +218,7 @@ func (p *Parser) parseTypeDefinition(name token.Token) ast.Statement {
 
 func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
+	p.expect(token.FUNCTION)
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
 	fn.FunctionType.RedefineWithOriginalName = true
 	return fn
@@ -919,6 +920,10 @@ func (p *Parser) parseAt() ast.Expression {
 	if p.peekToken.Type == token.DOT {
 		module = ast.CreateIdentifier(p.nextToken().Literal, p.ID)
 		p.nextToken()
+		p.expect(token.IDENT)
+		if p.peekToken.Type != token.LBRACE {
+			p.addErrorMessage("modules don't have builtin functions")
+		}
 	}
 
 	if p.peekToken.Type == token.LBRACE {
-- 
2.43.0


From 45c018114f3c50213e75f3243c069d9178bd88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 56/76] fix: report types that contain themselves through
 others

---
 internals/semantic/semantic.go       |  3 ++
 internals/semantic/semantic_steps.go | 69 +++++++++++++++++++++++++++-
 2 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c3c1d8c..308e9e1 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -159,6 +159,9 @@ func (s *Semantic) Analyze(program *ast.Program) {
 
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
+	if s.findRecursiveTypes(program.Statements) {
+		return
+	}
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 78784cf..9d803f7 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -1,6 +1,9 @@
 package semantic
 
-import "github.com/gabivlj/candice/internals/ast"
+import (
+	"github.com/gabivlj/candice/internals/ast"
+	"github.com/gabivlj/candice/internals/ctypes"
+)
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
@@ -84,3 +87,67 @@ func (s *Semantic) fillTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// findRecursiveTypes reports the structs and unions that contain themselves, be it in an array or in another type.
+func (s *Semantic) findRecursiveTypes(statements []ast.Statement) bool {
+	found := false
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.StructStatement:
+			{
+				if s.containsType(t.Type.Fields, t.Type, map[ctypes.Type]bool{}) {
+					s.error("Recursive type detected", t.Token)
+					found = true
+				}
+			}
+
+		case *ast.UnionStatement:
+			{
+				if s.containsType(t.Type.Fields, t.Type, map[ctypes.Type]bool{}) {
+					s.error("Recursive type detected", t.Token)
+					found = true
+				}
+			}
+
+		case *ast.MacroBlock:
+			{
+				found = s.findRecursiveTypes(t.Statements) || found
+			}
+		}
+	}
+	return found
+}
+
+func (s *Semantic) containsType(fields []ctypes.Type, searched ctypes.Type, visited map[ctypes.Type]bool) bool {
+	for _, field := range fields {
+		for {
+			field = s.UnwrapAnonymous(field)
+			array, isArray := field.(*ctypes.Array)
+			if !isArray {
+				break
+			}
+			field = array.Inner
+		}
+
+		if field == searched {
+			return true
+		}
+
+		if visited[field] {
+			continue
+		}
+		visited[field] = true
+
+		switch t := field.(type) {
+		case *ctypes.Struct:
+			if s.containsType(t.Fields, searched, visited) {
+				return true
+			}
+		case *ctypes.Union:
+			if s.containsType(t.Fields, searched, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
-- 
2.43.0


From adeda8dd4296c8b964f2561bc9a6665bcf5cad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 57/76] fix: keep the warnings

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 308e9e1..b7cf8dd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -147,7 +147,7 @@ func (s *Semantic) errorWithExpression(msg string, expr ast.Expression) {
 }
 
 func (s *Semantic) warning(msg string, tok token.Token) {
-	s.Warnings = append(s.Errors, errors.New(fmt.Sprintf("[%d:%d] %s", tok.Line, tok.Position, msg)))
+	s.Warnings = append(s.Warnings, errors.New(fmt.Sprintf("[%d:%d] %s", tok.Line, tok.Position, msg)))
 }
 
 func (s *Semantic) GetModule(name string) *Semantic {
-- 
2.43.0


From 9461b08d3e788fbff3f83ae5a82ca5e53910dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 58/76] fix: report strings that never end and NUL bytes

---
 internals/lexer/lexer.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 7dc3812..fefe592 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -44,7 +44,7 @@ func (l *Lexer) skipWhiteSpace() {
 }
 
 func (l *Lexer) skipUntilJL() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.atEnd() {
 		l.readChar()
 	}
 	l.readChar()
@@ -172,6 +172,10 @@ func (l *Lexer) NextToken() token.Token {
 		tok.Line = l.line
 		tok.Position = l.column - uint32(len(tok.Literal))
 		tok.OverallPosition = l.position
+		if l.atEnd() {
+			// The string never ends
+			tok.Type = token.ILLEGAL
+		}
 	case '=':
 		tok = l.peekerForTwoChars('=', l.newToken(token.ASSIGN, '='), token.EQ)
 	case '!':
@@ -217,6 +221,10 @@ func (l *Lexer) NextToken() token.Token {
 	case '}':
 		tok = l.newToken(token.RBRACE, l.ch)
 	case 0:
+		if !l.atEnd() {
+			tok = l.newToken(token.ILLEGAL, l.ch)
+			break
+		}
 		tok.Line = l.line
 		tok.Position = l.column
 		tok.OverallPosition = l.position
@@ -257,7 +265,7 @@ func (l *Lexer) readString() string {
 	// Bytes are kept as they are, they can be part of a multibyte character
 	s := []byte{}
 	l.readChar()
-	for l.ch != '"' && l.ch != 0 {
+	for l.ch != '"' && !l.atEnd() {
 		if l.ch == '\\' {
 			// It's a jumpline
 			if l.peekChar() == 'n' {
@@ -360,6 +368,10 @@ func (l *Lexer) readChar() {
 	l.ch = l.input[l.readPosition]
 }
 
+func (l *Lexer) atEnd() bool {
+	return l.position >= len(l.input)
+}
+
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
 		return 0
-- 
2.43.0


From 96a3b16fb1e0e6c6d2d1d38f16698230c22a3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 59/76] fix: count the lines inside of literals

---
 internals/lexer/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index fefe592..9ce89f1 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -35,10 +35,6 @@ func isLetter(ch byte) bool {
 
 func (l *Lexer) skipWhiteSpace() {
 	for l.ch == ' ' || l.ch == '\t' || l.ch == '\r' || l.ch == '\n' {
-		if l.ch == '\n' {
-			l.line++
-			l.column = 1
-		}
 		l.readChar()
 	}
 }
@@ -48,8 +44,6 @@ func (l *Lexer) skipUntilJL() {
 		l.readChar()
 	}
 	l.readChar()
-	l.line++
-	l.column = 1
 }
 
 func (l *Lexer) RetrieveLine(t token.Token) string {
@@ -151,7 +145,9 @@ func (l *Lexer) NextToken() token.Token {
 	l.skipWhiteSpace()
 	switch l.ch {
 	case '\'':
+		line := l.line
 		tok = l.readCharLiteral()
+		tok.Line = line
 		return tok
 	case '#':
 		tok = l.getMacroToken()
@@ -168,8 +164,8 @@ func (l *Lexer) NextToken() token.Token {
 		tok = l.newToken(token.RBRACKET, l.ch)
 	case '"':
 		tok.Type = token.STRING
-		tok.Literal = l.readString()
 		tok.Line = l.line
+		tok.Literal = l.readString()
 		tok.Position = l.column - uint32(len(tok.Literal))
 		tok.OverallPosition = l.position
 		if l.atEnd() {
@@ -352,7 +348,12 @@ func (l *Lexer) readNumber() (string, token.TypeToken) {
 }
 
 func (l *Lexer) readChar() {
+	passed := l.ch
 	defer func() {
+		if passed == '\n' {
+			l.line++
+			l.column = 1
+		}
 		// next position is current position now
 		l.position = l.readPosition
 		l.column++
-- 
2.43.0


From 0e7e22fb371a593cc0c59b89ca782bdb0de4727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 60/76] fix: keep the byte of a char literal as it is

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 9ce89f1..88c7074 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -286,7 +286,7 @@ func (l *Lexer) readString() string {
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-	return token.Token{Type: tokenType, Literal: string(ch), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
+	return token.Token{Type: tokenType, Literal: string([]byte{ch}), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
 }
 
 func isDigit(ch byte) bool {
-- 
2.43.0


From 07da4dee7a381e10128ab4a20fead196e3eeb566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 61/76] fix: the old command line tool fails when it could not
 compile

---
 internals/program/program.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/program/program.go b/internals/program/program.go
index f306177..a4d83d8 100644
--- a/internals/program/program.go
+++ b/internals/program/program.go
@@ -32,11 +32,16 @@ func Init() {
 	flag.StringVar(&objectFileFlag, "o", "", "Objects to link")
 	flag.StringVar(&programName, "name", "program", "Program name")
 	flag.Parse()
+	if flag.NArg() == 0 {
+		flag.Usage()
+		os.Exit(1)
+	}
 	file := flag.Args()[0]
 	objects := strings.Split(objectFileFlag, ",")
 	code, err := os.ReadFile(file)
 	if err != nil {
 		logger.Error("", "Opening file", err.Error())
+		os.Exit(1)
 	}
 
 	p := parser.New(lexer.New(string(code)))
@@ -45,7 +50,7 @@ func Init() {
 		for _, err := range p.Errors {
 			logger.Error("Parsing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 	s := semantic.New()
 	s.Analyze(tree)
@@ -53,7 +58,7 @@ func Init() {
 		for _, err := range s.Errors {
 			logger.Error("Analyzing", err.Error())
 		}
-		return
+		os.Exit(1)
 	}
 
 	c := compiler.New(s)
@@ -61,7 +66,7 @@ func Init() {
 	err = c.GenerateExecutableExperimental(programName, "clang", objects, true, true)
 	if err != nil {
 		logger.Error("Internally At Compile Time", err.Error())
-		return
+		os.Exit(1)
 	}
 	passedTime := float64(time.Now().UnixMilli() - current.UnixMilli())
 	logger.Success("BUILD SUCCESSFUL. (" + strconv.FormatFloat(passedTime/1000, 'f', 3, 64) + "s)")
-- 
2.43.0


From 63ad744d358f921b41026fb2a0f17b774231cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 62/76] fix: an object was never made for projects of kind llvm
 where LLVM is not linked in

---
 internals/compiler/compiler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 502d2c7..966d449 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -293,8 +293,9 @@ func (c *Compiler) GenerateExecutableExperimental(output string, cxx string, fla
 		return err
 	}
 
-	if !link {
-		return err
+	// The object may have been generated already, where it wasn't we need the compiler to make it from LLVM IR
+	if !link && pathOutput == output {
+		return nil
 	}
 
 	command := append(flags, pathOutput)
-- 
2.43.0


From c9e9d3dd8047d3007678026ece27d59a9734916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 63/76] fix: printing the tree of a faulty file crashed

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e35ac61..b643d05 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -740,7 +740,7 @@ func (p *Parser) parsePrefix() ast.Expression {
 	if !ok {
 		p.addErrorMessage("unknown token to parse on prefix")
 		p.nextToken()
-		return &ast.Integer{Value: 1}
+		return &ast.Integer{Node: &node.Node{Type: ctypes.I32, Token: p.currentToken}, Value: 1}
 	}
 
 	p.checkPrefixErrors()
-- 
2.43.0


From 6e811f6ab12481217cbe9b361ee7f1840a0f3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 64/76] fix: the printed tree left out parts of the program,
 crashed on multiple declarations and was drawn askew at loops

---
 internals/tree_printer/printer.go | 59 +++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 77c5ce0..ae8bd0f 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -52,7 +52,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.DeclarationStatement:
 		{
-			return ConnectString("ast.DeclarationStatement", []string{ast.RetrieveID(t.Name), processExpression(t.Expression)})
+			return ConnectString("ast.DeclarationStatement", processDeclaration(t.Constant, []string{t.Name}, t.Type, t.Expression))
 		}
 
 	case *ast.Block:
@@ -87,22 +87,27 @@ func Process(statement ast.Statement) string {
 
 	case *ast.ExternStatement:
 		{
-			return ConnectString("ast.ExternStatement", []string{t.Type.String()})
+			strings := []string{t.Type.String()}
+			if function, ok := t.Type.(*ctypes.Function); ok && function.InfiniteParameters {
+				strings = append(strings, "...")
+			}
+
+			return ConnectString("ast.ExternStatement", strings)
 		}
 
 	case *ast.ForStatement:
 		{
 			var strings []string
 			if t.InitializerStatement != nil {
-				strings = append(strings, "initializer: "+Process(t.InitializerStatement))
+				strings = append(strings, ConnectString("initializer:", []string{Process(t.InitializerStatement)}))
 			}
 
 			if t.Condition != nil {
-				strings = append(strings, "condition: "+processExpression(t.Condition))
+				strings = append(strings, ConnectString("condition:", []string{processExpression(t.Condition)}))
 			}
 
 			if t.Operation != nil {
-				strings = append(strings, "operation: "+Process(t.Operation))
+				strings = append(strings, ConnectString("operation:", []string{Process(t.Operation)}))
 			}
 
 			strings = append(strings, Process(t.Block))
@@ -129,6 +134,10 @@ func Process(statement ast.Statement) string {
 	case *ast.FunctionDeclarationStatement:
 		{
 			var strings []string
+			if t.FunctionType.RedefineWithOriginalName {
+				strings = append(strings, "pub")
+			}
+
 			strings = append(strings, ast.RetrieveID(t.FunctionType.Name))
 			parameterTypes, returnTypes := functionTypeToString(t.FunctionType)
 			if parameterTypes != "" {
@@ -147,11 +156,11 @@ func Process(statement ast.Statement) string {
 
 	case *ast.ImportStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Name)}
 			for _, t := range t.Types {
 				strings = append(strings, t.String())
 			}
-			strings = append(strings, `"`+t.Path.String()+`"`)
+			strings = append(strings, t.Path.String())
 			return ConnectString("ast.ImportStatement", strings)
 		}
 
@@ -172,7 +181,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.StructStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Type.Name)}
 			for i, field := range t.Type.Fields {
 				strings = append(strings, ConnectString("ast.Field", []string{ast.RetrieveID(t.Type.Names[i]), field.String()}))
 			}
@@ -182,7 +191,7 @@ func Process(statement ast.Statement) string {
 
 	case *ast.UnionStatement:
 		{
-			var strings []string
+			strings := []string{ast.RetrieveID(t.Type.Name)}
 			for i, field := range t.Type.Fields {
 				strings = append(strings, ConnectString("ast.Field", []string{ast.RetrieveID(t.Type.Names[i]), field.String()}))
 			}
@@ -211,13 +220,31 @@ func Process(statement ast.Statement) string {
 
 	case *ast.MultipleDeclarationStatement:
 		{
-			panic("unimplemented")
+			return ConnectString("ast.MultipleDeclarationStatement", processDeclaration(t.Constant, t.Names, t.Type, t.Expression))
 		}
 	}
 
 	return ""
 }
 
+func processDeclaration(constant bool, names []string, declared ctypes.Type, expression ast.Expression) []string {
+	var s []string
+	if constant {
+		s = append(s, "const")
+	}
+
+	for _, name := range names {
+		s = append(s, ast.RetrieveID(name))
+	}
+
+	// The type is only there if the program states it
+	if declared != ctypes.TODO() {
+		s = append(s, ConnectString("types.Declared", []string{declared.String()}))
+	}
+
+	return append(s, processExpression(expression))
+}
+
 func functionTypeToString(c *ctypes.Function) (string, string) {
 	var types []string
 	for i, ty := range c.Parameters {
@@ -324,7 +351,12 @@ func processExpression(expression ast.Expression) string {
 
 	case *ast.StructLiteral:
 		{
-			fields := []string{ast.RetrieveID(t.Name)}
+			name := ast.RetrieveID(t.Name)
+			if t.Module != "" {
+				name = ast.RetrieveID(t.Module) + "." + name
+			}
+
+			fields := []string{name}
 			for _, field := range t.Values {
 				fields = append(fields, ConnectString("ast.Field", []string{ast.RetrieveID(field.Name), processExpression(field.Expression)}))
 			}
@@ -332,6 +364,11 @@ func processExpression(expression ast.Expression) string {
 			return ConnectString("ast.StructLiteral", fields)
 		}
 
+	case *ast.ExpressionBlock:
+		{
+			return ConnectString("ast.ExpressionBlock", []string{t.Type.String(), Process(t.Block)})
+		}
+
 	case *ast.CommaExpressions:
 		{
 			var expressions []string
-- 
2.43.0


From 0dd0127c18e191c8da7a7717172c12575c26fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 65/76] fix: functions can use imports and external functions
 that are declared after them

---
 internals/compiler/compiler.go       |  1 +
 internals/compiler/compiler_steps.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 966d449..6f91247 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -437,6 +437,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.Program:
 		{
+			c.compileImportsAndExterns(t.Statements)
 			for _, statement := range t.Statements {
 				c.Compile(statement)
 			}
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 14b5283..9705e78 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -34,3 +34,17 @@ func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// compileImportsAndExterns compiles what comes from other files, functions can use it before
+// the statement that declares it
+func (c *Compiler) compileImportsAndExterns(statements []ast.Statement) {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.ImportStatement, *ast.ExternStatement:
+			c.Compile(t)
+
+		case *ast.MacroBlock:
+			c.compileImportsAndExterns(t.Statements)
+		}
+	}
+}
-- 
2.43.0


From 4d10c0771393a75ef3db66647c5df252122d73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 66/76] fix: a public main, and a public function that another
 module declares as external, are defined once

---
 internals/compiler/compiler.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6f91247..a2515ed 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -590,8 +590,14 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	// Declare llvmFunction
 	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
 
-	if functionType.RedefineWithOriginalName {
-		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
+	if isRedefined(functionType) {
+		// Another module may have declared it as external already
+		llvmFunctionExtern, isDeclared := c.globalBuiltinDefinitions[functionType.ExternalName].(*ir.Func)
+		if isDeclared && llvmFunctionExtern.Sig.Equal(llvmFunction.Sig) {
+			llvmFunctionExtern.Params = params
+		} else {
+			llvmFunctionExtern = c.m.NewFunc(functionType.ExternalName, toReturnType, params...)
+		}
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
 		c.globalVariables[functionType.ExternalName] = &Value{
 			Value: llvmFunctionExtern,
@@ -652,7 +658,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		}
 	}
 
-	if funk.GetFunctionType().RedefineWithOriginalName {
+	if isRedefined(funk.GetFunctionType()) {
 		c.compileFunctionRedeclaration(c.currentFunction.Blocks, funk)
 	}
 
@@ -663,6 +669,11 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = prevBreak, prevContinue
 }
 
+// isRedefined returns if the function also has to be defined with the name that the programmer wrote
+func isRedefined(function *ctypes.Function) bool {
+	return function.RedefineWithOriginalName && function.ExternalName != function.Name
+}
+
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
 	llvmFunction := c.retrieveVariable(funk.GetFunctionType().ExternalName).(*ir.Func)
 	llvmFunction.Blocks = otherFunctionBlocks
-- 
2.43.0


From 49d2542e7636fbaf1f27a634dd67c55feaa2c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 67/76] fix: a global variable that is declared again has its
 own memory

---
 internals/compiler/compiler.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a2515ed..eb49963 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -824,6 +824,8 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 
 		if _, isConstant := valueCompiled.(constant.Constant); isConstant {
 			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant}
+			// From here on the name doesn't refer to the memory of a variable that was declared before
+			delete(c.globalVariables, decl.Name+".global")
 		} else {
 			c.exitErrorExpression("Candice does not support non-constant global expressions and operations yet.", decl.Expression)
 		}
@@ -1102,9 +1104,9 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			// If it is an array we must allocate it as a global and then cast it as a pointer
 			// and allocate it again so we can use it normally, we cache that result into globalVariables + .global
 			if types.IsArray(global.Type()) {
-				array := c.m.NewGlobalDef(name+".global_alloca", global)
+				array := c.m.NewGlobalDef(name+".global_alloca."+random.RandomString(10), global)
 				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				globalDefinition := c.m.NewGlobalDef(name+".global", pointer)
+				globalDefinition := c.m.NewGlobalDef(name+".global."+random.RandomString(10), pointer)
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
 				return globalDefinition
 			}
@@ -1113,7 +1115,7 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 				return global
 			}
 
-			globalDefPointer := c.m.NewGlobalDef(name+".global", global)
+			globalDefPointer := c.m.NewGlobalDef(name+".global."+random.RandomString(10), global)
 			globalDefPointer.Immutable = false
 			c.globalVariables[name+".global"] = &Value{Value: globalDefPointer, Type: fn.Type}
 
-- 
2.43.0


From 15b7aa531c56a0156477e0d9085d35abde7db885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 68/76] fix: reject functions, types and modules that are
 declared twice

---
 internals/semantic/semantic.go       |  5 ++
 internals/semantic/semantic_steps.go | 68 ++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b7cf8dd..42b02d9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -157,6 +157,11 @@ func (s *Semantic) GetModule(name string) *Semantic {
 func (s *Semantic) Analyze(program *ast.Program) {
 	s.Root = program
 
+	s.expectUniqueNames(program.Statements, declaredNames{map[string]bool{}, map[string]bool{}, map[string]bool{}})
+	if len(s.Errors) > 0 {
+		return
+	}
+
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
 	if s.findRecursiveTypes(program.Statements) {
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 9d803f7..ed4eebf 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -3,8 +3,76 @@ package semantic
 import (
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/token"
 )
 
+// declaredNames are the names that a module has declared so far
+type declaredNames struct {
+	values  map[string]bool
+	types   map[string]bool
+	modules map[string]bool
+}
+
+// expectUniqueNames reports what is declared twice on the top level. Only external functions can be declared again
+func (s *Semantic) expectUniqueNames(statements []ast.Statement, declared declaredNames) {
+	externs := map[string]bool{}
+	expectUnique := func(names map[string]bool, name string, tok token.Token) {
+		if names[name] {
+			s.errorWithStatement("'"+ast.RetrieveID(name)+"' is already declared in this module", tok)
+		}
+
+		names[name] = true
+	}
+
+	for _, statement := range statements {
+		s.currentStatementBeingAnalyzed = statement
+		switch t := statement.(type) {
+		case *ast.FunctionDeclarationStatement:
+			{
+				expectUnique(declared.values, t.FunctionType.Name, t.Token)
+			}
+
+		case *ast.ExternStatement:
+			{
+				if function, ok := t.Type.(*ctypes.Function); ok && !externs[function.Name] {
+					expectUnique(declared.values, function.Name, t.Token)
+					externs[function.Name] = true
+				}
+			}
+
+		case *ast.StructStatement:
+			{
+				expectUnique(declared.types, t.Type.Name, t.Token)
+			}
+
+		case *ast.UnionStatement:
+			{
+				expectUnique(declared.types, t.Type.Name, t.Token)
+			}
+
+		case *ast.TypeDefinition:
+			{
+				expectUnique(declared.types, t.Name, t.Token)
+			}
+
+		case *ast.GenericTypeDefinition:
+			{
+				expectUnique(declared.types, t.Name, t.Token)
+			}
+
+		case *ast.ImportStatement:
+			{
+				expectUnique(declared.modules, t.Name, t.Token)
+			}
+
+		case *ast.MacroBlock:
+			{
+				s.expectUniqueNames(t.Statements, declared)
+			}
+		}
+	}
+}
+
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
-- 
2.43.0


From 9c1b657d8d3124579904b2cb1acba3641ac30730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 69/76] fix: reject imported files that declare main

---
 internals/semantic/semantic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 42b02d9..33e4ad3 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1511,6 +1511,15 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		return
 	}
 
+	// There is only one entry, and it's the one of the program that imports
+	for _, statement := range tree.Statements {
+		if function, ok := statement.(*ast.FunctionDeclarationStatement); ok && function.FunctionType.IsMainFunction() {
+			delete(paths, endHash)
+			s.errorWithStatement("the file imported on path "+importStatement.Path.String()+" can't declare the main function", importStatement.Token)
+			return
+		}
+	}
+
 	paths[endHash] = internalSemantic
 	// We need this for methods that are referenced as
 	// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
-- 
2.43.0


From 966f5829df276fe5a12ec8eabbf5b8f96e70cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 70/76] fix: flags for the compiler that are named constants
 crashed, sums of constant strings gave invalid code

---
 internals/compiler/compiler.go          |  2 +-
 internals/compiler/compiler_constant.go | 20 ++++++++++++++++++++
 internals/semantic/semantic.go          |  2 ++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index eb49963..8c60853 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -160,7 +160,7 @@ func (c *Compiler) initializeBuiltinLib() {
 
 	c.builtins["add_compiler_flag"] = func(c *Compiler, addCompilerFlag *ast.BuiltinCall) value.Value {
 		for _, param := range addCompilerFlag.Parameters {
-			str := c.compileConstantExpression(param).(*constant.CharArray)
+			str := c.constantString(param)
 			c.eventHandler(Event{
 				Kind: AddFlags,
 				Data: string(str.X[:len(str.X)-1]),
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 72f257a..fc66053 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -5,6 +5,7 @@ import (
 	"github.com/gabivlj/candice/internals/ctypes"
 
 	"github.com/gabivlj/candice/internals/ops"
+	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/types"
 )
@@ -105,6 +106,25 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	panic(nil)
 }
 
+// constantString returns the characters of a constant string, which is either written in place
+// or the value of a constant that is declared elsewhere.
+func (c *Compiler) constantString(expr ast.Expression) *constant.CharArray {
+	value := c.compileConstantExpression(expr)
+	for {
+		switch current := value.(type) {
+		case *constant.CharArray:
+			return current
+		case *constant.ExprBitCast:
+			value = current.From
+		case *ir.Global:
+			value = current.Init
+		default:
+			c.exitErrorExpression("can't handle this constant string", expr)
+			return nil
+		}
+	}
+}
+
 func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
 	switch op {
 	case ops.Add:
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 33e4ad3..abc5427 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1571,6 +1571,7 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	right := s.UnwrapAnonymous(s.analyzeReadExpression(binaryOperation.Right))
 
 	if ctypes.IsPointer(left) && ctypes.IsInteger(right) && (binaryOperation.Operation == ops.Add || binaryOperation.Operation == ops.Subtract) {
+		s.throwInvalidOperationForConstant("you can't do pointer arithmetic on constants", binaryOperation)
 		binaryOperation.Type = left
 		return left
 	}
@@ -1598,6 +1599,7 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	}
 
 	if ctypes.IsPointer(left) && left.(*ctypes.Pointer).Inner == ctypes.I8 && binaryOperation.Operation == ops.Add {
+		s.throwInvalidOperationForConstant("you can't add strings on constants", binaryOperation)
 		s.checkWarningForMultipleStringAdding(binaryOperation)
 		binaryOperation.Type = left
 		return left
-- 
2.43.0


From 53f2046c370c62c82c3410eb5f4f78da6e098acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 71/76] fix: a pointer that inline assembly yields was
 dereferenced

---
 internals/compiler/compiler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 8c60853..27f602c 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -181,7 +181,10 @@ func (c *Compiler) initializeBuiltinLib() {
 		for _, parameter := range bc.Parameters[1:] {
 			expressions = append(expressions, c.loadIfPointer(c.compileExpression(parameter)))
 		}
-		return c.asm(c.ToLLVMType(bc.TypeParameters[0]), bc.Parameters[0].(*ast.StringLiteral).Value, expressions...)
+		result := c.asm(c.ToLLVMType(bc.TypeParameters[0]), bc.Parameters[0].(*ast.StringLiteral).Value, expressions...)
+		// If the result is a pointer it's a value already, not the memory of a variable
+		c.doNotLoadIntoMemory = types.IsPointer(result.Type())
+		return result
 	}
 
 	c.builtins["realloc"] = func(c *Compiler, call *ast.BuiltinCall) value.Value {
-- 
2.43.0


From 0ccc4d3689e2127a38dbdb6b70e399ac00b487d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 72/76] fix: pointers to void gave invalid code, void values
 and unknown output types of assembly were accepted

---
 internals/compiler/compiler_types.go   |  5 +++++
 internals/semantic/semantic.go         | 21 +++++++++++++++++++--
 internals/semantic/semantic_builtin.go | 11 +++++++++--
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 8113a70..9215101 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -105,6 +105,11 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 		}
 	case *ctypes.Pointer:
 		{
+			// LLVM doesn't have pointers to void
+			if el.Inner == ctypes.VoidType {
+				return types.I8Ptr
+			}
+
 			return types.NewPointer(c.ToLLVMType(el.Inner))
 		}
 
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index abc5427..dde074a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -447,6 +447,7 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 	for i, param := range fun.Parameters {
 		// try to replace the anonymous type with its true type
 		fun.Parameters[i] = s.replaceAnonymous(s.UnwrapAnonymous(param))
+		s.checkHasValues(fun.Parameters[i], s.currentStatementBeingAnalyzed.GetToken())
 		s.variables.Add(fun.Names[i], s.newType(fun.Parameters[i]))
 	}
 
@@ -568,10 +569,12 @@ func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement)
 	s.returns = true
 }
 
-// resolveFunctionFields finds the types that the functions in the fields of a struct or union use
+// resolveFunctionFields finds the types that the functions in the fields of a struct or union use, and checks that
+// there are no arrays of void
 func (s *Semantic) resolveFunctionFields(fields []ctypes.Type) {
 	for _, field := range fields {
-		if _, isFunction := s.unwrap(field).(*ctypes.Function); isFunction {
+		inner := s.unwrap(field)
+		if _, isFunction := inner.(*ctypes.Function); isFunction || inner == ctypes.VoidType {
 			s.replaceAnonymous(field)
 		}
 	}
@@ -581,6 +584,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 	s.definedTypes[statementType.Type.Name] = statementType.Type
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
+		s.checkHasValues(t, statementType.Token)
 		// Get underlying type
 		unwrappedType := s.unwrap(t)
 		if anonymous, ok := unwrappedType.(*ctypes.Anonymous); ok {
@@ -608,6 +612,7 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 	s.definedTypes[statementType.Type.Name] = statementType.Type
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
+		s.checkHasValues(t, statementType.Token)
 		// Get underlying type
 		unwrappedType := s.unwrap(t)
 		if anonymous, ok := unwrappedType.(*ctypes.Anonymous); ok {
@@ -754,6 +759,7 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 
 	if arr, ok := t.(*ctypes.Array); ok {
 		val := s.swapTypes(arr.Inner, toSwap)
+		s.checkHasValues(val, s.currentStatementBeingAnalyzed.GetToken())
 		arr.Inner = val
 		return arr
 	}
@@ -761,6 +767,7 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 	if fn, ok := t.(*ctypes.Function); ok && toSwap == ctypes.TODO() {
 		for i, parameter := range fn.Parameters {
 			fn.Parameters[i] = s.swapTypes(parameter, toSwap)
+			s.checkHasValues(fn.Parameters[i], s.currentStatementBeingAnalyzed.GetToken())
 		}
 		if fn.Return != nil {
 			fn.Return = s.swapTypes(fn.Return, toSwap)
@@ -783,6 +790,13 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 	return toSwap
 }
 
+// checkHasValues reports the use of void as the type of something that has a value. Note that pointers to void are fine.
+func (s *Semantic) checkHasValues(t ctypes.Type, tok token.Token) {
+	if t == ctypes.VoidType {
+		s.errorWithStatement("there are no values of type void", tok)
+	}
+}
+
 func (s *Semantic) existsTypeInUnion(union *ctypes.Union, other ctypes.Type) bool {
 	for _, field := range union.Fields {
 		if s.areTypesEqual(field, other) {
@@ -939,6 +953,7 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 	}
 
 	if ptr, ok := leftType.(*ctypes.Pointer); ok {
+		s.checkHasValues(ptr.Inner, indexAccess.Token)
 		indexAccess.Type = ptr.Inner
 		return ptr.Inner
 	}
@@ -1212,6 +1227,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 		if s.isInsideConstant(prefixOperation.Right) {
 			s.errorWithExpression("you can't reference a constant, it could be mutated", prefixOperation.Right)
 		}
+		s.checkHasValues(t, prefixOperation.Token)
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
 	}
@@ -1223,6 +1239,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			return t
 		} else {
 			prefixOperation.Type = s.UnwrapAnonymous(ptr.Inner)
+			s.checkHasValues(prefixOperation.Type, prefixOperation.Token)
 			return prefixOperation.Type
 		}
 	}
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 166eefd..fb923ef 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -48,6 +48,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
 	t := s.replaceAnonymous(allocCall.TypeParameters[0])
 	allocCall.TypeParameters[0] = t
+	s.checkHasValues(t, allocCall.Token)
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
@@ -131,8 +132,14 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 	}
 
 	for _, parameter := range asmCall.Parameters[1:] {
-		s.analyzeExpression(parameter)
+		s.checkHasValues(s.analyzeExpression(parameter), asmCall.Token)
 	}
 
-	return s.UnwrapAnonymous(asmCall.TypeParameters[0])
+	outputType := s.replaceAnonymous(asmCall.TypeParameters[0])
+	asmCall.TypeParameters[0] = outputType
+	if outputType != ctypes.VoidType && !ctypes.IsNumeric(outputType) && !ctypes.IsPointer(outputType) && !ctypes.IsFunction(outputType) {
+		s.errorWithStatement("the output of assembly has to fit in a register, but it's a "+outputType.String(), asmCall.Token)
+	}
+
+	return outputType
 }
-- 
2.43.0


From 877b51213c54f811dd52cf74985875ea7ff40417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 73/76] fix: parameters, fields and cases of a switch that
 appear twice were accepted

---
 internals/compiler/compiler.go       |  6 ++++++
 internals/semantic/semantic.go       |  9 +++++++++
 internals/semantic/semantic_steps.go | 12 ++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 27f602c..b37ee4c 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1760,9 +1760,15 @@ func (c *Compiler) compileSwitchStatement(switchStatement *ast.SwitchStatement)
 	var cases []*ir.Case
 
 	casesId := random.RandomString(10)
+	casesCompiled := map[string]bool{}
 	for i, caseStatement := range switchStatement.Cases {
 		possibleNonConstantExpression := c.compileConstantExpression(caseStatement.Case)
 		if constant, isConstant := possibleNonConstantExpression.(constant.Constant); isConstant {
+			if casesCompiled[constant.Ident()] {
+				c.exitErrorExpression("another case of this switch has the same value", caseStatement.Case)
+			}
+
+			casesCompiled[constant.Ident()] = true
 			caseBlock := c.currentFunction.NewBlock(fmt.Sprintf("case-%d-%s", i, casesId))
 			irCase := ir.NewCase(constant, caseBlock)
 			cases = append(cases, irCase)
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index dde074a..e80035d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -472,6 +472,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.expectNonConstantExpression = false
 	s.enterFrame()
 
+	s.expectUniqueMembers(fun.Names, "parameter", functionToken)
 	s.replaceAnonymousFunctionParameterTypes(fun)
 	temporaryReturns := s.returns
 	temporaryExpectedReturnType := s.currentExpectedReturnType
@@ -582,6 +583,7 @@ func (s *Semantic) resolveFunctionFields(fields []ctypes.Type) {
 
 func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.expectUniqueMembers(statementType.Type.Names, "field", statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		s.checkHasValues(t, statementType.Token)
@@ -610,6 +612,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 	// nit: literally the same function as analzyzeStructStatement, rewrite it to a single one.
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.expectUniqueMembers(statementType.Type.Names, "field", statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		s.checkHasValues(t, statementType.Token)
@@ -1028,7 +1031,13 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		paramMap[name] = i
 	}
 
+	given := map[string]bool{}
 	for _, value := range structLiteral.Values {
+		if given[value.Name] {
+			s.errorWithStatement("attribute "+value.Name+" appears twice on struct literal", structLiteral.Token)
+		}
+
+		given[value.Name] = true
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index ed4eebf..00511c5 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -73,6 +73,18 @@ func (s *Semantic) expectUniqueNames(statements []ast.Statement, declared declar
 	}
 }
 
+// expectUniqueMembers reports the parameters of a function or the fields of a type that have the same name as another one
+func (s *Semantic) expectUniqueMembers(names []string, kind string, tok token.Token) {
+	seen := map[string]bool{}
+	for _, name := range names {
+		if seen[name] {
+			s.errorWithStatement(kind+" '"+ast.RetrieveID(name)+"' is already declared", tok)
+		}
+
+		seen[name] = true
+	}
+}
+
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
-- 
2.43.0


From 740255b16794838d1113082535f3fdb1aa839a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 74/76] fix: variables and temporaries in a loop took more of
 the stack on every turn

---
 internals/compiler/compiler.go | 38 ++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index b37ee4c..3c18d54 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -143,6 +143,12 @@ func (c *Compiler) block() *ir.Block {
 	return c.blocks[len(c.blocks)-1]
 }
 
+// allocate reserves space in the stack for a value. It does so in the first block of the function, so code inside
+// of a loop reuses the same space on every turn instead of taking more of the stack
+func (c *Compiler) allocate(t types.Type) *ir.InstAlloca {
+	return c.currentFunction.Blocks[0].NewAlloca(t)
+}
+
 func (c *Compiler) popBlock() *ir.Block {
 	if len(c.blocks) == 0 {
 		return nil
@@ -197,7 +203,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementType.SizeOf()))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
-		alloca := c.block().NewAlloca(castedValue.Type())
+		alloca := c.allocate(castedValue.Type())
 		c.block().NewStore(castedValue, alloca)
 		return alloca
 	}
@@ -241,7 +247,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
-		alloca := c.block().NewAlloca(castedValue.Type())
+		alloca := c.allocate(castedValue.Type())
 		c.block().NewStore(castedValue, alloca)
 		return alloca
 	}
@@ -837,7 +843,7 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 
 	var val value.Value
 	if !c.doNotAllocate {
-		val = c.block().NewAlloca(t)
+		val = c.allocate(t)
 		valueCompiled = c.loadIfPointer(valueCompiled)
 		c.block().NewStore(valueCompiled, c.bitcastIfUnion(decl.Type, val, types.NewPointer(valueCompiled.Type())))
 	} else {
@@ -979,7 +985,7 @@ func (c *Compiler) compileStringLiteral(stringLiteral *ast.StringLiteral) value.
 
 func (c *Compiler) compileArrayLiteral(arrayLiteral *ast.ArrayLiteral) value.Value {
 	arrayType := c.ToLLVMType(arrayLiteral.Type).(*types.ArrayType)
-	allocaInstance := c.block().NewAlloca(arrayType)
+	allocaInstance := c.allocate(arrayType)
 	for index, value := range arrayLiteral.Values {
 		loadedValue := c.loadIfPointer(c.compileExpression(value))
 		integerIndex := constant.NewInt(types.I32, int64(index))
@@ -1027,14 +1033,14 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 		// * Or is just a literal, like: variable := &3 (i32 instead of *i32)
 		//
 		if !types.IsPointer(prefixValue.Type()) || c.doNotLoadIntoMemory {
-			prefixValueTmp := c.block().NewAlloca(prefixValue.Type())
+			prefixValueTmp := c.allocate(prefixValue.Type())
 			c.block().NewStore(prefixValue, prefixValueTmp)
 			prefixValue = prefixValueTmp
 		}
 
 		c.doNotLoadIntoMemory = false
 		c.doNotAllocate = false
-		allocatedValue := c.block().NewAlloca(prefixValue.Type())
+		allocatedValue := c.allocate(prefixValue.Type())
 		c.block().NewStore(prefixValue, allocatedValue)
 		return allocatedValue
 	}
@@ -1166,7 +1172,7 @@ func (c *Compiler) allocateIfNotPointer(v value.Value) value.Value {
 		return v
 	}
 
-	alloca := c.block().NewAlloca(t)
+	alloca := c.allocate(t)
 	c.block().NewStore(v, alloca)
 	return alloca
 }
@@ -1287,7 +1293,7 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
-	alloca := c.block().NewAlloca(t)
+	alloca := c.allocate(t)
 	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
 	leave := c.currentFunction.NewBlock("leave-block-expression-" + random.RandomString(5))
 	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = alloca, leave
@@ -1317,7 +1323,7 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 	}
 
 	// Allocate in stack memory
-	struktValue := c.block().NewAlloca(possibleStruct.llvmType)
+	struktValue := c.allocate(possibleStruct.llvmType)
 
 	for _, decl := range strukt.Values {
 		// Get field position
@@ -1417,7 +1423,7 @@ func (c *Compiler) compileBinaryExpression(expr *ast.BinaryOperation) value.Valu
 
 func (c *Compiler) compileOr(and *ast.BinaryOperation) value.Value {
 	returnValue := constant.NewBool(false)
-	allocatedValue := c.block().NewAlloca(types.I1)
+	allocatedValue := c.allocate(types.I1)
 	c.block().NewStore(returnValue, allocatedValue)
 	orBlock := c.currentFunction.NewBlock("or." + random.RandomString(10))
 	truthBlock := c.currentFunction.NewBlock("truth_or." + random.RandomString(10))
@@ -1440,7 +1446,7 @@ func (c *Compiler) compileOr(and *ast.BinaryOperation) value.Value {
 
 func (c *Compiler) compileAnd(and *ast.BinaryOperation) value.Value {
 	returnValue := constant.NewBool(false)
-	allocatedValue := c.block().NewAlloca(types.I1)
+	allocatedValue := c.allocate(types.I1)
 	c.block().NewStore(returnValue, allocatedValue)
 	andBlock := c.currentFunction.NewBlock("and." + random.RandomString(10))
 	truthBlock := c.currentFunction.NewBlock("truth_and." + random.RandomString(10))
@@ -1496,7 +1502,7 @@ func (c *Compiler) compileStructAccess(expr *ast.BinaryOperation) value.Value {
 	leftStruct := leftStructPossibleNonPtr
 
 	if !types.IsPointer(leftStructPossibleNonPtr.Type()) {
-		leftStruct = c.block().NewAlloca(leftStructPossibleNonPtr.Type())
+		leftStruct = c.allocate(leftStructPossibleNonPtr.Type())
 		c.block().NewStore(leftStructPossibleNonPtr, leftStruct)
 	}
 
@@ -1563,7 +1569,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 	if types.IsPointer(leftValue.Type()) {
 		newPointer := c.calculatePointerOffset(leftValue, c.widenOffset(rightValue, expr.Right.GetType()))
 		// return this pointer on another stack register because it's going to get used
-		toReturnPointer := c.block().NewAlloca(newPointer.Type())
+		toReturnPointer := c.allocate(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
 		return toReturnPointer
 	}
@@ -1608,7 +1614,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-		toReturnPointer := c.block().NewAlloca(newPointer.Type())
+		toReturnPointer := c.allocate(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
 		return toReturnPointer
 	}
@@ -1817,7 +1823,7 @@ func (c *Compiler) compileCommaExpression(commaExpression *ast.CommaExpressions)
 		ptr = types.NewPointer(c.ToLLVMType(commaExpression.Type))
 	}
 
-	strukt := c.block().NewAlloca(ptr.ElemType)
+	strukt := c.allocate(ptr.ElemType)
 	for i := range commaExpression.Expressions {
 		address := c.block().NewGetElementPtr(strukt.ElemType, strukt, zero, constant.NewInt(types.I32, int64(i)))
 		c.block().NewStore(values[i], address)
@@ -1831,7 +1837,7 @@ func (c *Compiler) compileMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 	c.doNotLoadIntoMemory = false
 	c.doNotAllocate = false
 	if !types.IsPointer(strukt.Type()) {
-		struktPtr := c.block().NewAlloca(strukt.Type())
+		struktPtr := c.allocate(strukt.Type())
 		c.block().NewStore(strukt, struktPtr)
 		strukt = struktPtr
 	}
-- 
2.43.0


From cd4ceadec8dcf8976ecd09dd139121b29f5752bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:26 +0000
Subject: [PATCH 75/76] fix: variadic functions could be called without their
 fixed arguments

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e80035d..575d2fa 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1101,7 +1101,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		}
 	}
 
-	if len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
+	if len(call.Parameters) < len(funcType.Parameters) || (len(call.Parameters) > len(funcType.Parameters) && !funcType.InfiniteParameters) {
 
 		s.errorWithStatement(fmt.Sprintf("mismatch number of parameters, expected %d, got %d", len(funcType.Parameters), len(call.Parameters)), call.Token)
 	}
-- 
2.43.0


From 44126e52b9967e13559a5ba8174d711d3b4acad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 76/76] fix: an imported file could declare the main function
 in a #if

---
 internals/semantic/semantic.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 575d2fa..3e4a244 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1463,6 +1463,25 @@ func typeKey(t ctypes.Type) string {
 	return t.String()
 }
 
+// declaresMain returns if the main function is one of the statements, or of the ones kept by a #if
+func declaresMain(statements []ast.Statement) bool {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.FunctionDeclarationStatement:
+			if t.FunctionType.IsMainFunction() {
+				return true
+			}
+
+		case *ast.MacroBlock:
+			if declaresMain(t.Statements) {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // analyzeImport works in a really tricky way
 //   - First off we start by gathering all types that the file is gonna need as parameters
 //   - Then we should parse and analyze the file that is being imported if it hasn't been yet
@@ -1538,12 +1557,10 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	}
 
 	// There is only one entry, and it's the one of the program that imports
-	for _, statement := range tree.Statements {
-		if function, ok := statement.(*ast.FunctionDeclarationStatement); ok && function.FunctionType.IsMainFunction() {
-			delete(paths, endHash)
-			s.errorWithStatement("the file imported on path "+importStatement.Path.String()+" can't declare the main function", importStatement.Token)
-			return
-		}
+	if declaresMain(tree.Statements) {
+		delete(paths, endHash)
+		s.errorWithStatement("the file imported on path "+importStatement.Path.String()+" can't declare the main function", importStatement.Token)
+		return
 	}
 
 	paths[endHash] = internalSemantic
-- 
2.43.0

