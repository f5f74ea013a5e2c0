From 72fb567de093c8460af7484bb3c51b1b5af9611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 01/90] fix: write null for a field whose arguments could not
 be bound, the response was invalid JSON

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 00e1747..c88def6 100644
--- a/resolver.go
+++ b/resolver.go
@@ -801,6 +801,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From a41f8aac8bbd4c49454dea396d015dfb0b4642d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 02/90] fix: write null for a __typename with a selection set,
 the response was invalid JSON

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index c88def6..16ca382 100644
--- a/resolver.go
+++ b/resolver.go
@@ -572,6 +572,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
-- 
2.43.0


From 9a622ee35d678e6bf4e79100890daa8ab74bbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 03/90] fix: match fragment names completely instead of by
 their prefix

---
 resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 16ca382..4705021 100644
--- a/resolver.go
+++ b/resolver.go
@@ -475,7 +475,8 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		// The name must be followed by its NULL byte, without this check Foo also matches a fragment named FooBar
+		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From c471575fdf16fca7e703c2dc1fd67daa603f8137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 04/90] fix: report fragments that spread themselves instead of
 overflowing the stack

---
 resolver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver.go b/resolver.go
index 4705021..273726b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -31,6 +31,7 @@ type Ctx struct {
 	tracingEnabled           bool
 	tracing                  *tracer
 	prefRecordingStartTime   time.Time
+	activeFragmentSpreads    int // the number of named fragment spreads that are currently being resolved
 
 	rawVariables        string
 	variablesParsed     bool             // the rawVariables are parsed into variables
@@ -495,7 +496,14 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				return false
 			}
 
+			// If there are more nested spreads than there are fragments, at least one fragment spreads itself
+			if ctx.activeFragmentSpreads == len(ctx.query.FragmentLocations) {
+				return ctx.err("fragment " + b2s(name) + " cannot spread itself")
+			}
+
+			ctx.activeFragmentSpreads++
 			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+			ctx.activeFragmentSpreads--
 			ctx.charNr = originalCharNr
 			return criticalErr
 		}
-- 
2.43.0


From 9e766f23becbedc7c1d70fa43bbdcf45925f26e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 05/90] fix: read values by their encoded length so a NULL byte
 in a string doesn't end the value

---
 resolver.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resolver.go b/resolver.go
index 273726b..b5167cd 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1424,12 +1424,11 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	}
 
 	getValue := func() (start int, end int) {
+		// The value itself might contain NULL bytes so the encoded length of the value is used to find its end
 		start = ctx.charNr
-		for {
-			if ctx.readInst() == 0 {
-				return start, ctx.charNr - 1
-			}
-		}
+		end = start + int(ctx.readUint32(start-4))
+		ctx.charNr = end + 1
+		return start, end
 	}
 
 	ctx.skipInst(1)             // read ActionValue
-- 
2.43.0


From d14a730a67c714cf98dc8733c8cd707ea91291ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 06/90] fix: read over the end of list values, everything
 behind a list value was lost

---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index b5167cd..5b5e1d8 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1603,6 +1603,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read 'e' and the next NULL
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From b06da01d0371736e03724c318f40b2ee40a2ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 07/90] fix: read over the NULL byte behind a null value for a
 pointer

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 5b5e1d8..08592d7 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1414,7 +1414,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			ctx.skipInst(7)
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
-- 
2.43.0


From 617cee88657d1c189c3f96c13575596170ab7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 08/90] fix: allow variables for lists with optional items

---
 resolver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver.go b/resolver.go
index 08592d7..2b9f5eb 100644
--- a/resolver.go
+++ b/resolver.go
@@ -965,6 +965,13 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 	// TODO the error messages in this function are garbage
 
 	resolvedValueStructure := valueStructure
+	resolvePtrs := func() {
+		for resolvedValueStructure.kind == reflect.Ptr && !resolvedValueStructure.isFile {
+			resolvedValueStructure = resolvedValueStructure.elem
+		}
+	}
+	resolvePtrs()
+
 	c := ctx.readInst()
 	for {
 		if c != 'L' && c != 'l' {
@@ -974,6 +981,7 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 			return false, ctx.err("variable $" + argumentName + " cannot be bind to " + resolvedValueStructure.kind.String())
 		}
 		resolvedValueStructure = resolvedValueStructure.elem
+		resolvePtrs()
 		c = ctx.readInst()
 	}
 	if c == 'n' || c == 'N' {
-- 
2.43.0


From fb509de760e2d5cee05634448af0a57a0494b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 09/90] fix: accept null as variable value for optional ID,
 enum, file and time inputs

---
 resolver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resolver.go b/resolver.go
index 2b9f5eb..66fa77e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1098,6 +1098,11 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	jsonDataType := jsonData.Type()
+	if jsonDataType == fastjson.TypeNull {
+		// keep goValue at it's default
+		return false, false
+	}
+
 	if valueStructure.isEnum || valueStructure.isID || valueStructure.isFile || valueStructure.isTime {
 		if jsonDataType != fastjson.TypeString {
 			if valueStructure.isEnum {
-- 
2.43.0


From ff28db5f58824994dd1ac908bb4213d27588b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 10/90] fix: reject variable values that don't fit in a small
 unsigned integer

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 66fa77e..b787251 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1292,15 +1292,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				uintVal := uint64(intVal)
 
 				switch goValue.Kind() {
-				case reflect.Int8:
+				case reflect.Uint8:
 					if uint64(uint8(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
 					}
-				case reflect.Int16:
+				case reflect.Uint16:
 					if uint64(uint16(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
 					}
-				case reflect.Int32:
+				case reflect.Uint32:
 					if uint64(uint32(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
 					}
-- 
2.43.0


From ca8cd9f2a655eba3997f909dc65748c6834d1c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 11/90] fix: reject ID values that don't fit in the number type
 of the ID

---
 resolver.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/resolver.go b/resolver.go
index b787251..5c0a7bd 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1156,7 +1156,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				// TODO check if the int value can be assigned to int8 - int32
+				if goValue.OverflowInt(int64(intValue)) {
+					return false, ctx.err("id argument doesn't fit in the number type")
+				}
 				goValue.SetInt(int64(intValue))
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
@@ -1167,7 +1169,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				if intValue < 0 {
 					return false, ctx.err("id argument must match a number above 0")
 				}
-				// TODO check if the int value can be assigned to uint8 - uint32
+				if goValue.OverflowUint(uint64(intValue)) {
+					return false, ctx.err("id argument doesn't fit in the number type")
+				}
 				goValue.SetUint(uint64(intValue))
 				valueSet = true
 			default:
@@ -1364,7 +1368,9 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			// TODO check if the int value can be assigned to int8 - int32
+			if goValue.OverflowInt(int64(intValue)) {
+				return ctx.err("id argument doesn't fit in the number type")
+			}
 			goValue.SetInt(int64(intValue))
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			intValue, err := strconv.Atoi(stringValue)
@@ -1374,7 +1380,9 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 			if intValue < 0 {
 				return ctx.err("id argument must match a number above 0")
 			}
-			// TODO check if the int value can be assigned to uint8 - uint32
+			if goValue.OverflowUint(uint64(intValue)) {
+				return ctx.err("id argument doesn't fit in the number type")
+			}
 			goValue.SetUint(uint64(intValue))
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
-- 
2.43.0


From 7cb6b2502650cd60f683507af0b4a7285400a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 12/90] fix: reject float values that don't fit in the float
 type

---
 resolver.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 5c0a7bd..611a57f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
 	"mime/multipart"
 	"reflect"
 	"strconv"
@@ -1263,8 +1264,12 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	case fastjson.TypeNumber:
 		goValueKind := goValue.Kind()
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
+			floatVal := jsonData.GetFloat64()
+			if math.IsInf(floatVal, 0) || goValue.OverflowFloat(floatVal) {
+				return false, ctx.err("variable value doesn't fit in the float type")
+			}
 			valueSet = true
-			goValue.SetFloat(jsonData.GetFloat64())
+			goValue.SetFloat(floatVal)
 		} else {
 			intVal, err := jsonData.Int64()
 			if err != nil {
@@ -1555,6 +1560,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 				return false, ctx.err(err.Error())
 			}
 
+			if goValue.OverflowFloat(floatValue) {
+				return false, ctx.err("float value doesn't fit in the float type")
+			}
+
 			goValue.SetFloat(floatValue)
 		default:
 			return false, ctx.err("cannot assign float to " + goValue.String())
-- 
2.43.0


From 65e2d7e66bd4b88db85ae1d3d60b36dbb10d0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 13/90] fix: don't allow int values for enum inputs, it allowed
 values that are not in the enum

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index 611a57f..b1393fa 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1488,6 +1488,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		startInt, endInt := getValue()
 		intValue := b2s(ctx.query.Res[startInt:endInt])
 
+		if valueStructure.isEnum {
+			return false, ctx.err("cannot assign int to enum value")
+		}
+
 		switch goValue.Kind() {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			value, err := strconv.ParseInt(intValue, 10, 64)
-- 
2.43.0


From f08552811c1146eb17a7a35f0616814f0292217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 14/90] fix: don't allow object values for time inputs, it
 resulted in a zero time

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index b1393fa..bc97401 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1641,7 +1641,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-		if goValue.Kind() != reflect.Struct {
+		if goValue.Kind() != reflect.Struct || valueStructure.isTime {
 			return false, ctx.err("cannot assign object to " + goValue.String())
 		}
 
-- 
2.43.0


From f749787fb4eab9f8b7e12fbe427ee21f333bef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 15/90] fix: report file variables when form files are not
 supported instead of panicking

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index bc97401..6e85857 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1183,6 +1183,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From 7886a093ff14636086af471b297a507c871f44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 16/90] fix: keep optional input objects of which the last
 property is null

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 6e85857..5d53477 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1662,7 +1662,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-- 
2.43.0


From 5cbbd05d8db70727b537dfcce4e21c76ba7ee16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 17/90] fix: copy string inputs, strings kept by a resolver
 changed when the next query was resolved

---
 resolver.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 5d53477..3980683 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1118,7 +1118,8 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		// The bytes are reused by the json parser for the next request so the string must be copied
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1260,7 +1261,8 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		// The bytes are reused by the json parser for the next request so the string must be copied
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1577,7 +1579,8 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	case bytecode.ValueString:
 		startString, endString := getValue()
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		// The query bytecode is reused for the next request so the string must be copied
+		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From 93b0d56807df1dcc152d52fc07f2725d64bfafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 18/90] fix: panic in SetContext when the request has no
 context

---
 resolver.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 3980683..dc243eb 100644
--- a/resolver.go
+++ b/resolver.go
@@ -116,10 +116,8 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
-		ctx.context = &newContext
 	} else {
-		*ctx.context = newContext
+		ctx.context = &newContext
 	}
 }
 
-- 
2.43.0


From bd2ae6b9873b00a46af377a50659c3138bf9949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 19/90] fix: panic in SetValue when the request values are a
 nil map

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index dc243eb..6e48e76 100644
--- a/resolver.go
+++ b/resolver.go
@@ -99,6 +99,10 @@ func (ctx *Ctx) SetValue(key string, value interface{}) {
 		ctx.values = &map[string]interface{}{
 			key: value,
 		}
+	} else if *ctx.values == nil {
+		*ctx.values = map[string]interface{}{
+			key: value,
+		}
 	} else {
 		(*ctx.values)[key] = value
 	}
-- 
2.43.0


From cf70ed1a64c38b93e12011611071ca55805ad669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 20/90] fix: don't store the mutation fields as the query
 fields in the introspection

---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..55230c9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -93,7 +93,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From 0ea0790b1dc2827deadcb470ba370a6af3b8ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 21/90] fix: list the fields of referenced input types in the
 introspection

---
 inject_schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index 55230c9..e14d760 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -227,6 +227,10 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	case reflect.Struct:
 		isNonNull = true
 
+		if in.isStructPointers {
+			in = s.inTypes[in.structName]
+		}
+
 		res = &qlType{
 			Kind:        typeKindInputObject,
 			Name:        h.StrPtr(in.structName),
@@ -235,6 +239,7 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 				res := make([]qlInputValue, len(in.structContent))
 				i := 0
 				for key, item := range in.structContent {
+					item := item // the type generated from item might keep a pointer to it
 					res[i] = qlInputValue{
 						Name:         key,
 						Description:  h.PtrToEmptyStr,
-- 
2.43.0


From 82a913b2c50c1c08cf775715391a93c519ec4a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 22/90] fix: report enum inputs as enums in the introspection

---
 inject_schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index e14d760..00f0b8f 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -221,6 +221,9 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	} else if in.isFile {
 		res = &scalarFile
 		return
+	} else if in.isEnum {
+		enumType := s.definedEnums[in.enumTypeIndex].qlType
+		return &enumType, true
 	}
 
 	switch in.kind {
-- 
2.43.0


From 104a874e013b9f602ff870c9e42391dbddf3d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 23/90] fix: keep the hidden fields hidden in a copied schema

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..61192d8 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -179,6 +179,7 @@ func (o *obj) copy() *obj {
 		dataValueType:  o.dataValueType,
 		isID:           o.isID,
 		enumTypeIndex:  o.enumTypeIndex,
+		hidden:         o.hidden,
 	}
 
 	if o.innerContent != nil {
-- 
2.43.0


From 0183368d621c46e5b82ed9c1bb6f31a9495f2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 24/90] fix: copy the description of enum types

---
 copy_schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 61192d8..29668b7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -133,8 +133,8 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr("")
+		*res.Description = *m.Description
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
-- 
2.43.0


From 96b575f2e63c041a418457a9c284c7b35e176e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 25/90] fix: don't share the tracer between copies of a schema

---
 copy_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 29668b7..d876d00 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -69,7 +69,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From 6ce6fcced0855d4e351475776702c1096502e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 26/90] fix: bind __schema of a copied schema to the copy
 instead of to the original

---
 copy_schema.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index d876d00..2774c5f 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -39,9 +39,7 @@ func (s *Schema) Copy() *Schema {
 		inTypes:    *s.inTypes.copy(),
 		interfaces: *interfaces,
 
-		rootQuery:         s.rootQuery.copy(),
 		rootQueryValue:    s.rootQueryValue,
-		rootMethod:        s.rootMethod.copy(),
 		rootMethodValue:   s.rootMethodValue,
 		MaxDepth:          s.MaxDepth,
 		definedEnums:      enums,
@@ -53,6 +51,17 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
+	// The root types must be the same objects as the ones in the types map
+	res.rootQuery = res.types[s.rootQuery.typeName]
+	res.rootMethod = res.types[s.rootMethod.typeName]
+
+	// The value behind __schema has references to the schema it was created for
+	schemaField, ok := res.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if ok && schemaField.customObjValue != nil {
+		contents := reflect.ValueOf(res.getQLSchema())
+		schemaField.customObjValue = &contents
+	}
+
 	res.ctx = s.ctx.copy(res)
 
 	return res
-- 
2.43.0


From 453a3606fd20559550c787a230e857430e2d4147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 27/90] fix: copy the fragment locations into the query cache,
 the parser reuses the slice

---
 bytecode/cache/bytecode_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..dba60c0 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,8 +70,9 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: make([]int, len(fragmentLocation)),
 	}
+	copy(newCacheEntry.fragmentLocation, fragmentLocation)
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
 
-- 
2.43.0


From 8faa5eeff0ff88b094197489f7119e82af78938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 28/90] fix: check the max depth for interfaces, they could
 step over the limit

---
 resolver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 6e48e76..9232f82 100644
--- a/resolver.go
+++ b/resolver.go
@@ -903,6 +903,12 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 			return false
 		}
 
+		dept++
+		if dept == ctx.schema.MaxDepth {
+			ctx.writeNull()
+			return ctx.err("reached max dept")
+		}
+
 		if goValue.Kind() == reflect.Interface {
 			goValue = goValue.Elem()
 			ctx.setNextGoValue(goValue)
@@ -915,7 +921,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From 861142907ed9ca4fc2b8c4f2f5ca1c03e4c6fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 29/90] fix: grow the value stack, deeply nested lists of
 objects overwrote the values of their parents

---
 copy_schema.go |  2 +-
 resolver.go    | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 2774c5f..3d2d216 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -84,7 +84,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index 9232f82..7a30e56 100644
--- a/resolver.go
+++ b/resolver.go
@@ -40,8 +40,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -54,7 +54,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -73,6 +73,10 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	if ctx.currentReflectValueIdx == len(ctx.reflectValues) {
+		ctx.reflectValues = append(ctx.reflectValues, value)
+		return
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From 99d226b09def955ba2a104ef966707df4c5b83d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 30/90] fix: compare the field name after the hash lookup,
 names with the same hash resolved another field

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 7a30e56..1f90e3a 100644
--- a/resolver.go
+++ b/resolver.go
@@ -584,7 +584,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 	fieldHasSelection := ctx.seekInst() != 'e'
 
 	typeObjField, ok := typeObj.objContents[nameKey]
-	if !ok {
+	if !ok || !bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName]) {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
-- 
2.43.0


From 4695abe8043a270c73e60da67b9bace8b48ddd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 31/90] fix: convert times to UTC before formatting them with
 the UTC timezone

---
 helpers/time.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 9cb0594..6471254 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -20,5 +20,6 @@ func ParseIso8601String(val string) (time.Time, error) {
 // TimeToIso8601String converts a time.Time to a string in the ISO 8601 format
 // The value is appended to the target
 func TimeToIso8601String(target *[]byte, t time.Time) {
-	*target = t.AppendFormat(*target, timeISO8601Layout)
+	// The layout always ends with the UTC timezone (Z)
+	*target = t.UTC().AppendFormat(*target, timeISO8601Layout)
 }
-- 
2.43.0


From fc05022fb422b603f6f2e20c334002b9280ba05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 32/90] fix: order of the list and non null markers in the
 return types of traces

---
 parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index da6d644..9ec7403 100644
--- a/parse.go
+++ b/parse.go
@@ -964,8 +964,9 @@ func (s *Schema) objToQlTypeName(item *obj, target *bytes.Buffer) {
 			} else {
 				target.Write([]byte("Unknown"))
 			}
-			if len(suffix) > 0 {
-				target.Write(suffix)
+			// The suffixes are collected from the outer type to the inner type
+			for i := len(suffix) - 1; i >= 0; i-- {
+				target.WriteByte(suffix[i])
 			}
 			return
 		}
-- 
2.43.0


From f40d514e06e044940e3efb585927654debaa6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 33/90] fix: start time and duration of fields with sub fields
 in traces

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 1f90e3a..a992d87 100644
--- a/resolver.go
+++ b/resolver.go
@@ -521,6 +521,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
 	ctx.startTrace()
+	fieldStartTime := ctx.prefRecordingStartTime
 
 	directivesCount := ctx.readInst()
 
@@ -613,6 +614,8 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		if ctx.tracingEnabled {
 			name := b2s(ctx.query.Res[startOfName:endOfName])
 
+			// Might have been changed by the fields inside this field
+			ctx.prefRecordingStartTime = fieldStartTime
 			ctx.finishTrace(func(offset, duration int64) {
 				returnType := bytes.NewBuffer(nil)
 				ctx.schema.objToQlTypeName(typeObjField, returnType)
-- 
2.43.0


From 95d41cece1dd358c6b1fc3d034405a827ddb4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 34/90] fix: apply fragments on an interface to the types that
 implement the interface

---
 parse.go    | 14 ++++++++++++++
 resolver.go |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 9ec7403..d696026 100644
--- a/parse.go
+++ b/parse.go
@@ -147,6 +147,20 @@ func (o *obj) getRef() obj {
 	}
 }
 
+// matchesTypeCondition returns true if a fragment on typeName applies to this object
+// This is the case if typeName is the name of this type or the name of an interface this type implements
+func (o *obj) matchesTypeCondition(typeName []byte) bool {
+	if bytes.Equal(o.typeNameBytes, typeName) {
+		return true
+	}
+	for _, implementation := range o.implementations {
+		if bytes.Equal(implementation.typeNameBytes, typeName) {
+			return true
+		}
+	}
+	return false
+}
+
 type objMethod struct {
 	// Is this a function field inside this object or a method attached to the struct
 	// true = func (*someStruct) ResolveFooBar() string {}
diff --git a/resolver.go b/resolver.go
index a992d87..6e1eb2e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -465,7 +465,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	}
 
 	if isInline {
-		if !bytes.Equal(typeObj.typeNameBytes, name) {
+		if !typeObj.matchesTypeCondition(name) {
 			ctx.charNr = nameStart + int(lenOfDirective) + 1
 			return false
 		}
@@ -498,7 +498,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				}
 			}
 
-			if !bytes.Equal(typeObj.typeNameBytes, ctx.query.Res[typeNameStart:typeNameEnd]) {
+			if !typeObj.matchesTypeCondition(ctx.query.Res[typeNameStart:typeNameEnd]) {
 				ctx.charNr = nameStart + int(lenOfDirective) + 1
 				return false
 			}
-- 
2.43.0


From f39d5cd988dcada813dff6171404575bfd834d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 35/90] fix: support content types with parameters

---
 implement_helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implement_helpers.go b/implement_helpers.go
index f1c6718..7e59879 100644
--- a/implement_helpers.go
+++ b/implement_helpers.go
@@ -30,6 +30,9 @@ func (s *Schema) HandleRequest(
 ) ([]byte, []error) {
 	method = strings.ToUpper(method)
 
+	// Remove the content type parameters, for example: application/json; charset=utf-8
+	contentType = strings.ToLower(strings.TrimSpace(strings.SplitN(contentType, ";", 2)[0]))
+
 	errRes := func(errorMsg string) ([]byte, []error) {
 		response := []byte(`{"data":{},"errors":[{"message":`)
 		helpers.StringToJSON(errorMsg, &response)
-- 
2.43.0


From 854dc6d7bc8308f3547d80f60cc978d31ca3e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 36/90] fix: parse directives behind the arguments of a field,
 that's the order of the graphql spec

---
 bytecode/bytecode.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..6b3e476 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -596,6 +596,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 				return ctx.unexpectedEOF()
 			}
 
+			argumentsStartAt := len(ctx.Res)
 			criticalErr := ctx.parseAssignmentSet(')')
 			if criticalErr {
 				return criticalErr
@@ -605,6 +606,21 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 			if eof {
 				return ctx.unexpectedEOF()
 			}
+
+			if c == '@' && ctx.Res[directivesCountLocation] == 0 {
+				argumentsEndAt := len(ctx.Res)
+				amount, criticalErr := ctx.parseDirectives()
+				ctx.Res[directivesCountLocation] = amount
+				if criticalErr {
+					return criticalErr
+				}
+				c = ctx.currentC()
+
+				// In the bytecode the directives are in front of the arguments
+				directives := append([]byte{}, ctx.Res[argumentsEndAt:]...)
+				copy(ctx.Res[argumentsStartAt+len(directives):], ctx.Res[argumentsStartAt:argumentsEndAt])
+				copy(ctx.Res[argumentsStartAt:], directives)
+			}
 		}
 
 		if c == '{' {
-- 
2.43.0


From 66ce628a7ecad38e3fdb634dc25fa37c70a60d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 37/90] fix: allow ignored tokens between a list type and its
 non null marker

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 6b3e476..0eaa4e6 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -402,7 +402,7 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 			return ctx.err(`expected list closure ("]") but got "` + string(c) + `"`)
 		}
 		ctx.charNr++
-		c, eof = ctx.checkC(ctx.charNr)
+		c, eof = ctx.mightIgnoreNextTokens()
 		if eof {
 			return ctx.unexpectedEOF()
 		}
-- 
2.43.0


From 1eec1593c71e266030baa5e4b583b40310124b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 38/90] fix: allow ignored tokens between $ or @ and the name
 behind it

---
 bytecode/bytecode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 0eaa4e6..c92554c 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -260,6 +260,10 @@ func (ctx *ParserCtx) parseOperatorArguments() bool {
 			return ctx.err(`expected "$" but got "` + string(c) + `"`)
 		}
 		ctx.charNr++
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return ctx.unexpectedEOF()
+		}
 
 		criticalErr := ctx.parseOperatorArgument()
 		if criticalErr {
@@ -349,6 +353,10 @@ func (ctx *ParserCtx) parseDirectives() (directivesAmount uint8, criticalErr boo
 
 		directivesAmount++
 		ctx.charNr++
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return directivesAmount, ctx.unexpectedEOF()
+		}
 		ctx.instructionNewDirective()
 		hasArgsFlag := len(ctx.Res) - 1
 		nameLen, criticalErr := ctx.parseAndWriteName()
@@ -727,6 +735,10 @@ func (ctx *ParserCtx) parseInputValue() bool {
 
 	if c == '$' {
 		ctx.charNr++
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return ctx.unexpectedEOF()
+		}
 		ctx.instructionNewValueVariable()
 		startOfVariable := len(ctx.Res)
 
-- 
2.43.0


From 75714376c0034eb2d796e1fc6c9824e7010acb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 39/90] fix: stop parsing on an error inside an inline
 fragment, it was reported once for every nested fragment

---
 bytecode/bytecode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index c92554c..ce39d34 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -521,7 +521,10 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					criticalErr := ctx.parseSelectionSet()
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
-- 
2.43.0


From b85df0d9c9ef17c2b95ed12bcbac2e12f9e58896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 40/90] fix: limit the nesting of queries, a large query was
 able to overflow the stack

---
 bytecode/bytecode.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index ce39d34..31d3378 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -25,6 +25,20 @@ type ParserCtx struct {
 	Hasher               hash.Hash32
 	cache                *cache.BytecodeCache
 	CacheableQueryMinLen int // Default = 300
+	nesting              int // current nesting of selection sets, values and types
+}
+
+// maxNesting limits the nesting of selection sets, values and types
+// The parser is recursive so without a limit a large query would be able to overflow the stack
+const maxNesting = 10000
+
+// enterNesting must be called before parsing something that can be nested, the nesting should be decreased afterwards
+func (ctx *ParserCtx) enterNesting() bool {
+	ctx.nesting++
+	if ctx.nesting > maxNesting {
+		return ctx.err("query is nested too deep")
+	}
+	return false
 }
 
 // NewParserCtx returns a new instance of ParserCtx
@@ -388,6 +402,11 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 	var eof bool
 	operationLocation := len(ctx.Res)
 
+	if ctx.enterNesting() {
+		return true
+	}
+	defer func() { ctx.nesting-- }()
+
 	if c == '[' {
 		ctx.Res = append(ctx.Res, 'l')
 		ctx.charNr++
@@ -445,6 +464,10 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 }
 
 func (ctx *ParserCtx) parseSelectionSet() bool {
+	if ctx.enterNesting() {
+		return true
+	}
+	defer func() { ctx.nesting-- }()
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
@@ -731,6 +754,10 @@ func (ctx *ParserCtx) parseAssignmentSet(closure byte) bool {
 }
 
 func (ctx *ParserCtx) parseInputValue() bool {
+	if ctx.enterNesting() {
+		return true
+	}
+	defer func() { ctx.nesting-- }()
 	c, eof := ctx.mightIgnoreNextTokens()
 	if eof {
 		return ctx.unexpectedEOF()
-- 
2.43.0


From 89fed17c4b07be44e468aee09b32fe4339da766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 41/90] fix: find enums by their go type, a type with the same
 name from another package was used as enum

---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index f609252..722baeb 100644
--- a/enums.go
+++ b/enums.go
@@ -29,7 +29,7 @@ func (s *Schema) getEnum(t reflect.Type) (int, *enum) {
 	}
 
 	for i, enum := range s.definedEnums {
-		if enum.typeName == t.Name() {
+		if enum.contentType == t {
 			return i, &enum
 		}
 	}
-- 
2.43.0


From f4bc783cc43a835e199ea92581dc73ee0e14409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 42/90] fix: refuse different go structs with the same graphql
 name, one was used in place of the other

---
 copy_schema.go |  1 +
 parse.go       | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 3d2d216..7d0c852 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -272,6 +272,7 @@ func (m *input) copy() *input {
 
 	return &input{
 		kind:             m.kind,
+		goType:           m.goType,
 		isEnum:           m.isEnum,
 		enumTypeIndex:    m.enumTypeIndex,
 		isID:             m.isID,
diff --git a/parse.go b/parse.go
index d696026..c734de1 100644
--- a/parse.go
+++ b/parse.go
@@ -186,7 +186,8 @@ type referToInput struct {
 }
 
 type input struct {
-	kind reflect.Kind
+	kind   reflect.Kind
+	goType reflect.Type // only set for the inputs in the inTypes map
 
 	// Is this a custom type?
 	isEnum        bool
@@ -397,7 +398,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath {
+				if v.goPkgPath != res.goPkgPath || v.goTypeName != res.goTypeName {
 					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 				}
 
@@ -712,8 +713,12 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			}
 		}
 
-		_, ok := c.schema.inTypes[structName]
+		registeredInput, ok := c.schema.inTypes[structName]
+		if ok && registeredInput.goType != t {
+			return res, fmt.Errorf("cannot have 2 input structs with same type name: %s(%s) != %s(%s)", registeredInput.goType.PkgPath(), registeredInput.goType.Name(), t.PkgPath(), t.Name())
+		}
 		if !ok {
+			res.goType = t
 			// Make sure the input types entry is set before looping over it's fields to fix the n+1 problem
 			c.schema.inTypes[structName] = &res
 
-- 
2.43.0


From ea23d0101cb5524d90fc49f1dcdb9e77a0c7ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 43/90] fix: handle all commas as ignored tokens, repeated and
 leading commas were a syntax error

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 31d3378..54a3cf6 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1194,7 +1194,7 @@ func isPunctuator(c byte) bool {
 // https://spec.graphql.org/October2021/#sec-Language.Source-Text.Ignored-Tokens
 func (ctx *ParserCtx) isIgnoredToken(c byte) bool {
 	// TODO this doesn't support unicode bomb
-	return c == ' ' || c == '\t' || ctx.isLineTerminator() || ctx.isComment(true) || c == 0
+	return c == ' ' || c == '\t' || c == ',' || ctx.isLineTerminator() || ctx.isComment(true) || c == 0
 }
 
 // https://spec.graphql.org/October2021/#sec-Line-Terminators
-- 
2.43.0


From e5408a989c2f75cc741a85b9190d6f85165c46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 44/90] fix: a selection set on an enum or time field is an
 error, it was silently ignored

---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index 6e1eb2e..601c718 100644
--- a/resolver.go
+++ b/resolver.go
@@ -853,6 +853,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		criticalErr = ctx.resolveFieldDataValue(&method.outType, dept, hasSubSelection)
 		return criticalErr
 	case valueTypeEnum:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		enum := ctx.schema.definedEnums[typeObj.enumTypeIndex]
 		switch enum.contentKind {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -882,6 +887,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 		ctx.writeNull()
 	case valueTypeTime:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		timeValue, ok := goValue.Interface().(time.Time)
 		if ok {
 			ctx.writeByte('"')
-- 
2.43.0


From 24cbb0209b2d984bb4caada82bac42f0a7981f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 45/90] fix: a method named Resolve made Parse panic

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index c734de1..049b448 100644
--- a/parse.go
+++ b/parse.go
@@ -758,7 +758,7 @@ func (c *parseCtx) checkFunction(name string, t reflect.Type, isTypeMethod bool,
 	trimmedName := name
 
 	if strings.HasPrefix(name, "Resolve") {
-		if len(name) > 0 {
+		if len(name) > len("Resolve") {
 			trimmedName = strings.TrimPrefix(name, "Resolve")
 			if isTypeMethod && strings.ToUpper(string(trimmedName[0]))[0] != trimmedName[0] {
 				// Resolve name must start with a uppercase letter
-- 
2.43.0


From f232fbce3ea40d0e7a2706235ea56f06d6c7044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 46/90] fix: float variables could be off by one bit, parse
 them with strconv

---
 resolver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 601c718..0b2dab1 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1294,8 +1294,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	case fastjson.TypeNumber:
 		goValueKind := goValue.Kind()
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
-			floatVal := jsonData.GetFloat64()
-			if math.IsInf(floatVal, 0) || goValue.OverflowFloat(floatVal) {
+			// The floats of the json parser can be off by one bit
+			floatVal, err := strconv.ParseFloat(string(jsonData.MarshalTo(nil)), 64)
+			if err != nil || math.IsInf(floatVal, 0) || goValue.OverflowFloat(floatVal) {
 				return false, ctx.err("variable value doesn't fit in the float type")
 			}
 			valueSet = true
-- 
2.43.0


From 6c94a78cd1c076d23c1936ac95a8038288c0bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 47/90] fix: count a selection on an interface as one level of
 depth, it was counted twice

---
 resolver.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/resolver.go b/resolver.go
index 0b2dab1..cdcd58b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -920,12 +920,6 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 			return false
 		}
 
-		dept++
-		if dept == ctx.schema.MaxDepth {
-			ctx.writeNull()
-			return ctx.err("reached max dept")
-		}
-
 		if goValue.Kind() == reflect.Interface {
 			goValue = goValue.Elem()
 			ctx.setNextGoValue(goValue)
@@ -938,6 +932,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
+				// The dept is increased and checked by the implementation, that is always a object
 				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
-- 
2.43.0


From b161d4ce174249362120976294b7c839d13c5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 48/90] fix: the arguments of directives were missing in the
 introspection of a schema that is not a copy

---
 copy_schema.go   |  6 +-----
 inject_schema.go | 12 ++++++++++--
 parse.go         |  2 ++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 7d0c852..7bb3a66 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -56,11 +56,7 @@ func (s *Schema) Copy() *Schema {
 	res.rootMethod = res.types[s.rootMethod.typeName]
 
 	// The value behind __schema has references to the schema it was created for
-	schemaField, ok := res.rootQuery.objContents[getObjKey([]byte("__schema"))]
-	if ok && schemaField.customObjValue != nil {
-		contents := reflect.ValueOf(res.getQLSchema())
-		schemaField.customObjValue = &contents
-	}
+	res.setQLSchemaValue()
 
 	res.ctx = s.ctx.copy(res)
 
diff --git a/inject_schema.go b/inject_schema.go
index 00f0b8f..5cb5222 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -15,8 +15,7 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 		log.Fatal(err)
 	}
 
-	contents := reflect.ValueOf(s.getQLSchema())
-	ref.customObjValue = &contents
+	// The value of __schema is set by (s *Schema).setQLSchemaValue
 	ref.qlFieldName = []byte("__schema")
 	ref.hidden = true
 
@@ -38,6 +37,15 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
 }
 
+// setQLSchemaValue sets the value behind __schema, this must be called after the inputs of the directives are checked
+func (s *Schema) setQLSchemaValue() {
+	schemaField, ok := s.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if ok && schemaField.hidden {
+		contents := reflect.ValueOf(s.getQLSchema())
+		schemaField.customObjValue = &contents
+	}
+}
+
 func (s *Schema) getQLSchema() qlSchema {
 	res := qlSchema{
 		Types:      s.getAllQLTypes,
diff --git a/parse.go b/parse.go
index 049b448..09eb036 100644
--- a/parse.go
+++ b/parse.go
@@ -365,6 +365,8 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	s.setQLSchemaValue()
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From fa49b21437417e9693f808b72fb29e5a469ac3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 49/90] fix: directives with the same name were listed in a
 random order by the introspection

---
 inject_schema.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 5cb5222..e79a240 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -117,9 +117,16 @@ func (s *Schema) getQLSchema() qlSchema {
 func (s *Schema) getDirectives() []qlDirective {
 	res := []qlDirective{}
 
-	for _, directiveLocation := range s.definedDirectives {
+	// Loop over the locations in a fixed order so the result doesn't depend on the order of the map
+	definedLocations := []DirectiveLocation{}
+	for location := range s.definedDirectives {
+		definedLocations = append(definedLocations, location)
+	}
+	sort.Slice(definedLocations, func(a int, b int) bool { return definedLocations[a] < definedLocations[b] })
+
+	for _, location := range definedLocations {
 	outerLoop:
-		for _, directive := range directiveLocation {
+		for _, directive := range s.definedDirectives[location] {
 			locations := make([]__DirectiveLocation, len(directive.Where))
 			for idx, location := range directive.Where {
 				locations[idx] = location.ToQlDirectiveLocation()
@@ -145,7 +152,7 @@ func (s *Schema) getDirectives() []qlDirective {
 		}
 	}
 
-	sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
+	sort.SliceStable(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
 	return res
 }
-- 
2.43.0


From b655305eadbaa3f30c455e89da365ea03c5390d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 50/90] fix: the arguments of interface methods were missing in
 the introspection

---
 copy_schema.go | 13 +++++++------
 parse.go       |  7 +++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 7bb3a66..b381b70 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -213,12 +213,13 @@ func (o *obj) copy() *obj {
 
 func (m *objMethod) copy() *objMethod {
 	res := objMethod{
-		isTypeMethod:   m.isTypeMethod,
-		goFunctionName: m.goFunctionName,
-		goType:         m.goType,
-		checkedIns:     m.checkedIns,
-		outNr:          m.outNr,
-		outType:        *m.outType.copy(),
+		isTypeMethod:      m.isTypeMethod,
+		isInterfaceMethod: m.isInterfaceMethod,
+		goFunctionName:    m.goFunctionName,
+		goType:            m.goType,
+		checkedIns:        m.checkedIns,
+		outNr:             m.outNr,
+		outType:           *m.outType.copy(),
 	}
 	if m.errorOutNr != nil {
 		errOutNr := 0
diff --git a/parse.go b/parse.go
index 09eb036..2669df3 100644
--- a/parse.go
+++ b/parse.go
@@ -166,7 +166,9 @@ type objMethod struct {
 	// true = func (*someStruct) ResolveFooBar() string {}
 	// false = ResolveFooBar func() string
 	isTypeMethod   bool
-	goFunctionName string
+	// The go type of a interface method doesn't have the receiver as first argument
+	isInterfaceMethod bool
+	goFunctionName    string
 	goType         reflect.Type
 
 	ins        []baseInput             // The real function inputs
@@ -548,6 +550,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			} else if methodObj == nil {
 				continue
 			}
+			methodObj.isInterfaceMethod = res.valueType == valueTypeInterface
 
 			qlFieldName := []byte(name)
 			res.objContents[getObjKey(qlFieldName)] = &obj{
@@ -843,7 +846,7 @@ func (c *parseCtx) checkFunctionIns(method *objMethod) error {
 	totalInputs := method.goType.NumIn()
 	for i := 0; i < totalInputs; i++ {
 		iInList := i
-		if method.isTypeMethod {
+		if method.isTypeMethod && !method.isInterfaceMethod {
 			if i == 0 {
 				// First argument can be skipped if type method
 				continue
-- 
2.43.0


From 19b1920d3b4ebf8d26318ff3c9fe59551ac522d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 51/90] fix: refuse fixed length arrays as input when the
 schema is built, every value for them was refused by the resolver

---
 parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 2669df3..da3617c 100644
--- a/parse.go
+++ b/parse.go
@@ -686,7 +686,7 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			return res, err
 		}
 		res.elem = &input
-	case reflect.Array, reflect.Slice:
+	case reflect.Slice:
 		input, err := c.checkFunctionInput(t.Elem(), false)
 		if err != nil {
 			return res, err
@@ -747,6 +747,9 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			structName:       structName,
 			isStructPointers: true,
 		}, nil
+	case reflect.Array:
+		// TODO support this, the resolver cannot assign lists to fixed length arrays
+		return res, errors.New("unsupported type fixed length array")
 	case reflect.Map, reflect.Func:
 		// TODO: maybe we can do something with these
 		fallthrough
-- 
2.43.0


From 05304b24c3a21d3bc077d3825fb746640b3f633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 52/90] fix: ignore unexported fields of inputs, using one
 resulted in a panic

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index da3617c..3e89c5a 100644
--- a/parse.go
+++ b/parse.go
@@ -625,8 +625,8 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 		return fmt.Errorf("%s, struct field: %s", err.Error(), field.Name)
 	}
 
-	if field.Anonymous {
-		// skip field
+	if field.Anonymous || field.PkgPath != "" {
+		// skip field, values cannot be assigned to unexported fields
 		return res, true, nil
 	}
 
-- 
2.43.0


From 2ed5e28d1aa10045bbabee4ac8a827f089076128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 53/90] fix: ignore unexported struct fields, they were exposed
 and functions, times and methods behind them resulted in a panic

---
 parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse.go b/parse.go
index 3e89c5a..e8d4b85 100644
--- a/parse.go
+++ b/parse.go
@@ -579,6 +579,13 @@ func (c *parseCtx) checkStructField(field reflect.StructField, idx int) (customN
 	if field.Anonymous {
 		return nil, nil, nil
 	}
+	if field.PkgPath != "" {
+		// Unexported fields are ignored, reading most of them results in a panic or in leaking internal values
+		// FIXME: enum fields are still exposed as there are schemas that depend on it
+		if _, enum := c.schema.getEnum(field.Type); enum == nil {
+			return nil, nil, nil
+		}
+	}
 
 	var ignore, isID bool
 	customName, ignore, isID, err = parseFieldTagGQ(&field)
-- 
2.43.0


From 739f24b970dbe34099e2952bef8fb3c7cf0a5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 54/90] fix: return an error when Parse is called without
 queries or methods, it panicked

---
 parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse.go b/parse.go
index e8d4b85..977371b 100644
--- a/parse.go
+++ b/parse.go
@@ -309,6 +309,13 @@ func (s *Schema) SetCacheRules(
 
 // Parse parses your queries and methods
 func (s *Schema) Parse(queries interface{}, methods interface{}, options *SchemaOptions) error {
+	if queries == nil {
+		return errors.New("input queries must be a struct")
+	}
+	if methods == nil {
+		return errors.New("input methods must be a struct")
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
-- 
2.43.0


From ac314884b27515c20dded58ce040807cfec8bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 55/90] fix: return an error for field names with the same
 hash, one of the fields was lost

---
 parse.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 977371b..b8bc0bb 100644
--- a/parse.go
+++ b/parse.go
@@ -124,6 +124,17 @@ func getObjKey(key []byte) uint32 {
 	return hasher.Sum32()
 }
 
+// addField adds a field to a object or interface
+func (o *obj) addField(field *obj) error {
+	key := getObjKey(field.qlFieldName)
+	existing, ok := o.objContents[key]
+	if ok && !bytes.Equal(existing.qlFieldName, field.qlFieldName) {
+		return fmt.Errorf("the fields %s and %s of %s cannot be used together as their names have the same hash", existing.qlFieldName, field.qlFieldName, o.typeName)
+	}
+	o.objContents[key] = field
+	return nil
+}
+
 func (o *obj) getRef() obj {
 	switch o.valueType {
 	case valueTypeObj:
@@ -451,7 +462,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				}
 				obj.qlFieldName = []byte(name)
 
-				res.objContents[getObjKey(obj.qlFieldName)] = obj
+				err = res.addField(obj)
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
@@ -559,15 +573,17 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			}
 			methodObj.isInterfaceMethod = res.valueType == valueTypeInterface
 
-			qlFieldName := []byte(name)
-			res.objContents[getObjKey(qlFieldName)] = &obj{
-				qlFieldName:    qlFieldName,
+			err = res.addField(&obj{
+				qlFieldName:    []byte(name),
 				valueType:      valueTypeMethod,
 				goPkgPath:      method.PkgPath,
 				goTypeName:     method.Name,
 				structFieldIdx: i,
 				method:         methodObj,
 				isID:           isID,
+			})
+			if err != nil {
+				return nil, err
 			}
 		}
 
-- 
2.43.0


From 5bacb5adc6cc490f578ff8c608b3b8424c7104e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 56/90] fix: return an error for go names that are no graphql
 names, the fields had unusable names

---
 parse.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/parse.go b/parse.go
index b8bc0bb..2947306 100644
--- a/parse.go
+++ b/parse.go
@@ -460,6 +460,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				if customName != nil {
 					name = *customName
 				}
+				err = validGoNameInQL(field.Name, name)
+				if err != nil {
+					return nil, err
+				}
 				obj.qlFieldName = []byte(name)
 
 				err = res.addField(obj)
@@ -573,6 +577,11 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			}
 			methodObj.isInterfaceMethod = res.valueType == valueTypeInterface
 
+			err = validGoNameInQL(method.Name, name)
+			if err != nil {
+				return nil, err
+			}
+
 			err = res.addField(&obj{
 				qlFieldName:    []byte(name),
 				valueType:      valueTypeMethod,
@@ -673,6 +682,10 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 	if newName != nil {
 		qlFieldName = *newName
 	}
+	err = validGoNameInQL(field.Name, qlFieldName)
+	if err != nil {
+		return res, false, wrapErr(err)
+	}
 
 	res, err = c.checkFunctionInput(field.Type, isID)
 	if err != nil {
@@ -935,6 +948,22 @@ func formatGoNameToQL(input string) string {
 	return string(bytes.ToLower([]byte{input[0]})) + input[1:]
 }
 
+// validGoNameInQL checks if a name derived from a go name can be used in a query
+// Go names might contain any unicode letter while graphql names are limited to ascii letters
+func validGoNameInQL(goName string, qlName string) error {
+	for i := 0; i < len(qlName); i++ {
+		char := qlName[i]
+		if char >= 'A' && char <= 'Z' || char >= 'a' && char <= 'z' || char == '_' {
+			continue
+		}
+		if i > 0 && char >= '0' && char <= '9' {
+			continue
+		}
+		return fmt.Errorf("%s cannot be used as graphql name, rename it", goName)
+	}
+	return nil
+}
+
 func parseFieldTagGQ(field *reflect.StructField) (newName *string, ignore bool, isID bool, err error) {
 	val, ok := field.Tag.Lookup("gq")
 	if !ok {
-- 
2.43.0


From d099615c16d1397f0d82e197c908a31ee7734e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 57/90] fix: return an error for recursive list types, Parse
 overflowed the stack

---
 parse.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parse.go b/parse.go
index 2947306..2503894 100644
--- a/parse.go
+++ b/parse.go
@@ -473,6 +473,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
+		if isRecursiveListType(t) {
+			return nil, fmt.Errorf("unsupported recursive type %s", t.String())
+		}
+
 		isPtr := t.Kind() == reflect.Ptr
 		if isPtr {
 			res.valueType = valueTypePtr
@@ -607,6 +611,21 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 	return &res, nil
 }
 
+// isRecursiveListType returns true for list and pointer types that only contain themselves, for example:
+// type Foo []Foo
+func isRecursiveListType(t reflect.Type) bool {
+	seen := map[reflect.Type]struct{}{}
+	for t.Kind() == reflect.Array || t.Kind() == reflect.Slice || t.Kind() == reflect.Ptr {
+		_, ok := seen[t]
+		if ok {
+			return true
+		}
+		seen[t] = struct{}{}
+		t = t.Elem()
+	}
+	return false
+}
+
 func (c *parseCtx) checkStructField(field reflect.StructField, idx int) (customName *string, obj *obj, err error) {
 	if field.Anonymous {
 		return nil, nil, nil
@@ -703,6 +722,9 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 	res := input{
 		kind: kind,
 	}
+	if isRecursiveListType(t) {
+		return res, fmt.Errorf("unsupported recursive type %s", t.String())
+	}
 
 	switch kind {
 	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
-- 
2.43.0


From 19a6d52466a1f8ee24023b7266c1e0e696b640c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:59 +0000
Subject: [PATCH 58/90] fix: panics of RegisterEnum on values that are no map
 and on maps with a custom key type

---
 enums.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enums.go b/enums.go
index 722baeb..79ea967 100644
--- a/enums.go
+++ b/enums.go
@@ -72,7 +72,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	mapReflection := reflect.ValueOf(enumMap)
 	invalidTypeMsg := fmt.Errorf("RegisterEnum input must be of type map[string]CustomType(int..|uint..|string) as input, %+v given", enumMap)
 
-	if enumMap == nil || mapReflection.IsZero() || mapReflection.IsNil() {
+	if enumMap == nil {
 		return nil, invalidTypeMsg
 	}
 
@@ -82,6 +82,9 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		// Tye input type must be a map
 		return nil, invalidTypeMsg
 	}
+	if mapReflection.IsNil() {
+		return nil, invalidTypeMsg
+	}
 	if mapType.Key().Kind() != reflect.String {
 		// The map key must be a string
 		return nil, invalidTypeMsg
@@ -108,7 +111,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	i := 0
 	for iter.Next() {
 		k := iter.Key()
-		keyStr := k.Interface().(string)
+		keyStr := k.String()
 		if keyStr == "" {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
-- 
2.43.0


From a4f67eab54793acaaa0ad15db12263fd22045bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 59/90] fix: use the entries of an enum in a fixed order, a
 value with two names was written with a random one

---
 enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enums.go b/enums.go
index 79ea967..499fa18 100644
--- a/enums.go
+++ b/enums.go
@@ -134,6 +134,8 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		}
 		i++
 	}
+	// The order of a map is random, without sorting the name of a value with more than one name would be random too
+	sort.Slice(entries, func(a int, b int) bool { return entries[a].key < entries[b].key })
 	sort.Slice(qlTypeEnumValues, func(a int, b int) bool { return qlTypeEnumValues[a].Name < qlTypeEnumValues[b].Name })
 
 	name := contentType.Name()
-- 
2.43.0


From 23a431a417bd132e7611ce215911359c47aa577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 60/90] fix: refuse true, false and null as enum keys, they
 cannot be used in a query

---
 enums.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enums.go b/enums.go
index 499fa18..6bfb915 100644
--- a/enums.go
+++ b/enums.go
@@ -116,6 +116,10 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
 
+		if keyStr == "true" || keyStr == "false" || keyStr == "null" {
+			return nil, errors.New("RegisterEnum map key cannot be true, false or null, these are other values in a query")
+		}
+
 		err := validGraphQlName([]byte(keyStr))
 		if err != nil {
 			return nil, errors.New(`RegisterEnum map key must start with an alphabetic character (lower or upper) followed by the same or a "_", key given: ` + keyStr)
-- 
2.43.0


From 69abecad890e0f1fb6a216e843594a59bed92ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 61/90] fix: refuse enums that are registered twice, they were
 listed twice in the introspection

---
 enums.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enums.go b/enums.go
index 6bfb915..f40f109 100644
--- a/enums.go
+++ b/enums.go
@@ -64,6 +64,12 @@ func (s *Schema) RegisterEnum(enumMap interface{}) (added bool, err error) {
 		return false, err
 	}
 
+	for _, definedEnum := range s.definedEnums {
+		if definedEnum.typeName == enum.typeName {
+			return false, errors.New("RegisterEnum cannot register 2 enums with the same type name: " + enum.typeName)
+		}
+	}
+
 	s.definedEnums = append(s.definedEnums, *enum)
 	return true, nil
 }
-- 
2.43.0


From 95da218bf0cf40cb5a691a9d9ea7d3eff4c02ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 62/90] fix: refuse types of different kinds with the same
 name, the introspection had both of them

---
 parse.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/parse.go b/parse.go
index 2503894..2a330a5 100644
--- a/parse.go
+++ b/parse.go
@@ -385,6 +385,11 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	err = s.checkUniqueTypeNames()
+	if err != nil {
+		return err
+	}
+
 	s.setQLSchemaValue()
 
 	s.ctx = newCtx(s)
@@ -393,6 +398,46 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	return nil
 }
 
+// checkUniqueTypeNames checks if types of different kinds have the same name
+// The names of structs and the names of inputs are already unique
+func (s *Schema) checkUniqueTypeNames() error {
+	names := map[string]struct{}{}
+	for name := range scalars {
+		names[name] = struct{}{}
+	}
+
+	check := func(name string) error {
+		_, ok := names[name]
+		if ok {
+			return fmt.Errorf("cannot have 2 types with the same name: %s", name)
+		}
+		names[name] = struct{}{}
+		return nil
+	}
+
+	for _, enum := range s.definedEnums {
+		err := check(enum.typeName)
+		if err != nil {
+			return err
+		}
+	}
+	for _, list := range []types{s.types, s.interfaces} {
+		for name := range list {
+			err := check(name)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	for name := range s.inTypes {
+		err := check(name)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 	res := obj{
 		typeNameBytes: []byte(t.Name()),
-- 
2.43.0


From c3d362263b89daef94812e28d93ca7846bdaaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 63/90] fix: panic of RegisterDirective on a method that is not
 a function

---
 directives.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/directives.go b/directives.go
index cd3cadf..0af6df7 100644
--- a/directives.go
+++ b/directives.go
@@ -121,16 +121,13 @@ func checkDirective(directive *Directive) error {
 	if directive.Method == nil {
 		return errors.New("method must be defined")
 	}
-	if directive.Method == nil {
-		return errors.New("method must be defined")
-	}
 	directive.methodReflection = reflect.ValueOf(directive.Method)
-	if directive.methodReflection.IsNil() {
-		return errors.New("method must be defined")
-	}
 	if directive.methodReflection.Kind() != reflect.Func {
 		return errors.New("method is not a function")
 	}
+	if directive.methodReflection.IsNil() {
+		return errors.New("method must be defined")
+	}
 	methodType := directive.methodReflection.Type()
 	switch methodType.NumOut() {
 	case 0:
-- 
2.43.0


From ed4c342e0d9e05c3c757629cf8c03add25d8cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 64/90] fix: don't add a refused directive to some of its
 locations

---
 directives.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/directives.go b/directives.go
index 0af6df7..77f7517 100644
--- a/directives.go
+++ b/directives.go
@@ -85,21 +85,24 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 		return err
 	}
 
-	ptrToDirective := &directive
-	for _, location := range directive.Where {
-		directivesForLocation, ok := s.definedDirectives[location]
-		if !ok {
-			directivesForLocation = []*Directive{}
-		} else {
-			// Check for already defined directives with the same name
-			for _, alreadyDefinedDirective := range directivesForLocation {
-				if directive.Name == alreadyDefinedDirective.Name {
-					return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
-				}
+	// Check for already defined directives with the same name
+	// This is done for all locations before adding the directive so a refused directive is not partially added
+	for idx, location := range directive.Where {
+		for _, alreadyDefinedDirective := range s.definedDirectives[location] {
+			if directive.Name == alreadyDefinedDirective.Name {
+				return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
+			}
+		}
+		for _, earlierLocation := range directive.Where[:idx] {
+			if location == earlierLocation {
+				return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
 			}
 		}
-		directivesForLocation = append(directivesForLocation, ptrToDirective)
-		s.definedDirectives[location] = directivesForLocation
+	}
+
+	ptrToDirective := &directive
+	for _, location := range directive.Where {
+		s.definedDirectives[location] = append(s.definedDirectives[location], ptrToDirective)
 	}
 
 	return nil
-- 
2.43.0


From 0b695a61552dbd3073962e10c1873d677abbf5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 65/90] fix: resolve pointers to implementations in interface
 fields, they were always null

---
 resolver.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resolver.go b/resolver.go
index cdcd58b..7af6713 100644
--- a/resolver.go
+++ b/resolver.go
@@ -922,6 +922,13 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		if goValue.Kind() == reflect.Interface {
 			goValue = goValue.Elem()
+			for goValue.Kind() == reflect.Ptr {
+				if goValue.IsNil() {
+					ctx.writeNull()
+					return false
+				}
+				goValue = goValue.Elem()
+			}
 			ctx.setNextGoValue(goValue)
 		}
 
-- 
2.43.0


From 86375b948e7c91e8467d3b57cd9382462e20f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 66/90] fix: keep renames and implementations of same named
 types of different packages apart

---
 interfaces.go  | 14 +++++++-------
 parse.go       | 10 +++++-----
 type_rename.go |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/interfaces.go b/interfaces.go
index 4a9aa96..ab0b186 100644
--- a/interfaces.go
+++ b/interfaces.go
@@ -4,11 +4,11 @@ import (
 	"reflect"
 )
 
-// implementationMap is a map of interface names and the types that implement them
-var implementationMap = map[string][]reflect.Type{}
+// implementationMap is a map of interfaces and the types that implement them
+var implementationMap = map[reflect.Type][]reflect.Type{}
 
 // structImplementsMap is list of all structs and their interfaces that they implement
-var structImplementsMap = map[string][]reflect.Type{}
+var structImplementsMap = map[reflect.Type][]reflect.Type{}
 
 // Implements registers a new type that implementation an interface
 // The interfaceValue should be a pointer to the interface type like: (*InterfaceType)(nil)
@@ -53,21 +53,21 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		panic(typePath + "." + typePath + " does not implement " + interfacePath + "." + interfaceName)
 	}
 
-	typesThatImplementInterf, ok := implementationMap[interfaceName]
+	typesThatImplementInterf, ok := implementationMap[interfaceType]
 	if !ok {
 		typesThatImplementInterf = []reflect.Type{}
 	} else {
 		for _, t := range typesThatImplementInterf {
-			if t.Name() == typeName && t.PkgPath() == typePath {
+			if t == typeType {
 				// already registered
 				return true
 			}
 		}
 	}
 	typesThatImplementInterf = append(typesThatImplementInterf, typeType)
-	implementationMap[interfaceName] = typesThatImplementInterf
+	implementationMap[interfaceType] = typesThatImplementInterf
 
-	structImplementsMap[typeName] = append(structImplementsMap[typeName], interfaceType)
+	structImplementsMap[typeType] = append(structImplementsMap[typeType], interfaceType)
 
 	return true
 }
diff --git a/parse.go b/parse.go
index 2a330a5..a72f103 100644
--- a/parse.go
+++ b/parse.go
@@ -457,7 +457,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("structs cannot have ID attribute")
 		}
 		if res.typeName != "" {
-			newName, ok := renamedTypes[res.typeName]
+			newName, ok := renamedTypes[t]
 			if ok {
 				res.typeName = newName
 				res.typeNameBytes = []byte(newName)
@@ -473,7 +473,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				return &res, nil
 			}
 
-			implementations := structImplementsMap[t.Name()]
+			implementations := structImplementsMap[t]
 			for _, implementation := range implementations {
 				impl, err := c.check(implementation, false)
 				if err != nil {
@@ -542,7 +542,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("inline interfaces not allowed")
 		}
 
-		newName, ok := renamedTypes[res.typeName]
+		newName, ok := renamedTypes[t]
 		if ok {
 			res.typeName = newName
 			res.typeNameBytes = []byte(newName)
@@ -572,7 +572,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			methodPkgName = "inline interface"
 		}
 
-		typesThatImplementInterface, ok := implementationMap[t.Name()]
+		typesThatImplementInterface, ok := implementationMap[t]
 		if !ok {
 			return nil, errors.New("cannot register a interface without explicit implementations")
 		}
@@ -816,7 +816,7 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			c.unknownInputsCount++
 			structName = "__UnknownInput" + strconv.Itoa(c.unknownInputsCount)
 		} else {
-			newStructName, ok := renamedTypes[structName]
+			newStructName, ok := renamedTypes[t]
 			if ok {
 				structName = newStructName
 			}
diff --git a/type_rename.go b/type_rename.go
index 0fce280..0eb6bd0 100644
--- a/type_rename.go
+++ b/type_rename.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var renamedTypes = map[string]string{}
+var renamedTypes = map[reflect.Type]string{}
 
 // TypeRename renames the graphql type of the input type
 // By default the typename of the struct is used but you might want to change this form time to time and with this you can
@@ -33,7 +33,7 @@ func TypeRename(goType interface{}, newName string, force ...bool) string {
 		}
 	}
 
-	renamedTypes[originalName] = newName
+	renamedTypes[t] = newName
 
 	return newName
 }
-- 
2.43.0


From ad70a27093fbd5fc4254953bc568ec84db76cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 67/90] fix: keep different types of the same name and package
 apart

---
 copy_schema.go |  1 +
 parse.go       | 12 +++++++-----
 resolver.go    |  4 +---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index b381b70..9d855a0 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -178,6 +178,7 @@ func (o *obj) copy() *obj {
 		typeNameBytes:  o.typeNameBytes[:],
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
+		goType:         o.goType,
 		qlFieldName:    o.qlFieldName[:],
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
diff --git a/parse.go b/parse.go
index a72f103..07fd1f1 100644
--- a/parse.go
+++ b/parse.go
@@ -89,6 +89,7 @@ type obj struct {
 	typeNameBytes []byte
 	goTypeName    string
 	goPkgPath     string
+	goType        reflect.Type // not set for methods
 	qlFieldName   []byte
 	hidden        bool
 	isID          bool
@@ -143,6 +144,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	case valueTypeInterface:
@@ -151,6 +153,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	default:
@@ -354,9 +357,7 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	s.rootMethod = s.types[obj.typeName]
 
 	if options == nil || !options.noMethodEqualToQueryChecks {
-		queryPkg := s.rootQuery.goPkgPath + s.rootQuery.goTypeName
-		methodPkg := s.rootMethod.goPkgPath + s.rootMethod.goTypeName
-		if queryPkg == methodPkg {
+		if s.rootQuery.goType == s.rootMethod.goType {
 			return errors.New("method and query cannot be the same struct")
 		}
 	}
@@ -444,6 +445,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		typeName:      t.Name(),
 		goPkgPath:     t.PkgPath(),
 		goTypeName:    t.Name(),
+		goType:        t,
 	}
 
 	if res.goPkgPath == "time" && res.goTypeName == "Time" {
@@ -465,7 +467,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath || v.goTypeName != res.goTypeName {
+				if v.goType != t {
 					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 				}
 
@@ -550,7 +552,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 		v, ok := c.schema.interfaces.Get(res.typeName)
 		if ok {
-			if v.goPkgPath != res.goPkgPath {
+			if v.goType != t {
 				return nil, fmt.Errorf("cannot have 2 interfaces with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 			}
 
diff --git a/resolver.go b/resolver.go
index 7af6713..b98b231 100644
--- a/resolver.go
+++ b/resolver.go
@@ -933,12 +933,10 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 
 		goValueType := goValue.Type()
-		goValueName := goValueType.Name()
-		goValuePkgPath := goValueType.PkgPath()
 
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
-			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
+			if implementation.goType == goValueType {
 				// The dept is increased and checked by the implementation, that is always a object
 				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
-- 
2.43.0


From a3cb36918f61ba39dccdde8fb6676f8096271726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 68/90] fix: return an error instead of ending the program if
 the introspection types cannot be added

---
 inject_schema.go | 14 ++++++++------
 parse.go         |  5 ++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index e79a240..5616f30 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -1,25 +1,27 @@
 package yarql
 
 import (
-	"log"
 	"reflect"
 	"sort"
 
 	h "github.com/mjarkk/yarql/helpers"
 )
 
-func (s *Schema) injectQLTypes(ctx *parseCtx) {
+func (s *Schema) injectQLTypes(ctx *parseCtx) error {
 	// Inject __Schema
 	ref, err := ctx.check(reflect.TypeOf(qlSchema{}), false)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	// The value of __schema is set by (s *Schema).setQLSchemaValue
 	ref.qlFieldName = []byte("__schema")
 	ref.hidden = true
 
-	s.rootQuery.objContents[getObjKey(ref.qlFieldName)] = ref
+	err = s.rootQuery.addField(ref)
+	if err != nil {
+		return err
+	}
 
 	// Inject __type(name: String!): __Type
 	typeResolver := func(ctx *Ctx, args struct{ Name string }) *qlType {
@@ -28,13 +30,13 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	typeResolverReflection := reflect.ValueOf(typeResolver)
 	functionObj, err := ctx.checkStructFieldFunc("__type", typeResolverReflection.Type(), false, -1)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	functionObj.customObjValue = &typeResolverReflection
 	functionObj.qlFieldName = []byte("__type")
 	functionObj.hidden = true
-	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
+	return s.rootQuery.addField(functionObj)
 }
 
 // setQLSchemaValue sets the value behind __schema, this must be called after the inputs of the directives are checked
diff --git a/parse.go b/parse.go
index 07fd1f1..cb65772 100644
--- a/parse.go
+++ b/parse.go
@@ -363,7 +363,10 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	}
 
 	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
+		err = s.injectQLTypes(ctx)
+		if err != nil {
+			return err
+		}
 	}
 
 	for _, method := range ctx.parsedMethods {
-- 
2.43.0


From e617724b28f06ce07b7ad6f70a082e3ac7398088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 69/90] fix: refuse times with an hour of one digit or a signed
 fraction, they don't match the ISO 8601 layout

---
 helpers/time.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 6471254..33673e4 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -11,7 +11,8 @@ var timeISO8601Layout = "2006-01-02T15:04:05.000Z"
 // ParseIso8601String parses a string in the ISO 8601 format
 func ParseIso8601String(val string) (time.Time, error) {
 	parsedTime, err := time.Parse(timeISO8601Layout, val)
-	if err != nil {
+	// time.Parse is a lenient parser, it also accepts hours with a single digit and fractions with a sign
+	if err != nil || parsedTime.Format(timeISO8601Layout) != val {
 		return time.Time{}, errors.New("time value doesn't match the ISO 8601 layout")
 	}
 	return parsedTime, nil
-- 
2.43.0


From 9b2b0546cd0fe5c0fcab32521b1795130ffbc423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 70/90] fix: accept every integer literal for a float, not only
 the ones that fit in a int64

---
 resolver.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index b98b231..2e47a3b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1569,12 +1569,17 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 			goValue.SetUint(value)
 		case reflect.Float32, reflect.Float64:
-			value, err := strconv.ParseInt(intValue, 10, 64)
+			// Not parsed as int, a float can hold values that do not fit in a int64
+			value, err := strconv.ParseFloat(intValue, 64)
 			if err != nil {
 				return false, ctx.err(err.Error())
 			}
 
-			goValue.SetFloat(float64(value))
+			if goValue.OverflowFloat(value) {
+				return false, ctx.err("int value doesn't fit in the float type")
+			}
+
+			goValue.SetFloat(value)
 		case reflect.Bool:
 			value, err := strconv.ParseInt(intValue, 10, 64)
 			if err != nil {
-- 
2.43.0


From e26105f2b0e4c4f91e5053ffe2dbc1aa6222790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:53 +0000
Subject: [PATCH 71/90] fix: Comparisons show the message they were given

---
 assert/assertion_compare.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/assert/assertion_compare.go b/assert/assertion_compare.go
index 5427938..5b02e89 100644
--- a/assert/assertion_compare.go
+++ b/assert/assertion_compare.go
@@ -310,7 +310,7 @@ func compare(obj1, obj2 interface{}, kind reflect.Kind) (compareType, bool) {
 //    assert.Greater(t, float64(2), float64(1))
 //    assert.Greater(t, "b", "a")
 func Greater(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareGreater}, "\"%v\" is not greater than \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareGreater}, "\"%v\" is not greater than \"%v\"", msgAndArgs...)
 }
 
 // GreaterOrEqual asserts that the first element is greater than or equal to the second
@@ -320,7 +320,7 @@ func Greater(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface
 //    assert.GreaterOrEqual(t, "b", "a")
 //    assert.GreaterOrEqual(t, "b", "b")
 func GreaterOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareGreater, compareEqual}, "\"%v\" is not greater than or equal to \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareGreater, compareEqual}, "\"%v\" is not greater than or equal to \"%v\"", msgAndArgs...)
 }
 
 // Less asserts that the first element is less than the second
@@ -329,7 +329,7 @@ func GreaterOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...in
 //    assert.Less(t, float64(1), float64(2))
 //    assert.Less(t, "a", "b")
 func Less(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareLess}, "\"%v\" is not less than \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareLess}, "\"%v\" is not less than \"%v\"", msgAndArgs...)
 }
 
 // LessOrEqual asserts that the first element is less than or equal to the second
@@ -339,7 +339,7 @@ func Less(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{})
 //    assert.LessOrEqual(t, "a", "b")
 //    assert.LessOrEqual(t, "b", "b")
 func LessOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareLess, compareEqual}, "\"%v\" is not less than or equal to \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareLess, compareEqual}, "\"%v\" is not less than or equal to \"%v\"", msgAndArgs...)
 }
 
 // Positive asserts that the specified element is positive
@@ -348,7 +348,7 @@ func LessOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...inter
 //    assert.Positive(t, 1.23)
 func Positive(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
 	zero := reflect.Zero(reflect.TypeOf(e))
-	return compareTwoValues(t, e, zero.Interface(), []compareType{compareGreater}, "\"%v\" is not positive", msgAndArgs)
+	return compareTwoValues(t, e, zero.Interface(), []compareType{compareGreater}, "\"%[1]v\" is not positive", msgAndArgs...)
 }
 
 // Negative asserts that the specified element is negative
@@ -357,7 +357,7 @@ func Positive(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
 //    assert.Negative(t, -1.23)
 func Negative(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
 	zero := reflect.Zero(reflect.TypeOf(e))
-	return compareTwoValues(t, e, zero.Interface(), []compareType{compareLess}, "\"%v\" is not negative", msgAndArgs)
+	return compareTwoValues(t, e, zero.Interface(), []compareType{compareLess}, "\"%[1]v\" is not negative", msgAndArgs...)
 }
 
 func compareTwoValues(t TestingT, e1 interface{}, e2 interface{}, allowedComparesResults []compareType, failMessage string, msgAndArgs ...interface{}) bool {
-- 
2.43.0


From 656418861c6d17bb63e5c9ec63aaf6a2bbe99e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 72/90] fix: InEpsilon and InEpsilonSlice show the message they
 were given

---
 assert/assert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assert/assert.go b/assert/assert.go
index 69b0f23..3fd10ed 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -634,7 +634,7 @@ func calcRelativeError(expected, actual interface{}) (float64, error) {
 // InEpsilon asserts that expected and actual have a relative error less than epsilon
 func InEpsilon(t TestingT, expected, actual interface{}, epsilon float64, msgAndArgs ...interface{}) bool {
 	if math.IsNaN(epsilon) {
-		return Fail(t, "epsilon must not be NaN")
+		return Fail(t, "epsilon must not be NaN", msgAndArgs...)
 	}
 	actualEpsilon, err := calcRelativeError(expected, actual)
 	if err != nil {
@@ -660,7 +660,7 @@ func InEpsilonSlice(t TestingT, expected, actual interface{}, epsilon float64, m
 	expectedSlice := reflect.ValueOf(expected)
 
 	for i := 0; i < actualSlice.Len(); i++ {
-		result := InEpsilon(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), epsilon)
+		result := InEpsilon(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), epsilon, msgAndArgs...)
 		if !result {
 			return result
 		}
-- 
2.43.0


From 63683c3e8f6f05f6923a805ec54376d664d3848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 73/90] fix: Slices of different length are not close to each
 other

---
 assert/assert.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/assert/assert.go b/assert/assert.go
index 3fd10ed..e454cfb 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -558,6 +558,10 @@ func InDeltaSlice(t TestingT, expected, actual interface{}, delta float64, msgAn
 	actualSlice := reflect.ValueOf(actual)
 	expectedSlice := reflect.ValueOf(expected)
 
+	if actualSlice.Len() != expectedSlice.Len() {
+		return Fail(t, "Parameters must have the same length", msgAndArgs...)
+	}
+
 	for i := 0; i < actualSlice.Len(); i++ {
 		result := InDelta(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), delta, msgAndArgs...)
 		if !result {
@@ -659,6 +663,10 @@ func InEpsilonSlice(t TestingT, expected, actual interface{}, epsilon float64, m
 	actualSlice := reflect.ValueOf(actual)
 	expectedSlice := reflect.ValueOf(expected)
 
+	if actualSlice.Len() != expectedSlice.Len() {
+		return Fail(t, "Parameters must have the same length", msgAndArgs...)
+	}
+
 	for i := 0; i < actualSlice.Len(); i++ {
 		result := InEpsilon(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), epsilon, msgAndArgs...)
 		if !result {
-- 
2.43.0


From f15ed469c60133368f14b0200264e09e16fbee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 74/90] fix: InEpsilonSlice mixes up the expected and the
 actual items

---
 assert/assert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assert/assert.go b/assert/assert.go
index e454cfb..5e94300 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -563,7 +563,7 @@ func InDeltaSlice(t TestingT, expected, actual interface{}, delta float64, msgAn
 	}
 
 	for i := 0; i < actualSlice.Len(); i++ {
-		result := InDelta(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), delta, msgAndArgs...)
+		result := InDelta(t, expectedSlice.Index(i).Interface(), actualSlice.Index(i).Interface(), delta, msgAndArgs...)
 		if !result {
 			return result
 		}
@@ -668,7 +668,7 @@ func InEpsilonSlice(t TestingT, expected, actual interface{}, epsilon float64, m
 	}
 
 	for i := 0; i < actualSlice.Len(); i++ {
-		result := InEpsilon(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), epsilon, msgAndArgs...)
+		result := InEpsilon(t, expectedSlice.Index(i).Interface(), actualSlice.Index(i).Interface(), epsilon, msgAndArgs...)
 		if !result {
 			return result
 		}
-- 
2.43.0


From 580965af5c175c7ff55254658f6b70ba9361d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 75/90] fix: A failure with a long line is shown without its
 text

---
 assert/assert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/assert/assert.go b/assert/assert.go
index 5e94300..af83b9b 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -173,7 +173,9 @@ func messageFromMsgAndArgs(msgAndArgs ...interface{}) string {
 func indentMessageLines(message string, longestLabelLen int) string {
 	outBuf := new(bytes.Buffer)
 
-	for i, scanner := 0, bufio.NewScanner(strings.NewReader(message)); scanner.Scan(); i++ {
+	scanner := bufio.NewScanner(strings.NewReader(message))
+	scanner.Buffer(nil, len(message)+1) // no line is too long
+	for i := 0; scanner.Scan(); i++ {
 		// no need to align first line because it starts at the correct location (after the label)
 		if i != 0 {
 			// append alignLen+1 spaces to align with "{{longestLabel}}:" before adding tab
-- 
2.43.0


From b8dfb538b0e20abccf2ac8228cd0b997667acb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 76/90] fix: The last error of the writer of a diff gets lost

---
 assert/difflib/difflib.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/assert/difflib/difflib.go b/assert/difflib/difflib.go
index 7f9df22..6e28b1e 100644
--- a/assert/difflib/difflib.go
+++ b/assert/difflib/difflib.go
@@ -480,7 +480,6 @@ func formatRangeUnified(start, stop int) string {
 // The modification times are normally expressed in the ISO 8601 format.
 func WriteUnifiedDiff(writer io.Writer, a, b []string) error {
 	buf := bufio.NewWriter(writer)
-	defer buf.Flush()
 	wf := func(format string, args ...interface{}) error {
 		_, err := buf.WriteString(fmt.Sprintf(format, args...))
 		return err
@@ -536,7 +535,7 @@ func WriteUnifiedDiff(writer io.Writer, a, b []string) error {
 			}
 		}
 	}
-	return nil
+	return buf.Flush()
 }
 
 // GetUnifiedDiffString is Like WriteUnifiedDiff but returns the diff a string.
-- 
2.43.0


From 5b4a48d134018a9d28b33eed5d9b9e7079f2dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 77/90] fix: Unreadable variables are only an error for the
 first field that uses them

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 2e47a3b..263c0f0 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1094,7 +1094,6 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 			return false, false, false
 		}
 
-		ctx.variablesParsed = true
 		var err error
 		ctx.variables, err = ctx.variablesJSONParser.Parse(ctx.rawVariables)
 		if err != nil {
@@ -1103,6 +1102,7 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 		if ctx.variables.Type() != fastjson.TypeObject {
 			return false, false, ctx.err("variables provided must be of type object")
 		}
+		ctx.variablesParsed = true
 	}
 
 	variable := ctx.variables.Get(argumentName)
-- 
2.43.0


From 90929be690cf0de841cce7b397aecca29b5e155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 78/90] fix: assert.Panics does not see a panic with nil

---
 assert/assert.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/assert/assert.go b/assert/assert.go
index af83b9b..81432ac 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -455,20 +455,21 @@ func NotEqual(t TestingT, expected, actual interface{}, msgAndArgs ...interface{
 
 // didPanic returns true if the function passed to it panics. Otherwise, it returns false.
 func didPanic(f func()) (bool, interface{}, string) {
-	didPanic := false
+	didPanic := true
 	var message interface{}
 	var stack string
 	func() {
 
 		defer func() {
-			if message = recover(); message != nil {
-				didPanic = true
+			message = recover() // can be nil even if f panics
+			if didPanic {
 				stack = string(debug.Stack())
 			}
 		}()
 
 		// call the target function
 		f()
+		didPanic = false
 
 	}()
 
-- 
2.43.0


From d31a3e6a027f5d4f3614fb5287e056d7c05f1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 79/90] fix: accept every unsigned integer as variable, not
 only the ones that fit in a int64

---
 resolver.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resolver.go b/resolver.go
index 263c0f0..05ddd80 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1304,6 +1304,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		} else {
 			intVal, err := jsonData.Int64()
 			if err != nil {
+				switch goValueKind {
+				case reflect.Uint, reflect.Uint64:
+					// A unsigned integer can hold values that do not fit in a int64
+					uintVal, uintErr := jsonData.Uint64()
+					if uintErr == nil && !goValue.OverflowUint(uintVal) {
+						goValue.SetUint(uintVal)
+						return true, false
+					}
+				}
 				return false, ctx.err(err.Error())
 			}
 			switch goValueKind {
-- 
2.43.0


From b69c8e4ae5d41e0ccf447c9017e1b099875a62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 80/90] fix: accept every unsigned number as ID, the ones that
 don't fit in a int64 could be responded but not be used

---
 resolver.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/resolver.go b/resolver.go
index 05ddd80..031b113 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1189,17 +1189,14 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				goValue.SetInt(int64(intValue))
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				intValue, err := strconv.Atoi(stringValue)
+				uintValue, err := parseUintID(stringValue)
 				if err != nil {
-					return false, ctx.err("id argument must match a number type")
-				}
-				if intValue < 0 {
-					return false, ctx.err("id argument must match a number above 0")
+					return false, ctx.err(err.Error())
 				}
-				if goValue.OverflowUint(uint64(intValue)) {
+				if goValue.OverflowUint(uintValue) {
 					return false, ctx.err("id argument doesn't fit in the number type")
 				}
-				goValue.SetUint(uint64(intValue))
+				goValue.SetUint(uintValue)
 				valueSet = true
 			default:
 				return false, ctx.err("internal error: cannot assign to this ID field")
@@ -1384,6 +1381,24 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	return valueSet, false
 }
 
+// parseUintID parses a ID that is stored in a unsigned integer
+func parseUintID(id string) (uint64, error) {
+	intValue, err := strconv.ParseInt(id, 10, 64)
+	if err == nil {
+		if intValue < 0 {
+			return 0, errors.New("id argument must match a number above 0")
+		}
+		return uint64(intValue), nil
+	}
+
+	// A unsigned integer can hold values that do not fit in a int64
+	uintValue, err := strconv.ParseUint(id, 10, 64)
+	if err != nil {
+		return 0, errors.New("id argument must match a number type")
+	}
+	return uintValue, nil
+}
+
 func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *input, stringValue string) bool {
 	if valueStructure.isEnum {
 		enum := ctx.schema.definedEnums[valueStructure.enumTypeIndex]
@@ -1418,17 +1433,14 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 			}
 			goValue.SetInt(int64(intValue))
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			intValue, err := strconv.Atoi(stringValue)
+			uintValue, err := parseUintID(stringValue)
 			if err != nil {
-				return ctx.err("id argument must match a number type")
-			}
-			if intValue < 0 {
-				return ctx.err("id argument must match a number above 0")
+				return ctx.err(err.Error())
 			}
-			if goValue.OverflowUint(uint64(intValue)) {
+			if goValue.OverflowUint(uintValue) {
 				return ctx.err("id argument doesn't fit in the number type")
 			}
-			goValue.SetUint(uint64(intValue))
+			goValue.SetUint(uintValue)
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
 		}
-- 
2.43.0


From ac582fd638883fa79a9c016616098f71c7c498c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:50 +0000
Subject: [PATCH 81/90] fix: strings with a surrogate pair of unicode escapes
 had 2 replacement characters instead of the character

---
 bytecode/bytecode.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 54a3cf6..6742232 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1129,7 +1129,17 @@ mainLoop:
 				// 	ctx.res = append(ctx.res, res[1])
 				// }
 
-				r := utf16.Decode([]uint16{uint16(res[1]) | (uint16(res[0]) << 8)})[0]
+				unit := uint16(res[1]) | (uint16(res[0]) << 8)
+				r := utf16.Decode([]uint16{unit})[0]
+				if utf16.IsSurrogate(rune(unit)) {
+					// Characters outside of the basic multilingual plane are written as 2 escapes, for example: \uD83D\uDE00
+					secondUnit, isEscape := ctx.unicodeEscapeAt(ctx.charNr + 1)
+					pair := utf16.DecodeRune(rune(unit), secondUnit)
+					if isEscape && pair != utf8.RuneError {
+						r = pair
+						ctx.charNr += 6
+					}
+				}
 
 				// hex.Decode above only writes to the first and second byte
 				res[0] = 0
@@ -1148,6 +1158,16 @@ mainLoop:
 	}
 }
 
+// unicodeEscapeAt returns the value of the \uXXXX escape at nr if there is one
+func (ctx *ParserCtx) unicodeEscapeAt(nr int) (unit rune, isEscape bool) {
+	if ctx.eof(nr+5) || ctx.c(nr) != '\\' || ctx.c(nr+1) != 'u' {
+		return 0, false
+	}
+	res := make([]byte, 2)
+	_, err := hex.Decode(res, ctx.Query[nr+2:nr+6])
+	return rune(res[0])<<8 | rune(res[1]), err == nil
+}
+
 //
 // ITERATOR HELPERS
 //
-- 
2.43.0


From 9762ffac62aff688c39dc9018d6aa6f740adc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 82/90] fix: inline fragments without a type condition were
 refused as malformed

---
 bytecode/bytecode.go              | 9 +++++++--
 bytecode/bytecode_instructions.go | 1 +
 resolver.go                       | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 6742232..acf6b1a 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -496,17 +496,22 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 
 			if ctx.matches("...") == 0 {
 				// Is pointer to fragment or inline fragment
-				_, eof := ctx.mightIgnoreNextTokens()
+				c, eof := ctx.mightIgnoreNextTokens()
 				if eof {
 					return ctx.unexpectedEOF()
 				}
 
 				isInline := ctx.matchesWord("on") == 0
+				// The type condition of an inline fragment can be left out
+				noTypeCondition := false
 				if isInline {
 					_, eof := ctx.mightIgnoreNextTokens()
 					if eof {
 						return ctx.unexpectedEOF()
 					}
+				} else if c == '{' || c == '@' {
+					isInline = true
+					noTypeCondition = true
 				}
 
 				ctx.instructionNewFragmentSpread(isInline)
@@ -522,7 +527,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 					return ctx.unexpectedEOF()
 				}
 
-				if nameLen == 0 {
+				if nameLen == 0 && !noTypeCondition {
 					if isInline {
 						return ctx.err(`expected fragment type name but got char: "` + string(c) + `"`)
 					}
diff --git a/bytecode/bytecode_instructions.go b/bytecode/bytecode_instructions.go
index 3b50691..550f41c 100644
--- a/bytecode/bytecode_instructions.go
+++ b/bytecode/bytecode_instructions.go
@@ -127,6 +127,7 @@ func (ctx *ParserCtx) instructionNewField() {
 //
 // additional required append:
 // [Typename or Fragment Name]
+// The type name is empty if the inline fragment has no type condition
 func (ctx *ParserCtx) instructionNewFragmentSpread(isInline bool) {
 	if isInline {
 		ctx.Res = append(ctx.Res, 0, ActionSpread, 't', 0, 0, 0, 0, 0)
diff --git a/resolver.go b/resolver.go
index 031b113..750bdc7 100644
--- a/resolver.go
+++ b/resolver.go
@@ -465,7 +465,8 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	}
 
 	if isInline {
-		if !typeObj.matchesTypeCondition(name) {
+		// Without a type condition the fragment is always used
+		if nameLen != 0 && !typeObj.matchesTypeCondition(name) {
 			ctx.charNr = nameStart + int(lenOfDirective) + 1
 			return false
 		}
-- 
2.43.0


From b5df5b6ee4916ca8645d50192018cda6f0a7541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 83/90] fix: names that only start with query, mutation,
 subscription, fragment or on were accepted as these keywords

---
 bytecode/bytecode.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index acf6b1a..a9b3b2e 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -112,7 +112,7 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 			ctx.TargetIdx = operationStartsAt
 		}
 		ctx.instructionNewOperation(OperatorQuery)
-	} else if matches := ctx.matches("query", "mutation", "subscription"); matches != -1 {
+	} else if matches := ctx.matchesWord("query", "mutation", "subscription"); matches != -1 {
 		// Set the operation kind
 		if !ctx.hasTarget {
 			ctx.TargetIdx = operationStartsAt
@@ -177,7 +177,7 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 		if c != '{' {
 			return ctx.err(`expected selection set opener ("{") but got "` + string(c) + `"`)
 		}
-	} else if matches := ctx.matches("fragment"); matches != -1 {
+	} else if matches := ctx.matchesWord("fragment"); matches != -1 {
 		ctx.FragmentLocations = append(ctx.FragmentLocations, len(ctx.Res)+1)
 		ctx.instructionNewFragment()
 
@@ -211,6 +211,13 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 			return ctx.err(`expected "on" keyword but got "` + string(c) + `"`)
 		}
 		ctx.charNr++
+		c, eof = ctx.checkC(ctx.charNr)
+		if eof {
+			return ctx.unexpectedEOF()
+		}
+		if isNameChar(c) {
+			return ctx.err(`expected "on" keyword but got "on` + string(c) + `"`)
+		}
 
 		// Parse fragment target type name
 		_, eof = ctx.mightIgnoreNextTokens()
@@ -1261,6 +1268,11 @@ func (ctx *ParserCtx) parseComment() {
 	}
 }
 
+// isNameChar returns true if c can be part of a name
+func isNameChar(c byte) bool {
+	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
+}
+
 func (ctx *ParserCtx) matchesWord(oneOf ...string) int {
 	startIdx := ctx.charNr
 
@@ -1272,7 +1284,7 @@ func (ctx *ParserCtx) matchesWord(oneOf ...string) int {
 	if eof {
 		return matches
 	}
-	if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
+	if isNameChar(c) {
 		ctx.charNr = startIdx
 		return -1
 	}
-- 
2.43.0


From 344b1a2fe77e79362fdddb38bdf922e51dc6bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:05 +0000
Subject: [PATCH 84/90] fix: numbers without digits and exponents without
 digits were accepted

---
 bytecode/bytecode.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index a9b3b2e..8d5dc6c 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -884,6 +884,7 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 	startOfInt := len(ctx.Res)
 
 	valueTypeAt := len(ctx.Res) - 5
+	hasDigits := false
 
 	var eof bool
 	c := ctx.currentC()
@@ -905,11 +906,14 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 	// Parse the first set of numbers (the 123 of +123.456e78)
 	for {
 		if c >= '0' && c <= '9' {
+			hasDigits = true
 			ctx.Res = append(ctx.Res, c)
 		} else if c == '.' || c == 'e' || c == 'E' {
 			break
 		} else if c == '_' {
 			// Ignore this char
+		} else if !hasDigits {
+			return ctx.err(`expected a digit but got "` + string(c) + `"`)
 		} else if isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' {
 			// End of number
 			ctx.writeUint32(uint32(len(ctx.Res)-startOfInt), startOfInt-4)
@@ -937,6 +941,7 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 			}
 
 			if c >= '0' && c <= '9' {
+				hasDigits = true
 				ctx.Res = append(ctx.Res, c)
 			} else if c == 'e' || c == 'E' {
 				break
@@ -945,6 +950,8 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 			} else if c == '.' {
 				// isPunctuator(c) returns . on this char but from here those are not allowed
 				return ctx.err(`unexpected character in float value, char: "` + string(c) + `"`)
+			} else if !hasDigits {
+				return ctx.err(`expected a digit but got "` + string(c) + `"`)
 			} else if isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' {
 				// End of number
 				ctx.writeUint32(uint32(len(ctx.Res)-startOfInt), startOfInt-4)
@@ -957,6 +964,10 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 
 	// Parse the exponent (the 78 of +123.456e78)
 	if c == 'e' || c == 'E' {
+		if !hasDigits {
+			return ctx.err(`expected a digit but got "` + string(c) + `"`)
+		}
+		hasDigits = false
 		ctx.Res[valueTypeAt] = ValueFloat
 		ctx.Res = append(ctx.Res, 'E')
 
@@ -978,6 +989,7 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 
 		for {
 			if c >= '0' && c <= '9' {
+				hasDigits = true
 				ctx.Res = append(ctx.Res, c)
 			} else if c == 'e' || c == 'E' || c == '.' {
 				// isPunctuator(c) returns . on this char but from here those are not allowed
@@ -985,6 +997,8 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 				return ctx.err(`unexpected character in float value, char: "` + string(c) + `"`)
 			} else if c == '_' {
 				// Ignore this char
+			} else if !hasDigits {
+				return ctx.err(`expected a digit but got "` + string(c) + `"`)
 			} else if isPunctuator(c) || ctx.isIgnoredToken(c) || c == ',' {
 				// End of number
 				break
-- 
2.43.0


From e6dd7d9a4b055903a0e988170d2f0f1103eae922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 85/90] fix: variables inside of default values were accepted
 as long as the default was not used

---
 bytecode/bytecode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 8d5dc6c..8837740 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -25,6 +25,7 @@ type ParserCtx struct {
 	Hasher               hash.Hash32
 	cache                *cache.BytecodeCache
 	CacheableQueryMinLen int // Default = 300
+	inDefaultValue       bool
 	nesting              int // current nesting of selection sets, values and types
 }
 
@@ -345,7 +346,9 @@ func (ctx *ParserCtx) parseOperatorArgument() bool {
 			return ctx.unexpectedEOF()
 		}
 
+		ctx.inDefaultValue = true
 		criticalErr = ctx.parseInputValue()
+		ctx.inDefaultValue = false
 		if criticalErr {
 			return criticalErr
 		}
@@ -776,6 +779,9 @@ func (ctx *ParserCtx) parseInputValue() bool {
 	}
 
 	if c == '$' {
+		if ctx.inDefaultValue {
+			return ctx.err("variables are not allowed in default values")
+		}
 		ctx.charNr++
 		_, eof = ctx.mightIgnoreNextTokens()
 		if eof {
-- 
2.43.0


From aa369db5c7d4a52b7b70cd09faf5565a0ff5d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 86/90] fix: a schema that was parsed before, also without
 success, is parsed from scratch

---
 parse.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parse.go b/parse.go
index cb65772..a6ebc1c 100644
--- a/parse.go
+++ b/parse.go
@@ -330,6 +330,22 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		return errors.New("input methods must be a struct")
 	}
 
+	// Forget what an earlier call has collected, it might have failed before everything was checked
+	s.parsed = false
+	s.types = types{}
+	s.inTypes = inputMap{}
+	s.interfaces = types{}
+	s.graphqlTypesMap = nil
+	s.graphqlTypesList = nil
+	s.graphqlObjFields = map[string][]qlField{}
+	for _, directives := range s.definedDirectives {
+		for _, directive := range directives {
+			directive.parsedMethod.ins = []baseInput{}
+			directive.parsedMethod.inFields = map[string]referToInput{}
+			directive.parsedMethod.checkedIns = false
+		}
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
-- 
2.43.0


From 3db043db93986a3f1ce39c824a0e1db15d1a7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:58 +0000
Subject: [PATCH 87/90] fix: a value that starts like true or false is not
 searched for up to the end of the query

---
 bytecode/bytecode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 8837740..3680eab 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1337,8 +1337,6 @@ func (ctx *ParserCtx) matches(oneOf ...string) int {
 		}
 	}
 
-	lastChecked := ""
-
 	for {
 		c, eof := ctx.checkC(ctx.charNr)
 		if eof {
@@ -1347,6 +1345,9 @@ func (ctx *ParserCtx) matches(oneOf ...string) int {
 		}
 		offset := ctx.charNr - startIdx
 
+		// Must be reset for every character, otherwise the whole query is read if none of the words matches
+		lastChecked := ""
+
 		for idx, key := range oneOf {
 			keyLen := len(key)
 			if offset < keyLen {
-- 
2.43.0


From b5623adec75c9ee6321960a48673b7b05f22ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:35 +0000
Subject: [PATCH 88/90] fix: the errors of a request are not overwritten by the
 next request

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 3680eab..a758f8b 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -62,7 +62,7 @@ func (ctx *ParserCtx) ParseQueryToBytecode(target *string) {
 		Res:                  ctx.Res[:0],
 		FragmentLocations:    ctx.FragmentLocations[:0],
 		Query:                ctx.Query,
-		Errors:               ctx.Errors[:0],
+		Errors:               []error{},
 		target:               target,
 		hasTarget:            target != nil && len(*target) > 0,
 		TargetIdx:            -1,
-- 
2.43.0


From 9fe913984feb93f4e8d7db83ea721d9b3d82b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 89/90] fix: the start of the validation in a trace is relative
 to the start of the request

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 750bdc7..ca9d15d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -225,7 +225,7 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		})
 
 		// Set the validation prop
-		ctx.tracing.Validation.StartOffset = time.Now().Sub(ctx.prefRecordingStartTime).Nanoseconds()
+		ctx.tracing.Validation.StartOffset = time.Since(ctx.tracing.GoStartTime).Nanoseconds()
 	}
 
 	if !opts.NoMeta {
-- 
2.43.0


From d2365814a8e581f7c2982cfcab2dae221cd9ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:34 +0000
Subject: [PATCH 90/90] fix: escaped triple quotes do not end a block string

---
 bytecode/bytecode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index a758f8b..b23ef36 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1119,6 +1119,13 @@ mainLoop:
 				return ctx.unexpectedEOF()
 			}
 
+			if isBlock && ctx.matches(`"""`) == 0 {
+				// The only way to write triple quotes in a block string
+				ctx.Res = append(ctx.Res, `"""`...)
+				ctx.charNr--
+				continue
+			}
+
 			switch c {
 			case 0:
 				// TODO add support for this
-- 
2.43.0

