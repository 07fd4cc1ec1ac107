From 1a7e6bc19bc316ac9a042fa1196025b4918753f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 01/17] fix: conditions of sibling conditionals no longer share
 a slice when nested deeply

---
 element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element.go b/element.go
index 3393d73..7cfd572 100644
--- a/element.go
+++ b/element.go
@@ -251,7 +251,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From 858d0bce7ce7267a99b5beb75fe3705b4d6e3f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 02/17] fix: merging delimited attributes no longer alters the
 attribute nodes given

---
 attribute.go | 12 ++++++++++++
 element.go   |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/attribute.go b/attribute.go
index 53bb020..aeea090 100644
--- a/attribute.go
+++ b/attribute.go
@@ -132,6 +132,18 @@ func (a *delimitedAttribute) getValues() []Value {
 	return a.values
 }
 
+// merged returns a new delimited attribute that also has the values of the other (neither is altered)
+func (a *delimitedAttribute) merged(other *delimitedAttribute) *delimitedAttribute {
+	values := make([]Value, 0, len(a.values)+len(other.values))
+	values = append(values, a.values...)
+	values = append(values, other.values...)
+	return &delimitedAttribute{
+		name:      a.name,
+		delimiter: a.delimiter,
+		values:    values,
+	}
+}
+
 // DelimitedAttribute creates a new delimited attribute Node
 //
 // examples of delimited attributes are Class() and Style()
diff --git a/element.go b/element.go
index 7cfd572..e98f687 100644
--- a/element.go
+++ b/element.go
@@ -88,7 +88,7 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merged(addD)
 					continue
 				}
 			}
@@ -154,7 +154,7 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merged(addD)
 					continue
 				}
 			}
-- 
2.43.0


From 36a12a236aff18ace3fd1dfdfb0b48037e144768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 03/17] fix: attributes of an element with conditional
 attributes are written in declared order

---
 element.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/element.go b/element.go
index e98f687..e62d596 100644
--- a/element.go
+++ b/element.go
@@ -8,9 +8,8 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 	if len(conditionals) > 0 {
 		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
-				if eAttr, ok := evaluated[name]; ok {
+			for _, attr := range attributes {
+				if eAttr, ok := evaluated[attr.Name()]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
 						use.name = at.name
@@ -30,7 +29,10 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					_ = attr.Render(ctx)
 				}
 			}
-			for name, ca := range evaluated {
+			for _, c := range conditionals {
+				name := c.attribute.Name()
+				ca := evaluated[name]
+				delete(evaluated, name)
 				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
 					first := ca[0]
 					switch at := first.(type) {
-- 
2.43.0


From db0b9386af2449f0320af45e7232f977097110b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 04/17] fix: attributes under nested conditions keep the order
 in which they are given

---
 conditional.go | 3 +++
 element.go     | 8 +-------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/conditional.go b/conditional.go
index 580f1bb..68d01dd 100644
--- a/conditional.go
+++ b/conditional.go
@@ -10,6 +10,7 @@ type ConditionalFunc func(ctx *context.Context) bool
 type conditional struct {
 	nodes      []Node
 	attributes []Node
+	declared   []Node // nodes and attributes in the order given
 	fn         ConditionalFunc
 }
 
@@ -69,9 +70,11 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 	result := &conditional{
 		nodes:      make([]Node, 0, len(nodes)),
 		attributes: make([]Node, 0, len(nodes)),
+		declared:   make([]Node, 0, len(nodes)),
 		fn:         fn,
 	}
 	for _, n := range nodes {
+		result.declared = append(result.declared, n)
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
 		} else {
diff --git a/element.go b/element.go
index e62d596..6c7be5c 100644
--- a/element.go
+++ b/element.go
@@ -254,13 +254,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
 					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
-					for _, a := range cn.attributes {
-						condAttrs = append(condAttrs, conditionalAttribute{
-							attribute:  a,
-							conditions: newConditions,
-						})
-					}
-					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
+					_, addCa, _ := attributesAndContents(newConditions, cn.declared)
 					condAttrs = append(condAttrs, addCa...)
 				}
 			}
-- 
2.43.0


From 99f9b51c2f643bb972d77c03312866d0ec82503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 05/17] fix: values rendered through their String method are
 HTML escaped

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index c499054..f0d4d55 100644
--- a/value.go
+++ b/value.go
@@ -157,7 +157,7 @@ func valueToBytes(v any) []byte {
 	case float64:
 		return []byte(strconv.FormatFloat(vt, 'g', -1, 64))
 	case fmt.Stringer:
-		return []byte(vt.String())
+		return htmlEscapeString(vt.String())
 	case func() any:
 		return valueToBytes(vt())
 	}
-- 
2.43.0


From ed7c8c2928dbb650dd0f96cd095102daa381748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 06/17] fix: css units no longer write into the spare capacity
 of the argument slice

---
 css/units.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..936323b 100644
--- a/css/units.go
+++ b/css/units.go
@@ -22,75 +22,75 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPx)...)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPt)...)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPc)...)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitInch)...)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitCm)...)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitMm)...)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitEm)...)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitRem)...)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitPercent)...)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVw)...)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVh)...)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVmin)...)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitVmax)...)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitCh)...)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unitEx)...)
 }
-- 
2.43.0


From a6e7159eecad44c45ffb6d10c9519da1b0986f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 07/17] fix: imperative Start no longer appends to the values
 of an attribute node

---
 imperative.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imperative.go b/imperative.go
index 45fcf7c..f5426d2 100644
--- a/imperative.go
+++ b/imperative.go
@@ -86,6 +86,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 			if idx, ok := attIndices[attr.Name()]; ok {
 				if da, ok := attr.(*delimitedAttribute); ok {
 					avs := attValues[idx]
+					avs = avs[:len(avs):len(avs)] // may be the values of an attribute node - must not be appended to in place
 					for _, dv := range da.values {
 						if len(avs) > 0 {
 							avs = append(avs, Value{value: da.delimiter})
-- 
2.43.0


From 9a933c4c895913f2094e5e78ad03f2ba1b5dfc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:14 +0000
Subject: [PATCH 08/17] fix: the first error met while rendering is kept,
 reported and stops the output

---
 collection.go  | 19 ++++++++++++++++---
 conditional.go |  4 ++--
 element.go     | 10 +++++-----
 imperative.go  | 10 ++++++----
 iterate.go     | 11 +++++++----
 value.go       | 11 +++++++----
 6 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/collection.go b/collection.go
index 69243c3..bf085c4 100644
--- a/collection.go
+++ b/collection.go
@@ -11,8 +11,8 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
-				return ctx.Error
+			if err := renderNode(ctx, n); err != nil {
+				return err
 			}
 		}
 	}
@@ -40,14 +40,27 @@ func Collection(nodes ...Node) Node {
 	return result
 }
 
+// renderNode renders the node, unless an error has already occurred, and keeps the first error in the context
+func renderNode(ctx *context.Context, n Node) error {
+	if ctx.Error == nil {
+		if err := n.Render(ctx); ctx.Error == nil {
+			ctx.Error = err
+		}
+	}
+	return ctx.Error
+}
+
 type contentCollector struct {
 	collector func(ctx *context.Context) []Node
 }
 
 func (c *contentCollector) Render(ctx *context.Context) error {
+	if ctx.Error != nil {
+		return ctx.Error
+	}
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			_ = renderNode(ctx, n)
 		}
 	}
 	return ctx.Error
diff --git a/conditional.go b/conditional.go
index 68d01dd..b3de960 100644
--- a/conditional.go
+++ b/conditional.go
@@ -42,9 +42,9 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node
 }
 
 func (c *conditional) Render(ctx *context.Context) error {
-	if c.fn(ctx) {
+	if ctx.Error == nil && c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if err := renderNode(ctx, n); err != nil {
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 6c7be5c..33bb9d7 100644
--- a/element.go
+++ b/element.go
@@ -23,10 +23,10 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = eAttr[len(eAttr)-1].Render(ctx)
+						_ = renderNode(ctx, eAttr[len(eAttr)-1])
 					}
 				} else {
-					_ = attr.Render(ctx)
+					_ = renderNode(ctx, attr)
 				}
 			}
 			for _, c := range conditionals {
@@ -48,7 +48,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 						}
 						_ = use.Render(ctx)
 					default:
-						_ = ca[len(ca)-1].Render(ctx)
+						_ = renderNode(ctx, ca[len(ca)-1])
 					}
 				}
 			}
@@ -56,7 +56,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 		}
 	}
 	for _, attr := range attributes {
-		_ = attr.Render(ctx)
+		_ = renderNode(ctx, attr)
 	}
 }
 
@@ -133,7 +133,7 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		_ = renderNode(ctx, c)
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
diff --git a/imperative.go b/imperative.go
index f5426d2..19310b1 100644
--- a/imperative.go
+++ b/imperative.go
@@ -36,10 +36,12 @@ type imperative struct {
 }
 
 func (i *imperative) Render(ctx *context.Context) (err error) {
-	if i.fn != nil {
-		err = i.fn(&imperativeContext{ctx: ctx})
+	if i.fn != nil && ctx.Error == nil {
+		if err = i.fn(&imperativeContext{ctx: ctx}); ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
-	return
+	return ctx.Error
 }
 
 func (i *imperative) Type() NodeType {
@@ -70,7 +72,7 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			_ = renderNode(ic.ctx, node)
 		}
 	}
 }
diff --git a/iterate.go b/iterate.go
index 6a300d8..ab66c37 100644
--- a/iterate.go
+++ b/iterate.go
@@ -77,7 +77,7 @@ func (i *iterator) Render(ctx *context.Context) error {
 	if ctx.Error != nil {
 		return ctx.Error
 	}
-	if items := i.fn(ctx); len(items) > 0 {
+	if items := i.fn(ctx); ctx.Error == nil && len(items) > 0 {
 		ictx := &context.Context{
 			Error:  ctx.Error,
 			Writer: ctx.Writer,
@@ -91,14 +91,14 @@ func (i *iterator) Render(ctx *context.Context) error {
 				ictx.Data = ctx.Data
 			}
 			for _, n := range i.nodes {
-				if err := n.Render(ictx); err != nil {
+				if err := renderNode(ictx, n); err != nil {
 					ctx.Error = err
 					return err
 				}
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,12 +152,15 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		if ctx.Error != nil {
+			return
+		}
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
 		}
 		for _, n := range i.nodes {
-			if err := n.Render(ictx); err != nil {
+			if err := renderNode(ictx, n); err != nil {
 				ctx.Error = err
 				return
 			}
diff --git a/value.go b/value.go
index f0d4d55..2269508 100644
--- a/value.go
+++ b/value.go
@@ -33,14 +33,17 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
+	if ctx.Error != nil {
+		return false, ctx.Error
+	}
 	var l int
 	if v.dynamicFunc != nil {
-		data := v.dynamicFunc(ctx)
-		l, ctx.Error = ctx.Writer.Write(data)
+		if data := v.dynamicFunc(ctx); ctx.Error == nil {
+			l, ctx.Error = ctx.Writer.Write(data)
+		}
 	} else if len(v.concats) > 0 {
-		var written bool
 		for _, concat := range v.concats {
-			if written, ctx.Error = concat.render(ctx); written {
+			if written, _ := concat.render(ctx); written {
 				l++
 			}
 		}
-- 
2.43.0


From f234fa20bedaf47eba70f6245f0d014fa7865355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 09/17] fix: IterateYield keeps the enclosing data for items
 that are not maps

---
 iterate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterate.go b/iterate.go
index ab66c37..daeaa15 100644
--- a/iterate.go
+++ b/iterate.go
@@ -158,6 +158,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
 			if err := renderNode(ictx, n); err != nil {
-- 
2.43.0


From adaf3c51b23de76e9da99b734047b8bd9b6e9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 10/17] fix: nil nodes are ignored by conditionals and
 iterations

---
 conditional.go | 3 +++
 iterate.go     | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conditional.go b/conditional.go
index b3de960..b002c43 100644
--- a/conditional.go
+++ b/conditional.go
@@ -74,6 +74,9 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		fn:         fn,
 	}
 	for _, n := range nodes {
+		if n == nil {
+			continue
+		}
 		result.declared = append(result.declared, n)
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
diff --git a/iterate.go b/iterate.go
index daeaa15..c014013 100644
--- a/iterate.go
+++ b/iterate.go
@@ -23,7 +23,7 @@ func Iterate(fn func(ctx *context.Context) []any, nodes ...Node) Node {
 		fn:    fn,
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -59,7 +59,7 @@ func IterateKey(key string, nodes ...Node) Node {
 		},
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -128,7 +128,7 @@ func IterateYield(fn func(ctx *context.Context, yield func(any)), nodes ...Node)
 		nodes: make([]Node, 0, len(nodes)),
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
-- 
2.43.0


From a3efd19cef01de31d5306f9e7c782da5521db5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 11/17] fix: context.Get no longer panics on named map keys,
 unexported fields and nil embedded pointers

---
 context/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..7df739b 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,7 +60,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
@@ -68,7 +68,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 			}
 		case reflect.Struct:
 			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0


From 8cad38b413a0cbd7f32793f2abb81418fcb6ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 12/17] fix: GenerateCode stops at the first failed write and
 reports its error

---
 html/generator.go | 47 ++++++++++++++++++++++++++---------------------
 svg/generator.go  | 43 ++++++++++++++++++++++++-------------------
 2 files changed, 50 insertions(+), 40 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..b9ca093 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -34,10 +34,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		return result
 	}
+	put := func(b []byte) {
+		if err == nil {
+			_, err = w.Write(b)
+		}
+	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		put(indent)
+		put([]byte(s))
+		put(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,40 +65,40 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		put(indent)
+		put([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			put([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				put([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
 				if boolAttrs[strings.ToLower(a.Key)] {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', ')'})
+					put([]byte(funcName(attr)))
+					put([]byte{'(', ')'})
 				} else {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', '"'})
-					_, err = w.Write([]byte(escape(a.Val)))
-					_, err = w.Write([]byte{'"', ')'})
+					put([]byte(funcName(attr)))
+					put([]byte{'(', '"'})
+					put([]byte(escape(a.Val)))
+					put([]byte{'"', ')'})
 				}
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				put([]byte(`aitch.Attribute("`))
+				put([]byte(a.Key))
+				put([]byte{'"', ' ', ',', '"'})
+				put([]byte(escape(a.Val)))
+				put([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			put([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			put([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		put([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..9a0e4bd 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -34,10 +34,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		return result
 	}
+	put := func(b []byte) {
+		if err == nil {
+			_, err = w.Write(b)
+		}
+	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		put(indent)
+		put([]byte(s))
+		put(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,35 +65,35 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		put(indent)
+		put([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			put([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				put([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
-				_, err = w.Write([]byte(funcName(attr)))
-				_, err = w.Write([]byte{'(', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				put([]byte(funcName(attr)))
+				put([]byte{'(', '"'})
+				put([]byte(escape(a.Val)))
+				put([]byte{'"', ')'})
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				put([]byte(`aitch.Attribute("`))
+				put([]byte(a.Key))
+				put([]byte{'"', ' ', ',', '"'})
+				put([]byte(escape(a.Val)))
+				put([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			put([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			put([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		put([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
-- 
2.43.0


From e5fa7d5459705b604c0931541d02293ef06fedef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 13/17] fix: GenerateCode quotes names, keys and all bytes of
 values as Go string literals

---
 html/generator.go | 11 +++++------
 svg/generator.go  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index b9ca093..ad6457f 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -53,17 +54,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		put(indent)
 		put([]byte(start))
@@ -87,7 +86,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				}
 			} else {
 				put([]byte(`aitch.Attribute("`))
-				put([]byte(a.Key))
+				put([]byte(escape(a.Key)))
 				put([]byte{'"', ' ', ',', '"'})
 				put([]byte(escape(a.Val)))
 				put([]byte{'"', ')'})
diff --git a/svg/generator.go b/svg/generator.go
index 9a0e4bd..0cb6e86 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -53,17 +54,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		put(indent)
 		put([]byte(start))
@@ -82,7 +81,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				put([]byte{'"', ')'})
 			} else {
 				put([]byte(`aitch.Attribute("`))
-				put([]byte(a.Key))
+				put([]byte(escape(a.Key)))
 				put([]byte{'"', ' ', ',', '"'})
 				put([]byte(escape(a.Val)))
 				put([]byte{'"', ')'})
-- 
2.43.0


From d52641fb9fc999a88be018019199bb2e9296c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:17 +0000
Subject: [PATCH 14/17] fix: GenerateCode closes exactly the elements opened
 (void elements, stray and missing end tags)

---
 html/generator.go | 39 ++++++++++++++++++++++++++++++++++++---
 svg/generator.go  | 19 +++++++++++++++++--
 2 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index ad6457f..f37ce16 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -18,6 +18,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	elemMap, attrMap, boolAttrs := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
+	opened := []string{} // names of the elements not yet closed
 	eof := false
 	var err error
 	nl := []byte{'\n'}
@@ -100,6 +101,14 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		put([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
+			opened = append(opened, name)
+		}
+	}
+	closeTo := func(depth int) {
+		for len(opened) > depth {
+			opened = opened[:len(opened)-1]
+			decIndent()
+			write("),")
 		}
 	}
 	write("var template = aitch.Collection(")
@@ -119,13 +128,18 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElems[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			token := tokenizer.Token()
+			for i := len(opened) - 1; i >= 0; i-- {
+				if opened[i] == token.Data {
+					closeTo(i)
+					break
+				}
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`html.Comment("` + escape(token.Data) + `"),`)
@@ -135,12 +149,31 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	if err == nil {
+		closeTo(0)
 		decIndent()
 		write(")\n")
 	}
 	return err
 }
 
+// voidElems are the names of the elements that have no end tag
+var voidElems = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index 0cb6e86..82e4a24 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -18,6 +18,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
+	opened := []string{} // names of the elements not yet closed
 	eof := false
 	var err error
 	nl := []byte{'\n'}
@@ -95,6 +96,14 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		put([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
+			opened = append(opened, name)
+		}
+	}
+	closeTo := func(depth int) {
+		for len(opened) > depth {
+			opened = opened[:len(opened)-1]
+			decIndent()
+			write("),")
 		}
 	}
 	write("var template = aitch.Collection(")
@@ -119,14 +128,20 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			token := tokenizer.Token()
+			for i := len(opened) - 1; i >= 0; i-- {
+				if opened[i] == token.Data {
+					closeTo(i)
+					break
+				}
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`svg.Comment("` + escape(token.Data) + `"),`)
 		}
 	}
 	if err == nil {
+		closeTo(0)
 		decIndent()
 		write(")\n")
 	}
-- 
2.43.0


From 224458968e6518b689b754ce52b2c214d0812483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 15/17] fix: html.GenerateCode keeps the values given to
 boolean attributes and the names data- and aria-

---
 html/generator.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index f37ce16..2dcba20 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -75,8 +75,9 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			if i > 0 {
 				put([]byte{',', ' '})
 			}
-			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
-				if boolAttrs[strings.ToLower(a.Key)] {
+			isBool := boolAttrs[strings.ToLower(a.Key)]
+			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok && (!isBool || a.Val == "") {
+				if isBool {
 					put([]byte(funcName(attr)))
 					put([]byte{'(', ')'})
 				} else {
@@ -286,7 +287,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"action":              Action,
 		"allowfullscreen":     AllowFullScreen,
 		"alt":                 Alt,
-		"aria-":               Aria,
 		"aria-atomic":         AriaAtomic,
 		"aria-busy":           AriaBusy,
 		"aria-checked":        AriaChecked,
@@ -328,7 +328,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"contenteditable":     ContentEditable,
 		"controls":            Controls,
 		"crossorigin":         CrossOrigin,
-		"data-":               Data,
 		"datetime":            DateTime,
 		"default":             Default,
 		"defer":               Defer,
-- 
2.43.0


From ac6d27b7a7265fcd475f77d3da6a29537c205892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 16/17] fix: svg.GenerateCode recognises the mixed case element
 and attribute names

---
 svg/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/svg/generator.go b/svg/generator.go
index 82e4a24..0938486 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -16,6 +16,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		w = os.Stdout
 	}
 	elemMap, attrMap := mappings()
+	elemMap, attrMap = lowerKeys(elemMap), lowerKeys(attrMap)
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
 	opened := []string{} // names of the elements not yet closed
@@ -148,6 +149,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// lowerKeys returns the mappings by names in lower case, as the tokenizer yields them
+func lowerKeys(m map[string]any) map[string]any {
+	result := make(map[string]any, len(m))
+	for k, v := range m {
+		result[strings.ToLower(k)] = v
+	}
+	return result
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From a271a52d25eb1d3c6b44a3879ccb85234a0a2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 17/17] fix: names holding letters that only unicode folds to
 ASCII were taken for known names by GenerateCode

---
 html/generator.go | 6 +++---
 svg/generator.go  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 2dcba20..a558cd7 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -60,7 +60,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
-		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
+		if elem, ok := elemMap[name]; ok {
 			start = funcName(elem) + "("
 		} else {
 			start = `aitch.Element("` + escape(name) + `", `
@@ -75,8 +75,8 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			if i > 0 {
 				put([]byte{',', ' '})
 			}
-			isBool := boolAttrs[strings.ToLower(a.Key)]
-			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok && (!isBool || a.Val == "") {
+			isBool := boolAttrs[a.Key]
+			if attr, ok := attrMap[a.Key]; ok && (!isBool || a.Val == "") {
 				if isBool {
 					put([]byte(funcName(attr)))
 					put([]byte{'(', ')'})
diff --git a/svg/generator.go b/svg/generator.go
index 0938486..93e145f 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -61,7 +61,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
-		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
+		if elem, ok := elemMap[name]; ok {
 			start = funcName(elem) + "("
 		} else {
 			start = `aitch.Element("` + escape(name) + `", `
@@ -76,7 +76,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			if i > 0 {
 				put([]byte{',', ' '})
 			}
-			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
+			if attr, ok := attrMap[a.Key]; ok {
 				put([]byte(funcName(attr)))
 				put([]byte{'(', '"'})
 				put([]byte(escape(a.Val)))
-- 
2.43.0

