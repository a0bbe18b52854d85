From d29692cead239a8d75cf9fbbb080c50083174998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 01/24] fix: keep the second word of the NOT LIKE and NOT IN
 operators

---
 soql/parser/core/expressions2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..830e884 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -30,6 +30,7 @@ func conditionalOperator() ParserFn {
 						),
 						wordBoundary(),
 					),
+					Concat,
 				),
 				Trans(
 					FlatGroup(
-- 
2.43.0


From eb4d3c5bb102bbedd3aaf49596368daf8bb3c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 02/24] fix: give AND precedence over OR on the right-hand side
 of a logical operator

---
 soql/parser/core/expressions2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 830e884..7f124f8 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -204,7 +204,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					Indirect(whereConditionExpressionInnerRoot),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -356,7 +356,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						Indirect(havingConditionExpressionInnerRoot),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-- 
2.43.0


From c22d9a48c319f8fdb15a6f61d3ae3711bb1cd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 03/24] fix: apply the NOT operator only to its own operand

---
 soql/parser/postprocess/normalize2.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index aabecba..17cbbdf 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -98,11 +98,28 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	return nil
 }
 
+// Get the start position of the operand that ends just before the position `end`.
+func conditionOperandStart(conditions []SoqlCondition, end int) int {
+	start := end
+	for n := 1; 0 < n && 0 < start; {
+		start--
+		switch conditions[start].Opcode {
+		case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Not:
+			// The number of required operands does not change.
+		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
+			n--
+		default:
+			n++
+		}
+	}
+	return start
+}
+
 func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
 	for i := 0; i < len(conditions); i++ {
 		switch conditions[i].Opcode {
 		case SoqlConditionOpcode_Not:
-			for j := 0; j < i; j++ {
+			for j := conditionOperandStart(conditions, i); j < i; j++ {
 				switch conditions[j].Opcode {
 				case SoqlConditionOpcode_And:
 					conditions[j].Opcode = SoqlConditionOpcode_Or
-- 
2.43.0


From 626990b90e54f6658ac1379623d93792fffce60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 04/24] fix: keep the partially filtered terms in the
 post-process filter

---
 soql/parser/postprocess/normalizeperobj.go | 40 ++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index f1c2d19..307ef81 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -246,17 +246,45 @@ func makePostProcessWhereClause(q *SoqlQuery) error {
 	postProcessWhere := make([]SoqlCondition, 0, len(q.Where))
 	postProcessWhere = append(postProcessWhere, q.Where...)
 
-	for i := 0; i < len(q.From); i++ {
-		for j := 0; j < len(q.From[i].PerObjectQuery.Where); j++ {
-			switch q.From[i].PerObjectQuery.Where[j].Opcode {
+	// Check if the entire term is filtered by the object.
+	isFiltered := func(perObjQuery *SoqlQuery, start, end int) bool {
+		if len(perObjQuery.Where) < end {
+			return false
+		}
+		for i := start; i < end; i++ {
+			switch perObjQuery.Where[i].Opcode {
 			case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Unknown:
-				// do nothing
-			default:
+				return false
+			}
+		}
+		return true
+	}
+
+	// Remove the terms of the top-level conjunction that are filtered by each object in advance.
+	// A term that is only partially filtered by an object needs to be evaluated again.
+	var removeFiltered func(end int)
+	removeFiltered = func(end int) {
+		start := conditionOperandStart(q.Where, end)
+
+		if start < end && q.Where[end-1].Opcode == SoqlConditionOpcode_And {
+			removeFiltered(conditionOperandStart(q.Where, end-1))
+			removeFiltered(end - 1)
+			return
+		}
+
+		for i := 0; i < len(q.From); i++ {
+			if isFiltered(q.From[i].PerObjectQuery, start, end) {
 				// The object is inner-joined.
-				postProcessWhere[j].Opcode = SoqlConditionOpcode_Noop
+				for j := start; j < end; j++ {
+					postProcessWhere[j].Opcode = SoqlConditionOpcode_Noop
+				}
+				break
 			}
 		}
 	}
+	if 0 < len(q.Where) {
+		removeFiltered(len(q.Where))
+	}
 
 	for sp, i := 0, 0; i < len(postProcessWhere); i++ {
 		switch postProcessWhere[i].Opcode {
-- 
2.43.0


From 45b1276b6b75e7114c0d1e019ae161f828cc04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 05/24] fix: do not set the update option for FOR VIEW and FOR
 REFERENCE

---
 soql/parser/core/expressions3.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions3.go b/soql/parser/core/expressions3.go
index 3bb1a46..ca5ac80 100644
--- a/soql/parser/core/expressions3.go
+++ b/soql/parser/core/expressions3.go
@@ -198,9 +198,7 @@ func forViewClause() ParserFn {
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 			astsLen := len(asts)
-			z := SoqlForClause{
-				Update: true,
-			}
+			z := SoqlForClause{}
 			for i := 0; i < astsLen; i++ {
 				v := strings.ToLower(asts[i].Value.(string))
 				switch v {
-- 
2.43.0


From b625a24c8b85c96f4440f9c3ebbffa0a80811f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 06/24] fix: do not take the FOR clause as an alias name of the
 object

---
 soql/parser/core/elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..a650bbe 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -59,6 +59,12 @@ func reservedKeywords() ParserFn {
 			FlatGroup(SeqI("having"), WordBoundary()),
 			FlatGroup(SeqI("offset"), WordBoundary()),
 			FlatGroup(SeqI("limit"), WordBoundary()),
+			FlatGroup(
+				SeqI("for"),
+				sp1(),
+				First(SeqI("view"), SeqI("reference"), SeqI("update")),
+				WordBoundary(),
+			),
 		),
 		Concat,
 	)
-- 
2.43.0


From c2a023ba5cd80d3a3a158756ab3199e87b7705a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 07/24] fix: unmarshal the date time literal names in lists

---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From 15adb61463d51384ac6b4c6b8ee2681b3413ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 08/24] fix: ignore the case of the alias names in the GROUP BY
 clause

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5a2d17b..6b24814 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -164,7 +164,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			field := q.GroupBy[i]
 
 			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[field.Name[len(field.Name)-1]]; ok {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
 					delete(groupingFields, field.Key)
 					q.GroupBy[i] = *p
 					groupingFields[p.Key] = struct{}{}
-- 
2.43.0


From 12143665c491e2432f65bff246605f29aa12516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 09/24] fix: ignore the case of the parameter names in the
 OFFSET and LIMIT clauses

---
 soql/parser/postprocess/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 6b24814..cd5042e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -363,10 +363,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	if q.OffsetAndLimit.OffsetParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.OffsetParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.OffsetParamName)] = struct{}{}
 	}
 	if q.OffsetAndLimit.LimitParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.LimitParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.LimitParamName)] = struct{}{}
 	}
 
 	if q.IsAggregation {
-- 
2.43.0


From 5baeae3f0e4cb3c4158d01ae1d832bbe23285a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 10/24] fix: register the parameters and date time literal
 names in lists

---
 soql/parser/postprocess/normalize1.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 92f4bf2..54f58e2 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -323,6 +323,19 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
 	case SoqlFieldInfo_DateTimeLiteralName:
 		ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
+	case SoqlFieldInfo_Literal_List:
+		if items, ok := field.Value.([]SoqlListItem); ok {
+			for i := range items {
+				switch v := items[i].Value.(type) {
+				case string:
+					if items[i].Type == SoqlFieldInfo_ParameterizedValue {
+						ctx.parameters[strings.ToLower(v)] = struct{}{}
+					}
+				case SoqlDateTimeLiteralName:
+					ctx.dateTimeLiterals[strings.ToLower(v.Name)] = struct{}{}
+				}
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 19de8c8730e06228db9d73199b1a0cc2e1523efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 11/24] fix: do not mark the primary object of a conditional
 subquery as inner-joined

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index cd5042e..2c53de1 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -467,7 +467,7 @@ func Normalize(q *SoqlQuery) error {
 			next := leaf.ParentViewId
 			for next != 0 {
 				l2 := ctx.viewGraph[next]
-				if l2.Depth == 1 || l2.Many || l2.QueryId != leaf.QueryId {
+				if l2.ParentViewId == 0 || l2.Many || l2.QueryId != leaf.QueryId {
 					break
 				}
 				l2.InnerJoin = true
-- 
2.43.0


From 844de99ac7bb332e7538de9e6dba0938ef5881df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 12/24] fix: do not duplicate the selected function or subquery
 that is referred to in the ORDER BY clause

---
 soql/parser/postprocess/normalize2.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index 17cbbdf..ce2551f 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -87,6 +87,11 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	}
 
 	for i := 0; i < len(q.OrderBy); i++ {
+		if q.OrderBy[i].Field.Type != SoqlFieldInfo_Field {
+			// The field is a selected function or subquery that is referred to by its alias name.
+			continue
+		}
+
 		key := nameutil.MakeDottedKeyIgnoreCase(q.OrderBy[i].Field.Name, len(q.OrderBy[i].Field.Name))
 		if _, ok := fieldMap[key]; !ok {
 			f := q.OrderBy[i].Field
@@ -213,13 +218,28 @@ func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
+	// The alias name refers to the selected column.
+	assignSelectedColumnId := func(field *SoqlFieldInfo) {
+		if field.Type == SoqlFieldInfo_Field || field.AliasName == "" {
+			return
+		}
+		for i := 0; i < len(q.Fields); i++ {
+			if q.Fields[i].AliasName == field.AliasName {
+				field.ColumnId = q.Fields[i].ColumnId
+				break
+			}
+		}
+	}
+
 	for i := 0; i < len(q.OrderBy); i++ {
 		field := &q.OrderBy[i].Field
+		assignSelectedColumnId(field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
 	for i := 0; i < len(q.GroupBy); i++ {
 		field := &q.GroupBy[i]
+		assignSelectedColumnId(field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
-- 
2.43.0


From 3bcf491ffc1b08c4d910e024b54d88cb70aa03b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 13/24] fix: construct the recursive parsers without data races

---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  8 ++++----
 soql/parser/core/helpers.go      | 14 ++++++++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 621f00d..4c07af5 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							Indirect(selectFieldFunctionCall),
+							indirect(selectFieldFunctionCall),
 							complexSymbolName(),
 							literalValue(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								Indirect(selectFieldFunctionCall),
+								indirect(selectFieldFunctionCall),
 								complexSymbolName(),
 								literalValue(),
 							),
@@ -130,7 +130,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			Indirect(subQuerySelectStatement),
+			indirect(subQuerySelectStatement),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 7f124f8..0132b20 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(whereConditionExpression),
+						indirect(whereConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -204,7 +204,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpressionInnerRoot),
+					indirect(whereConditionExpressionInnerRoot),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -335,7 +335,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 					First(
 						FlatGroup(
 							sp0(),
-							Indirect(havingConditionExpression),
+							indirect(havingConditionExpression),
 							erase(CharClass(")")),
 							sp0(),
 						),
@@ -356,7 +356,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpressionInnerRoot),
+						indirect(havingConditionExpressionInnerRoot),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 0a55646..3e0120f 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"strings"
+	"sync"
 
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
@@ -48,3 +49,16 @@ func anyOperand() ParserFn {
 func isOperator(className string, ops []string) ParserFn {
 	return Trans(objparser.ObjClassFn(makeOpMatcher(className, ops)), unwrapOperandItem)
 }
+
+// Avoid recursive calls at parser construction time.
+// Unlike `Indirect`, the parser can be used by multiple goroutines at the same time.
+func indirect(fn func() ParserFn) ParserFn {
+	var once sync.Once
+	var parser ParserFn
+	return func(ctx ParserContext) (ParserContext, error) {
+		once.Do(func() {
+			parser = fn()
+		})
+		return parser(ctx)
+	}
+}
-- 
2.43.0


From 34e0ecbf165fc772af481763474715411a5232ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 14/24] fix: mark Count() without parameters as aggregated

---
 soql/parser/postprocess/normalize1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 54f58e2..ebdc940 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -271,7 +271,9 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			if conf.isHavingClause || (conf.isSelectClause && q.IsAggregation) {
 				// If the parameter contains items and not all parameters are functions, it is an aggregate function.
 
-				aggregated := false
+				// NOTE: Count() is an aggregate function even if it has no parameters.
+
+				aggregated := field.Aggregated
 			FN_HAVING_OUTER:
 				for i := 0; i < len(field.Parameters); i++ {
 					switch field.Parameters[i].Type {
-- 
2.43.0


From 05b0df7c19a88c9b282bbb698ad7833ee6d9124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 15/24] fix: find the aggregate functions before checking the
 other selected items

---
 soql/parser/postprocess/normalize.go  | 9 +++++----
 soql/parser/postprocess/normalize1.go | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 2c53de1..50347ff 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -127,6 +127,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	// Whether the query is an aggregation does not depend on the order of the selected items.
+	for i := 0; i < len(q.Fields); i++ {
+		preScanFunctionFields(&q.Fields[i], q)
+	}
+
 	fieldAliasMap := make(map[string]*SoqlFieldInfo)
 
 	for i := 0; i < len(q.Fields); i++ {
@@ -227,10 +232,6 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
-	for i := 0; i < len(q.Fields); i++ {
-		preScanFunctionFields(&q.Fields[i], q)
-	}
-
 	if q.OrderBy != nil {
 		for i := 0; i < len(q.OrderBy); i++ {
 			field := q.OrderBy[i].Field
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index ebdc940..83e26a0 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -28,7 +28,7 @@ func preScanFunctionFields(field *SoqlFieldInfo, q *SoqlQuery) {
 			}
 
 			switch funcName {
-			case "count":
+			case "count", "count_distinct":
 				q.IsAggregation = true
 			}
 
-- 
2.43.0


From 51e1fd5117687839835a3d6c98e454fbd2dafb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 16/24] fix: do not give the name of a selected field to an
 unnamed item

---
 soql/parser/postprocess/normalize2.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index ce2551f..df5eb2e 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -2,6 +2,7 @@ package postprocess
 
 import (
 	"strconv"
+	"strings"
 
 	"github.com/shellyln/go-nameutil/nameutil"
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
@@ -273,6 +274,15 @@ func (ctx *normalizeQueryContext) assignImplicitAliasNames(q *SoqlQuery, fieldAl
 	noAliasNameColumnIds := make(map[int]struct{})
 	exprCount := 0
 
+	// Names of the selected fields without alias name.
+	fieldNameMap := make(map[string]struct{})
+	for i := 0; i < len(q.Fields); i++ {
+		field := &q.Fields[i]
+		if field.AliasName == "" && field.Type == SoqlFieldInfo_Field {
+			fieldNameMap[strings.ToLower(field.Name[len(field.Name)-1])] = struct{}{}
+		}
+	}
+
 	for i := 0; i < len(q.Fields); i++ {
 		field := &q.Fields[i]
 		if field.AliasName == "" {
@@ -288,10 +298,14 @@ func (ctx *normalizeQueryContext) assignImplicitAliasNames(q *SoqlQuery, fieldAl
 					exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
 					exprCount++
 
-					if _, ok := fieldAliasMap[exprName]; !ok {
-						field.AliasName = exprName
-						break
+					if _, ok := fieldAliasMap[exprName]; ok {
+						continue
+					}
+					if _, ok := fieldNameMap[exprName]; ok {
+						continue
 					}
+					field.AliasName = exprName
+					break
 				}
 			}
 		}
-- 
2.43.0


From bf37b11ebf44168bbc6c8f58b988e0f650245516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 17/24] fix: reject the escapes of invalid code points in
 string literals

---
 soql/parser/core/elements.go |  4 ++--
 soql/parser/core/helpers.go  | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a650bbe..a2d5790 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -209,7 +209,7 @@ func stringLiteralInner(cc string, multiline bool) ParserFn {
 								Repeat(Times{Min: 4, Max: 4}, HexNumber()),
 							),
 							ParseIntRadix(16),
-							StringFromInt,
+							stringFromCodePoint,
 						),
 						Trans(
 							FlatGroup(
@@ -218,7 +218,7 @@ func stringLiteralInner(cc string, multiline bool) ParserFn {
 								erase(CharClass("}")),
 							),
 							ParseIntRadix(16),
-							StringFromInt,
+							stringFromCodePoint,
 						),
 						Trans(
 							FlatGroup(
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 3e0120f..1f34bee 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -1,11 +1,15 @@
 package core
 
 import (
+	"errors"
+	"strconv"
 	"strings"
 	"sync"
+	"unicode/utf8"
 
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
+	. "github.com/shellyln/takenoco/string"
 )
 
 func setStr(s string) TransformerFn {
@@ -22,6 +26,15 @@ func replaceStr(fn ParserFn, s string) ParserFn {
 	return Trans(fn, setStr(s))
 }
 
+// Unlike `StringFromInt`, surrogates and values greater than U+10FFFF are errors.
+func stringFromCodePoint(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+	n := asts[0].Value.(int64)
+	if n > utf8.MaxRune || !utf8.ValidRune(rune(n)) {
+		return nil, errors.New("Invalid code point in the string literal: " + strconv.FormatInt(n, 16))
+	}
+	return StringFromInt(ctx, asts)
+}
+
 func unwrapOperandItem(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{asts[0].Value.(Ast)}, nil
 }
-- 
2.43.0


From 9ff1ad301f369c3b41d5217a53080bb058b76fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 18/24] fix: count the depth of a nested conditional subquery
 from its enclosing object

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 50347ff..28d7600 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -387,7 +387,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	ctx.viewIdMap = make(map[string]int)
 	ctx.columnIdMap = make(map[string]int)
 	ctx.colIndexMap = make(map[string]int)
-	ctx.headObjDepthOffset = len(q.From[0].Name)
+	ctx.headObjDepthOffset += len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
-- 
2.43.0


From 4555076029cf003aa5e6be15a26309526ea5eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 19/24] fix: do not share the views and columns between
 conditional subqueries

---
 soql/parser/postprocess/normalize.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 28d7600..96bfa1b 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -384,15 +384,17 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	savedColumnIdMap := ctx.columnIdMap
 	savedColIndexMap := ctx.colIndexMap
 	savedHeadObjDepthOffset := ctx.headObjDepthOffset
-	ctx.viewIdMap = make(map[string]int)
-	ctx.columnIdMap = make(map[string]int)
-	ctx.colIndexMap = make(map[string]int)
 	ctx.headObjDepthOffset += len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
 			condition := q.Where[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// Each conditional subquery has its own views and columns.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, nil, normalizeFieldNameConf{
@@ -414,6 +416,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.Having); i++ {
 			condition := q.Having[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// Each conditional subquery has its own views and columns.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, groupingFields, normalizeFieldNameConf{
-- 
2.43.0


From 4615f3bcd7610b66abd71087450af034e9b00a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:26 +0000
Subject: [PATCH 20/24] fix: give each object in the FROM clauses its own view
 id

---
 soql/parser/postprocess/normalize.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 96bfa1b..bb9bdc1 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -271,13 +271,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	for i := 0; i < len(q.From); i++ {
-		if viewId, ok := ctx.viewIdMap[q.From[i].Key]; !ok {
-			q.From[i].ViewId = ctx.viewId
-			ctx.viewIdMap[q.From[i].Key] = ctx.viewId
-			ctx.viewId++
-		} else {
-			q.From[i].ViewId = viewId
-		}
+		q.From[i].ViewId = ctx.viewId
+		ctx.viewIdMap[q.From[i].Key] = ctx.viewId
+		ctx.viewId++
 
 		nameLen := len(q.From[i].Name)
 		objDepth := nameLen + ctx.headObjDepthOffset
@@ -347,6 +343,13 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		field := q.Fields[i]
 
 		if field.Type == SoqlFieldInfo_SubQuery {
+			// The views of a subquery are not visible to the other subqueries.
+			savedViewIdMap := ctx.viewIdMap
+			ctx.viewIdMap = make(map[string]int)
+			for k, v := range savedViewIdMap {
+				ctx.viewIdMap[k] = v
+			}
+
 			if err := ctx.normalizeFieldName(
 				&field, soqlQueryPlace_Select, q, queryDepth,
 				objNameMap, groupingFields, normalizeFieldNameConf{
@@ -360,6 +363,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 				return err
 			}
 			q.Fields[i] = field
+			ctx.viewIdMap = savedViewIdMap
 		}
 	}
 
-- 
2.43.0


From 2e2b18d71e5fde67861a4722b1928d426b6bf665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:27 +0000
Subject: [PATCH 21/24] fix: do not register an object twice that is written
 after the objects reached through it

---
 soql/parser/postprocess/normalize.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index bb9bdc1..8be649c 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -72,6 +72,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	objectAliasMap := make(map[string]*SoqlObjectInfo)
+	writtenFromLen := len(q.From)
 
 	for i := 0; i < len(q.From); i++ {
 		object := q.From[i]
@@ -104,6 +105,19 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	// Remove the implicitly registered objects that are written later in the From clause.
+	from := q.From[:writtenFromLen:writtenFromLen]
+FROM_OUTER:
+	for i := writtenFromLen; i < len(q.From); i++ {
+		for j := 0; j < writtenFromLen; j++ {
+			if q.From[i].Key == q.From[j].Key {
+				continue FROM_OUTER
+			}
+		}
+		from = append(from, q.From[i])
+	}
+	q.From = from
+
 	groupingFields := make(map[string]struct{})
 
 	if q.GroupBy != nil {
-- 
2.43.0


From f928d2a17a48566826cceb9c8c62bebb1a9287f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 22/24] fix: recognise the references to the parent objects of
 the enclosing query in the correlated subquery

---
 soql/parser/postprocess/normalize3.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 5c97839..82b6593 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -18,16 +18,24 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 				fields[i].ColIndex = -1
 			}
 
-			if len(fields[i].Name) <= len(q.From[0].Name) {
+			ns := nameutil.GetNamespaceFromName(fields[i].Name)
+			nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
+
+			isOwnObject := false
+			for j := range q.From {
+				if q.From[j].Key == nsKey {
+					isOwnObject = true
+					break
+				}
+			}
+
+			if !isOwnObject {
 				q.IsCorelated = true
 
 				if fields[i].ColIndex == -1 {
 					isSet := false
 
 					if q.Parent != nil {
-						ns := nameutil.GetNamespaceFromName(fields[i].Name)
-						nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
-
 						for j := range q.Parent.From {
 							if q.Parent.From[j].Key == nsKey {
 								idx := len(q.Parent.From[j].PerObjectQuery.Fields)
-- 
2.43.0


From 6368ca566839bd719825dd9909d557b4fe68730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 23/24] fix: take an unqualified object name as a relationship
 even if it equals the name of an object or an alias

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 8be649c..e441e26 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -79,7 +79,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 		if i != 0 || !(qPlace == soqlQueryPlace_Primary || qPlace == soqlQueryPlace_ConditionalOperand) {
 			key := nameutil.MakeDottedKeyIgnoreCase(object.Name, 1)
-			if _, ok := objNameMap[key]; !ok {
+			if _, ok := objNameMap[key]; !ok || len(object.Name) == 1 {
 				// The object name is not qualified by another entity name or alias name.
 
 				s := make([]string, 0, len(primaryObjectName)+len(object.Name))
-- 
2.43.0


From cc8413d2fb6949edec41c0196bb8444b844309e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 24/24] fix: set the parent view of an object that is written
 before its parent object

---
 soql/parser/postprocess/normalize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index e441e26..90b7ec8 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -288,7 +288,9 @@ FROM_OUTER:
 		q.From[i].ViewId = ctx.viewId
 		ctx.viewIdMap[q.From[i].Key] = ctx.viewId
 		ctx.viewId++
+	}
 
+	for i := 0; i < len(q.From); i++ {
 		nameLen := len(q.From[i].Name)
 		objDepth := nameLen + ctx.headObjDepthOffset
 		if ctx.maxViewDepth < objDepth {
-- 
2.43.0

