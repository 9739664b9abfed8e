From 09bb97fa93068be586cd82de123ddb51c3a948ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 01/22] fix: evaluate the arguments of a bare D roll on the
 left of a comparison

(8/2)D(4+6)<=(5*3), a documented example, failed with "num is not Int"
because a left side consisting of only the roll was never reduced.
---
 pkg/core/evaluator/eval_var_args.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 5969ffe..ed7ecca 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -158,7 +158,15 @@ func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	leftEvalErr := e.EvalVarArgs(node.Left())
+	left := node.Left()
+	var leftEvalErr error
+
+	if left.IsPrimaryExpression() && left.IsVariable() {
+		leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+	} else {
+		leftEvalErr = e.EvalVarArgs(left)
+	}
+
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
-- 
2.43.0


From b3cc46dba3754a6f8211d53e1f6c7551f5671bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 02/22] fix: apply a leading minus of a U roll bonus to its
 first term only

3U6[6]-1-2 was parsed as 3U6[6]-(1-2) and so added 1 instead of
subtracting 3.
---
 pkg/core/parser/parser.go     | 613 ++++++++++++++++++----------------
 pkg/core/parser/parser.pigeon |  15 +-
 2 files changed, 345 insertions(+), 283 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 67c782b..85f679a 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -632,28 +632,64 @@ var g = &grammar{
 							label: "bonus",
 							expr: &zeroOrOneExpr{
 								pos: position{line: 187, col: 40, offset: 4129},
-								expr: &seqExpr{
+								expr: &choiceExpr{
 									pos: position{line: 187, col: 41, offset: 4130},
-									exprs: []interface{}{
-										&choiceExpr{
-											pos: position{line: 187, col: 42, offset: 4131},
-											alternatives: []interface{}{
+									alternatives: []interface{}{
+										&seqExpr{
+											pos: position{line: 187, col: 41, offset: 4130},
+											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 187, col: 42, offset: 4131},
+													pos:        position{line: 187, col: 41, offset: 4130},
 													val:        "+",
 													ignoreCase: false,
 												},
+												&ruleRefExpr{
+													pos:  position{line: 187, col: 45, offset: 4134},
+													name: "IntExprAdditive",
+												},
+											},
+										},
+										&seqExpr{
+											pos: position{line: 187, col: 63, offset: 4152},
+											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 187, col: 48, offset: 4137},
+													pos:        position{line: 187, col: 63, offset: 4152},
 													val:        "-",
 													ignoreCase: false,
 												},
+												&ruleRefExpr{
+													pos:  position{line: 187, col: 67, offset: 4156},
+													name: "IntExprMultitive",
+												},
+												&zeroOrMoreExpr{
+													pos: position{line: 187, col: 84, offset: 4173},
+													expr: &seqExpr{
+														pos: position{line: 187, col: 85, offset: 4174},
+														exprs: []interface{}{
+															&choiceExpr{
+																pos: position{line: 187, col: 86, offset: 4175},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 187, col: 86, offset: 4175},
+																		val:        "+",
+																		ignoreCase: false,
+																	},
+																	&litMatcher{
+																		pos:        position{line: 187, col: 92, offset: 4181},
+																		val:        "-",
+																		ignoreCase: false,
+																	},
+																},
+															},
+															&ruleRefExpr{
+																pos:  position{line: 187, col: 97, offset: 4186},
+																name: "IntExprMultitive",
+															},
+														},
+													},
+												},
 											},
 										},
-										&ruleRefExpr{
-											pos:  position{line: 187, col: 53, offset: 4142},
-											name: "IntExprAdditive",
-										},
 									},
 								},
 							},
@@ -664,36 +700,36 @@ var g = &grammar{
 		},
 		{
 			name: "URollList",
-			pos:  position{line: 208, col: 1, offset: 4623},
+			pos:  position{line: 221, col: 1, offset: 5083},
 			expr: &actionExpr{
-				pos: position{line: 208, col: 14, offset: 4636},
+				pos: position{line: 221, col: 14, offset: 5096},
 				run: (*parser).callonURollList1,
 				expr: &seqExpr{
-					pos: position{line: 208, col: 14, offset: 4636},
+					pos: position{line: 221, col: 14, offset: 5096},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 208, col: 14, offset: 4636},
+							pos:   position{line: 221, col: 14, offset: 5096},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 208, col: 20, offset: 4642},
+								pos:  position{line: 221, col: 20, offset: 5102},
 								name: "URoll",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 208, col: 26, offset: 4648},
+							pos:   position{line: 221, col: 26, offset: 5108},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 208, col: 31, offset: 4653},
+								pos: position{line: 221, col: 31, offset: 5113},
 								expr: &seqExpr{
-									pos: position{line: 208, col: 32, offset: 4654},
+									pos: position{line: 221, col: 32, offset: 5114},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 208, col: 32, offset: 4654},
+											pos:        position{line: 221, col: 32, offset: 5114},
 											val:        "+",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 208, col: 36, offset: 4658},
+											pos:  position{line: 221, col: 36, offset: 5118},
 											name: "URoll",
 										},
 									},
@@ -701,24 +737,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 208, col: 44, offset: 4666},
+							pos:   position{line: 221, col: 44, offset: 5126},
 							label: "th",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 208, col: 47, offset: 4669},
+								pos: position{line: 221, col: 47, offset: 5129},
 								expr: &seqExpr{
-									pos: position{line: 208, col: 48, offset: 4670},
+									pos: position{line: 221, col: 48, offset: 5130},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 208, col: 48, offset: 4670},
+											pos:        position{line: 221, col: 48, offset: 5130},
 											val:        "[",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 208, col: 52, offset: 4674},
+											pos:  position{line: 221, col: 52, offset: 5134},
 											name: "IntExpr",
 										},
 										&litMatcher{
-											pos:        position{line: 208, col: 60, offset: 4682},
+											pos:        position{line: 221, col: 60, offset: 5142},
 											val:        "]",
 											ignoreCase: false,
 										},
@@ -732,54 +768,54 @@ var g = &grammar{
 		},
 		{
 			name: "IntExpr",
-			pos:  position{line: 227, col: 1, offset: 5056},
+			pos:  position{line: 240, col: 1, offset: 5516},
 			expr: &ruleRefExpr{
-				pos:  position{line: 227, col: 12, offset: 5067},
+				pos:  position{line: 240, col: 12, offset: 5527},
 				name: "IntExprAdditive",
 			},
 		},
 		{
 			name: "IntExprAdditive",
-			pos:  position{line: 229, col: 1, offset: 5084},
+			pos:  position{line: 242, col: 1, offset: 5544},
 			expr: &actionExpr{
-				pos: position{line: 229, col: 20, offset: 5103},
+				pos: position{line: 242, col: 20, offset: 5563},
 				run: (*parser).callonIntExprAdditive1,
 				expr: &seqExpr{
-					pos: position{line: 229, col: 20, offset: 5103},
+					pos: position{line: 242, col: 20, offset: 5563},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 229, col: 20, offset: 5103},
+							pos:   position{line: 242, col: 20, offset: 5563},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 229, col: 26, offset: 5109},
+								pos:  position{line: 242, col: 26, offset: 5569},
 								name: "IntExprMultitive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 229, col: 43, offset: 5126},
+							pos:   position{line: 242, col: 43, offset: 5586},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 229, col: 48, offset: 5131},
+								pos: position{line: 242, col: 48, offset: 5591},
 								expr: &seqExpr{
-									pos: position{line: 229, col: 49, offset: 5132},
+									pos: position{line: 242, col: 49, offset: 5592},
 									exprs: []interface{}{
 										&choiceExpr{
-											pos: position{line: 229, col: 50, offset: 5133},
+											pos: position{line: 242, col: 50, offset: 5593},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 229, col: 50, offset: 5133},
+													pos:        position{line: 242, col: 50, offset: 5593},
 													val:        "+",
 													ignoreCase: false,
 												},
 												&litMatcher{
-													pos:        position{line: 229, col: 56, offset: 5139},
+													pos:        position{line: 242, col: 56, offset: 5599},
 													val:        "-",
 													ignoreCase: false,
 												},
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 229, col: 61, offset: 5144},
+											pos:  position{line: 242, col: 61, offset: 5604},
 											name: "IntExprMultitive",
 										},
 									},
@@ -792,43 +828,43 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprMultitive",
-			pos:  position{line: 233, col: 1, offset: 5213},
+			pos:  position{line: 246, col: 1, offset: 5673},
 			expr: &actionExpr{
-				pos: position{line: 233, col: 21, offset: 5233},
+				pos: position{line: 246, col: 21, offset: 5693},
 				run: (*parser).callonIntExprMultitive1,
 				expr: &seqExpr{
-					pos: position{line: 233, col: 21, offset: 5233},
+					pos: position{line: 246, col: 21, offset: 5693},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 233, col: 21, offset: 5233},
+							pos:   position{line: 246, col: 21, offset: 5693},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 233, col: 27, offset: 5239},
+								pos:  position{line: 246, col: 27, offset: 5699},
 								name: "IntExprPrimary",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 233, col: 42, offset: 5254},
+							pos:   position{line: 246, col: 42, offset: 5714},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 233, col: 47, offset: 5259},
+								pos: position{line: 246, col: 47, offset: 5719},
 								expr: &choiceExpr{
-									pos: position{line: 233, col: 48, offset: 5260},
+									pos: position{line: 246, col: 48, offset: 5720},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 233, col: 48, offset: 5260},
+											pos: position{line: 246, col: 48, offset: 5720},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 233, col: 48, offset: 5260},
+													pos:        position{line: 246, col: 48, offset: 5720},
 													val:        "/",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 233, col: 52, offset: 5264},
+													pos:  position{line: 246, col: 52, offset: 5724},
 													name: "IntExprPrimary",
 												},
 												&charClassMatcher{
-													pos:        position{line: 233, col: 67, offset: 5279},
+													pos:        position{line: 246, col: 67, offset: 5739},
 													val:        "[ur]i",
 													chars:      []rune{'u', 'r'},
 													ignoreCase: true,
@@ -837,25 +873,25 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 233, col: 76, offset: 5288},
+											pos: position{line: 246, col: 76, offset: 5748},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 233, col: 77, offset: 5289},
+													pos: position{line: 246, col: 77, offset: 5749},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 233, col: 77, offset: 5289},
+															pos:        position{line: 246, col: 77, offset: 5749},
 															val:        "*",
 															ignoreCase: false,
 														},
 														&litMatcher{
-															pos:        position{line: 233, col: 83, offset: 5295},
+															pos:        position{line: 246, col: 83, offset: 5755},
 															val:        "/",
 															ignoreCase: false,
 														},
 													},
 												},
 												&ruleRefExpr{
-													pos:  position{line: 233, col: 88, offset: 5300},
+													pos:  position{line: 246, col: 88, offset: 5760},
 													name: "IntExprPrimary",
 												},
 											},
@@ -870,24 +906,24 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprPrimary",
-			pos:  position{line: 237, col: 1, offset: 5369},
+			pos:  position{line: 250, col: 1, offset: 5829},
 			expr: &choiceExpr{
-				pos: position{line: 237, col: 19, offset: 5387},
+				pos: position{line: 250, col: 19, offset: 5847},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 237, col: 19, offset: 5387},
+						pos:  position{line: 250, col: 19, offset: 5847},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 237, col: 29, offset: 5397},
+						pos:  position{line: 250, col: 29, offset: 5857},
 						name: "IntExprUnaryPlus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 237, col: 48, offset: 5416},
+						pos:  position{line: 250, col: 48, offset: 5876},
 						name: "IntExprUnaryMinus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 237, col: 68, offset: 5436},
+						pos:  position{line: 250, col: 68, offset: 5896},
 						name: "ParenthesizedIntExpr",
 					},
 				},
@@ -895,28 +931,28 @@ var g = &grammar{
 		},
 		{
 			name: "ParenthesizedIntExpr",
-			pos:  position{line: 239, col: 1, offset: 5458},
+			pos:  position{line: 252, col: 1, offset: 5918},
 			expr: &actionExpr{
-				pos: position{line: 239, col: 25, offset: 5482},
+				pos: position{line: 252, col: 25, offset: 5942},
 				run: (*parser).callonParenthesizedIntExpr1,
 				expr: &seqExpr{
-					pos: position{line: 239, col: 25, offset: 5482},
+					pos: position{line: 252, col: 25, offset: 5942},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 239, col: 25, offset: 5482},
+							pos:        position{line: 252, col: 25, offset: 5942},
 							val:        "(",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 239, col: 29, offset: 5486},
+							pos:   position{line: 252, col: 29, offset: 5946},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 239, col: 31, offset: 5488},
+								pos:  position{line: 252, col: 31, offset: 5948},
 								name: "IntExpr",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 239, col: 39, offset: 5496},
+							pos:        position{line: 252, col: 39, offset: 5956},
 							val:        ")",
 							ignoreCase: false,
 						},
@@ -926,23 +962,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprUnaryPlus",
-			pos:  position{line: 243, col: 1, offset: 5531},
+			pos:  position{line: 256, col: 1, offset: 5991},
 			expr: &actionExpr{
-				pos: position{line: 243, col: 21, offset: 5551},
+				pos: position{line: 256, col: 21, offset: 6011},
 				run: (*parser).callonIntExprUnaryPlus1,
 				expr: &seqExpr{
-					pos: position{line: 243, col: 21, offset: 5551},
+					pos: position{line: 256, col: 21, offset: 6011},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 243, col: 21, offset: 5551},
+							pos:        position{line: 256, col: 21, offset: 6011},
 							val:        "+",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 243, col: 25, offset: 5555},
+							pos:   position{line: 256, col: 25, offset: 6015},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 243, col: 27, offset: 5557},
+								pos:  position{line: 256, col: 27, offset: 6017},
 								name: "IntExprPrimary",
 							},
 						},
@@ -952,23 +988,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprUnaryMinus",
-			pos:  position{line: 247, col: 1, offset: 5603},
+			pos:  position{line: 260, col: 1, offset: 6063},
 			expr: &actionExpr{
-				pos: position{line: 247, col: 22, offset: 5624},
+				pos: position{line: 260, col: 22, offset: 6084},
 				run: (*parser).callonIntExprUnaryMinus1,
 				expr: &seqExpr{
-					pos: position{line: 247, col: 22, offset: 5624},
+					pos: position{line: 260, col: 22, offset: 6084},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 247, col: 22, offset: 5624},
+							pos:        position{line: 260, col: 22, offset: 6084},
 							val:        "-",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 247, col: 26, offset: 5628},
+							pos:   position{line: 260, col: 26, offset: 6088},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 247, col: 28, offset: 5630},
+								pos:  position{line: 260, col: 28, offset: 6090},
 								name: "IntExprPrimary",
 							},
 						},
@@ -978,34 +1014,34 @@ var g = &grammar{
 		},
 		{
 			name: "DRollComp",
-			pos:  position{line: 251, col: 1, offset: 5695},
+			pos:  position{line: 264, col: 1, offset: 6155},
 			expr: &actionExpr{
-				pos: position{line: 251, col: 14, offset: 5708},
+				pos: position{line: 264, col: 14, offset: 6168},
 				run: (*parser).callonDRollComp1,
 				expr: &seqExpr{
-					pos: position{line: 251, col: 14, offset: 5708},
+					pos: position{line: 264, col: 14, offset: 6168},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 251, col: 14, offset: 5708},
+							pos:   position{line: 264, col: 14, offset: 6168},
 							label: "left",
 							expr: &ruleRefExpr{
-								pos:  position{line: 251, col: 19, offset: 5713},
+								pos:  position{line: 264, col: 19, offset: 6173},
 								name: "DRollExprAdditive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 251, col: 37, offset: 5731},
+							pos:   position{line: 264, col: 37, offset: 6191},
 							label: "op",
 							expr: &ruleRefExpr{
-								pos:  position{line: 251, col: 40, offset: 5734},
+								pos:  position{line: 264, col: 40, offset: 6194},
 								name: "CompareOp",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 251, col: 50, offset: 5744},
+							pos:   position{line: 264, col: 50, offset: 6204},
 							label: "right",
 							expr: &ruleRefExpr{
-								pos:  position{line: 251, col: 56, offset: 5750},
+								pos:  position{line: 264, col: 56, offset: 6210},
 								name: "IntExpr",
 							},
 						},
@@ -1015,54 +1051,54 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExpr",
-			pos:  position{line: 259, col: 1, offset: 5857},
+			pos:  position{line: 272, col: 1, offset: 6317},
 			expr: &ruleRefExpr{
-				pos:  position{line: 259, col: 14, offset: 5870},
+				pos:  position{line: 272, col: 14, offset: 6330},
 				name: "DRollExprAdditive",
 			},
 		},
 		{
 			name: "DRollExprAdditive",
-			pos:  position{line: 261, col: 1, offset: 5889},
+			pos:  position{line: 274, col: 1, offset: 6349},
 			expr: &actionExpr{
-				pos: position{line: 261, col: 22, offset: 5910},
+				pos: position{line: 274, col: 22, offset: 6370},
 				run: (*parser).callonDRollExprAdditive1,
 				expr: &seqExpr{
-					pos: position{line: 261, col: 22, offset: 5910},
+					pos: position{line: 274, col: 22, offset: 6370},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 261, col: 22, offset: 5910},
+							pos:   position{line: 274, col: 22, offset: 6370},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 261, col: 28, offset: 5916},
+								pos:  position{line: 274, col: 28, offset: 6376},
 								name: "DRollExprMultitive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 261, col: 47, offset: 5935},
+							pos:   position{line: 274, col: 47, offset: 6395},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 261, col: 52, offset: 5940},
+								pos: position{line: 274, col: 52, offset: 6400},
 								expr: &seqExpr{
-									pos: position{line: 261, col: 53, offset: 5941},
+									pos: position{line: 274, col: 53, offset: 6401},
 									exprs: []interface{}{
 										&choiceExpr{
-											pos: position{line: 261, col: 54, offset: 5942},
+											pos: position{line: 274, col: 54, offset: 6402},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 261, col: 54, offset: 5942},
+													pos:        position{line: 274, col: 54, offset: 6402},
 													val:        "+",
 													ignoreCase: false,
 												},
 												&litMatcher{
-													pos:        position{line: 261, col: 60, offset: 5948},
+													pos:        position{line: 274, col: 60, offset: 6408},
 													val:        "-",
 													ignoreCase: false,
 												},
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 261, col: 65, offset: 5953},
+											pos:  position{line: 274, col: 65, offset: 6413},
 											name: "DRollExprMultitive",
 										},
 									},
@@ -1075,43 +1111,43 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprMultitive",
-			pos:  position{line: 265, col: 1, offset: 6024},
+			pos:  position{line: 278, col: 1, offset: 6484},
 			expr: &actionExpr{
-				pos: position{line: 265, col: 23, offset: 6046},
+				pos: position{line: 278, col: 23, offset: 6506},
 				run: (*parser).callonDRollExprMultitive1,
 				expr: &seqExpr{
-					pos: position{line: 265, col: 23, offset: 6046},
+					pos: position{line: 278, col: 23, offset: 6506},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 265, col: 23, offset: 6046},
+							pos:   position{line: 278, col: 23, offset: 6506},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 265, col: 29, offset: 6052},
+								pos:  position{line: 278, col: 29, offset: 6512},
 								name: "DRollExprPrimary",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 265, col: 46, offset: 6069},
+							pos:   position{line: 278, col: 46, offset: 6529},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 265, col: 51, offset: 6074},
+								pos: position{line: 278, col: 51, offset: 6534},
 								expr: &choiceExpr{
-									pos: position{line: 265, col: 52, offset: 6075},
+									pos: position{line: 278, col: 52, offset: 6535},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 265, col: 52, offset: 6075},
+											pos: position{line: 278, col: 52, offset: 6535},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 265, col: 52, offset: 6075},
+													pos:        position{line: 278, col: 52, offset: 6535},
 													val:        "/",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 265, col: 56, offset: 6079},
+													pos:  position{line: 278, col: 56, offset: 6539},
 													name: "DRollExprPrimary",
 												},
 												&charClassMatcher{
-													pos:        position{line: 265, col: 73, offset: 6096},
+													pos:        position{line: 278, col: 73, offset: 6556},
 													val:        "[ur]i",
 													chars:      []rune{'u', 'r'},
 													ignoreCase: true,
@@ -1120,25 +1156,25 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 265, col: 82, offset: 6105},
+											pos: position{line: 278, col: 82, offset: 6565},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 265, col: 83, offset: 6106},
+													pos: position{line: 278, col: 83, offset: 6566},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 265, col: 83, offset: 6106},
+															pos:        position{line: 278, col: 83, offset: 6566},
 															val:        "*",
 															ignoreCase: false,
 														},
 														&litMatcher{
-															pos:        position{line: 265, col: 89, offset: 6112},
+															pos:        position{line: 278, col: 89, offset: 6572},
 															val:        "/",
 															ignoreCase: false,
 														},
 													},
 												},
 												&ruleRefExpr{
-													pos:  position{line: 265, col: 94, offset: 6117},
+													pos:  position{line: 278, col: 94, offset: 6577},
 													name: "DRollExprPrimary",
 												},
 											},
@@ -1153,32 +1189,32 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprPrimary",
-			pos:  position{line: 269, col: 1, offset: 6188},
+			pos:  position{line: 282, col: 1, offset: 6648},
 			expr: &choiceExpr{
-				pos: position{line: 269, col: 21, offset: 6208},
+				pos: position{line: 282, col: 21, offset: 6668},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 269, col: 21, offset: 6208},
+						pos:  position{line: 282, col: 21, offset: 6668},
 						name: "DRoll",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 269, col: 29, offset: 6216},
+						pos:  position{line: 282, col: 29, offset: 6676},
 						name: "RandomNumber",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 269, col: 44, offset: 6231},
+						pos:  position{line: 282, col: 44, offset: 6691},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 269, col: 54, offset: 6241},
+						pos:  position{line: 282, col: 54, offset: 6701},
 						name: "DRollExprUnaryPlus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 269, col: 75, offset: 6262},
+						pos:  position{line: 282, col: 75, offset: 6722},
 						name: "DRollExprUnaryMinus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 269, col: 97, offset: 6284},
+						pos:  position{line: 282, col: 97, offset: 6744},
 						name: "ParenthesizedDRollExpr",
 					},
 				},
@@ -1186,28 +1222,28 @@ var g = &grammar{
 		},
 		{
 			name: "ParenthesizedDRollExpr",
-			pos:  position{line: 271, col: 1, offset: 6308},
+			pos:  position{line: 284, col: 1, offset: 6768},
 			expr: &actionExpr{
-				pos: position{line: 271, col: 27, offset: 6334},
+				pos: position{line: 284, col: 27, offset: 6794},
 				run: (*parser).callonParenthesizedDRollExpr1,
 				expr: &seqExpr{
-					pos: position{line: 271, col: 27, offset: 6334},
+					pos: position{line: 284, col: 27, offset: 6794},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 271, col: 27, offset: 6334},
+							pos:        position{line: 284, col: 27, offset: 6794},
 							val:        "(",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 271, col: 31, offset: 6338},
+							pos:   position{line: 284, col: 31, offset: 6798},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 271, col: 33, offset: 6340},
+								pos:  position{line: 284, col: 33, offset: 6800},
 								name: "DRollExpr",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 271, col: 43, offset: 6350},
+							pos:        position{line: 284, col: 43, offset: 6810},
 							val:        ")",
 							ignoreCase: false,
 						},
@@ -1217,23 +1253,23 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprUnaryPlus",
-			pos:  position{line: 275, col: 1, offset: 6385},
+			pos:  position{line: 288, col: 1, offset: 6845},
 			expr: &actionExpr{
-				pos: position{line: 275, col: 23, offset: 6407},
+				pos: position{line: 288, col: 23, offset: 6867},
 				run: (*parser).callonDRollExprUnaryPlus1,
 				expr: &seqExpr{
-					pos: position{line: 275, col: 23, offset: 6407},
+					pos: position{line: 288, col: 23, offset: 6867},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 275, col: 23, offset: 6407},
+							pos:        position{line: 288, col: 23, offset: 6867},
 							val:        "+",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 275, col: 27, offset: 6411},
+							pos:   position{line: 288, col: 27, offset: 6871},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 275, col: 29, offset: 6413},
+								pos:  position{line: 288, col: 29, offset: 6873},
 								name: "DRollExprPrimary",
 							},
 						},
@@ -1243,23 +1279,23 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprUnaryMinus",
-			pos:  position{line: 279, col: 1, offset: 6461},
+			pos:  position{line: 292, col: 1, offset: 6921},
 			expr: &actionExpr{
-				pos: position{line: 279, col: 24, offset: 6484},
+				pos: position{line: 292, col: 24, offset: 6944},
 				run: (*parser).callonDRollExprUnaryMinus1,
 				expr: &seqExpr{
-					pos: position{line: 279, col: 24, offset: 6484},
+					pos: position{line: 292, col: 24, offset: 6944},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 279, col: 24, offset: 6484},
+							pos:        position{line: 292, col: 24, offset: 6944},
 							val:        "-",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 279, col: 28, offset: 6488},
+							pos:   position{line: 292, col: 28, offset: 6948},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 279, col: 30, offset: 6490},
+								pos:  position{line: 292, col: 30, offset: 6950},
 								name: "DRollExprPrimary",
 							},
 						},
@@ -1269,54 +1305,54 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExpr",
-			pos:  position{line: 283, col: 1, offset: 6557},
+			pos:  position{line: 296, col: 1, offset: 7017},
 			expr: &ruleRefExpr{
-				pos:  position{line: 283, col: 16, offset: 6572},
+				pos:  position{line: 296, col: 16, offset: 7032},
 				name: "IntRandExprAdditive",
 			},
 		},
 		{
 			name: "IntRandExprAdditive",
-			pos:  position{line: 285, col: 1, offset: 6593},
+			pos:  position{line: 298, col: 1, offset: 7053},
 			expr: &actionExpr{
-				pos: position{line: 285, col: 24, offset: 6616},
+				pos: position{line: 298, col: 24, offset: 7076},
 				run: (*parser).callonIntRandExprAdditive1,
 				expr: &seqExpr{
-					pos: position{line: 285, col: 24, offset: 6616},
+					pos: position{line: 298, col: 24, offset: 7076},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 285, col: 24, offset: 6616},
+							pos:   position{line: 298, col: 24, offset: 7076},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 285, col: 30, offset: 6622},
+								pos:  position{line: 298, col: 30, offset: 7082},
 								name: "IntRandExprMultitive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 285, col: 51, offset: 6643},
+							pos:   position{line: 298, col: 51, offset: 7103},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 285, col: 56, offset: 6648},
+								pos: position{line: 298, col: 56, offset: 7108},
 								expr: &seqExpr{
-									pos: position{line: 285, col: 57, offset: 6649},
+									pos: position{line: 298, col: 57, offset: 7109},
 									exprs: []interface{}{
 										&choiceExpr{
-											pos: position{line: 285, col: 58, offset: 6650},
+											pos: position{line: 298, col: 58, offset: 7110},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 285, col: 58, offset: 6650},
+													pos:        position{line: 298, col: 58, offset: 7110},
 													val:        "+",
 													ignoreCase: false,
 												},
 												&litMatcher{
-													pos:        position{line: 285, col: 64, offset: 6656},
+													pos:        position{line: 298, col: 64, offset: 7116},
 													val:        "-",
 													ignoreCase: false,
 												},
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 285, col: 69, offset: 6661},
+											pos:  position{line: 298, col: 69, offset: 7121},
 											name: "IntRandExprMultitive",
 										},
 									},
@@ -1329,43 +1365,43 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprMultitive",
-			pos:  position{line: 289, col: 1, offset: 6734},
+			pos:  position{line: 302, col: 1, offset: 7194},
 			expr: &actionExpr{
-				pos: position{line: 289, col: 25, offset: 6758},
+				pos: position{line: 302, col: 25, offset: 7218},
 				run: (*parser).callonIntRandExprMultitive1,
 				expr: &seqExpr{
-					pos: position{line: 289, col: 25, offset: 6758},
+					pos: position{line: 302, col: 25, offset: 7218},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 289, col: 25, offset: 6758},
+							pos:   position{line: 302, col: 25, offset: 7218},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 289, col: 31, offset: 6764},
+								pos:  position{line: 302, col: 31, offset: 7224},
 								name: "IntRandExprPrimary",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 289, col: 50, offset: 6783},
+							pos:   position{line: 302, col: 50, offset: 7243},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 289, col: 55, offset: 6788},
+								pos: position{line: 302, col: 55, offset: 7248},
 								expr: &choiceExpr{
-									pos: position{line: 289, col: 56, offset: 6789},
+									pos: position{line: 302, col: 56, offset: 7249},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 289, col: 56, offset: 6789},
+											pos: position{line: 302, col: 56, offset: 7249},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 289, col: 56, offset: 6789},
+													pos:        position{line: 302, col: 56, offset: 7249},
 													val:        "/",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 289, col: 60, offset: 6793},
+													pos:  position{line: 302, col: 60, offset: 7253},
 													name: "IntRandExprPrimary",
 												},
 												&charClassMatcher{
-													pos:        position{line: 289, col: 79, offset: 6812},
+													pos:        position{line: 302, col: 79, offset: 7272},
 													val:        "[ur]i",
 													chars:      []rune{'u', 'r'},
 													ignoreCase: true,
@@ -1374,25 +1410,25 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 289, col: 88, offset: 6821},
+											pos: position{line: 302, col: 88, offset: 7281},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 289, col: 89, offset: 6822},
+													pos: position{line: 302, col: 89, offset: 7282},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 289, col: 89, offset: 6822},
+															pos:        position{line: 302, col: 89, offset: 7282},
 															val:        "*",
 															ignoreCase: false,
 														},
 														&litMatcher{
-															pos:        position{line: 289, col: 95, offset: 6828},
+															pos:        position{line: 302, col: 95, offset: 7288},
 															val:        "/",
 															ignoreCase: false,
 														},
 													},
 												},
 												&ruleRefExpr{
-													pos:  position{line: 289, col: 100, offset: 6833},
+													pos:  position{line: 302, col: 100, offset: 7293},
 													name: "IntRandExprPrimary",
 												},
 											},
@@ -1407,28 +1443,28 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprPrimary",
-			pos:  position{line: 293, col: 1, offset: 6906},
+			pos:  position{line: 306, col: 1, offset: 7366},
 			expr: &choiceExpr{
-				pos: position{line: 293, col: 23, offset: 6928},
+				pos: position{line: 306, col: 23, offset: 7388},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 293, col: 23, offset: 6928},
+						pos:  position{line: 306, col: 23, offset: 7388},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 293, col: 33, offset: 6938},
+						pos:  position{line: 306, col: 33, offset: 7398},
 						name: "RandomNumber",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 293, col: 48, offset: 6953},
+						pos:  position{line: 306, col: 48, offset: 7413},
 						name: "IntRandExprUnaryPlus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 293, col: 71, offset: 6976},
+						pos:  position{line: 306, col: 71, offset: 7436},
 						name: "IntRandExprUnaryMinus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 293, col: 95, offset: 7000},
+						pos:  position{line: 306, col: 95, offset: 7460},
 						name: "ParenthesizedIntRandExpr",
 					},
 				},
@@ -1436,28 +1472,28 @@ var g = &grammar{
 		},
 		{
 			name: "ParenthesizedIntRandExpr",
-			pos:  position{line: 295, col: 1, offset: 7026},
+			pos:  position{line: 308, col: 1, offset: 7486},
 			expr: &actionExpr{
-				pos: position{line: 295, col: 29, offset: 7054},
+				pos: position{line: 308, col: 29, offset: 7514},
 				run: (*parser).callonParenthesizedIntRandExpr1,
 				expr: &seqExpr{
-					pos: position{line: 295, col: 29, offset: 7054},
+					pos: position{line: 308, col: 29, offset: 7514},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 295, col: 29, offset: 7054},
+							pos:        position{line: 308, col: 29, offset: 7514},
 							val:        "(",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 295, col: 33, offset: 7058},
+							pos:   position{line: 308, col: 33, offset: 7518},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 295, col: 35, offset: 7060},
+								pos:  position{line: 308, col: 35, offset: 7520},
 								name: "IntRandExpr",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 295, col: 47, offset: 7072},
+							pos:        position{line: 308, col: 47, offset: 7532},
 							val:        ")",
 							ignoreCase: false,
 						},
@@ -1467,23 +1503,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprUnaryPlus",
-			pos:  position{line: 299, col: 1, offset: 7107},
+			pos:  position{line: 312, col: 1, offset: 7567},
 			expr: &actionExpr{
-				pos: position{line: 299, col: 25, offset: 7131},
+				pos: position{line: 312, col: 25, offset: 7591},
 				run: (*parser).callonIntRandExprUnaryPlus1,
 				expr: &seqExpr{
-					pos: position{line: 299, col: 25, offset: 7131},
+					pos: position{line: 312, col: 25, offset: 7591},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 299, col: 25, offset: 7131},
+							pos:        position{line: 312, col: 25, offset: 7591},
 							val:        "+",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 299, col: 29, offset: 7135},
+							pos:   position{line: 312, col: 29, offset: 7595},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 299, col: 31, offset: 7137},
+								pos:  position{line: 312, col: 31, offset: 7597},
 								name: "IntRandExprPrimary",
 							},
 						},
@@ -1493,23 +1529,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprUnaryMinus",
-			pos:  position{line: 303, col: 1, offset: 7187},
+			pos:  position{line: 316, col: 1, offset: 7647},
 			expr: &actionExpr{
-				pos: position{line: 303, col: 26, offset: 7212},
+				pos: position{line: 316, col: 26, offset: 7672},
 				run: (*parser).callonIntRandExprUnaryMinus1,
 				expr: &seqExpr{
-					pos: position{line: 303, col: 26, offset: 7212},
+					pos: position{line: 316, col: 26, offset: 7672},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 303, col: 26, offset: 7212},
+							pos:        position{line: 316, col: 26, offset: 7672},
 							val:        "-",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 303, col: 30, offset: 7216},
+							pos:   position{line: 316, col: 30, offset: 7676},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 303, col: 32, offset: 7218},
+								pos:  position{line: 316, col: 32, offset: 7678},
 								name: "IntRandExprPrimary",
 							},
 						},
@@ -1519,36 +1555,36 @@ var g = &grammar{
 		},
 		{
 			name: "DRoll",
-			pos:  position{line: 307, col: 1, offset: 7287},
+			pos:  position{line: 320, col: 1, offset: 7747},
 			expr: &actionExpr{
-				pos: position{line: 307, col: 10, offset: 7296},
+				pos: position{line: 320, col: 10, offset: 7756},
 				run: (*parser).callonDRoll1,
 				expr: &seqExpr{
-					pos: position{line: 307, col: 10, offset: 7296},
+					pos: position{line: 320, col: 10, offset: 7756},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 307, col: 10, offset: 7296},
+							pos:   position{line: 320, col: 10, offset: 7756},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 307, col: 14, offset: 7300},
+								pos:  position{line: 320, col: 14, offset: 7760},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 307, col: 26, offset: 7312},
+							pos:        position{line: 320, col: 26, offset: 7772},
 							val:        "d",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 307, col: 31, offset: 7317},
+							pos:   position{line: 320, col: 31, offset: 7777},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 307, col: 37, offset: 7323},
+								pos:  position{line: 320, col: 37, offset: 7783},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 307, col: 49, offset: 7335},
+							pos:  position{line: 320, col: 49, offset: 7795},
 							name: "IncRandCount",
 						},
 					},
@@ -1557,36 +1593,36 @@ var g = &grammar{
 		},
 		{
 			name: "BRoll",
-			pos:  position{line: 314, col: 1, offset: 7458},
+			pos:  position{line: 327, col: 1, offset: 7918},
 			expr: &actionExpr{
-				pos: position{line: 314, col: 10, offset: 7467},
+				pos: position{line: 327, col: 10, offset: 7927},
 				run: (*parser).callonBRoll1,
 				expr: &seqExpr{
-					pos: position{line: 314, col: 10, offset: 7467},
+					pos: position{line: 327, col: 10, offset: 7927},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 314, col: 10, offset: 7467},
+							pos:   position{line: 327, col: 10, offset: 7927},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 314, col: 14, offset: 7471},
+								pos:  position{line: 327, col: 14, offset: 7931},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 314, col: 26, offset: 7483},
+							pos:        position{line: 327, col: 26, offset: 7943},
 							val:        "b",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 314, col: 31, offset: 7488},
+							pos:   position{line: 327, col: 31, offset: 7948},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 314, col: 37, offset: 7494},
+								pos:  position{line: 327, col: 37, offset: 7954},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 314, col: 49, offset: 7506},
+							pos:  position{line: 327, col: 49, offset: 7966},
 							name: "IncRandCount",
 						},
 					},
@@ -1595,36 +1631,36 @@ var g = &grammar{
 		},
 		{
 			name: "RRoll",
-			pos:  position{line: 321, col: 1, offset: 7629},
+			pos:  position{line: 334, col: 1, offset: 8089},
 			expr: &actionExpr{
-				pos: position{line: 321, col: 10, offset: 7638},
+				pos: position{line: 334, col: 10, offset: 8098},
 				run: (*parser).callonRRoll1,
 				expr: &seqExpr{
-					pos: position{line: 321, col: 10, offset: 7638},
+					pos: position{line: 334, col: 10, offset: 8098},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 321, col: 10, offset: 7638},
+							pos:   position{line: 334, col: 10, offset: 8098},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 321, col: 14, offset: 7642},
+								pos:  position{line: 334, col: 14, offset: 8102},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 321, col: 26, offset: 7654},
+							pos:        position{line: 334, col: 26, offset: 8114},
 							val:        "r",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 321, col: 31, offset: 7659},
+							pos:   position{line: 334, col: 31, offset: 8119},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 321, col: 37, offset: 7665},
+								pos:  position{line: 334, col: 37, offset: 8125},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 321, col: 49, offset: 7677},
+							pos:  position{line: 334, col: 49, offset: 8137},
 							name: "IncRandCount",
 						},
 					},
@@ -1633,36 +1669,36 @@ var g = &grammar{
 		},
 		{
 			name: "URoll",
-			pos:  position{line: 328, col: 1, offset: 7800},
+			pos:  position{line: 341, col: 1, offset: 8260},
 			expr: &actionExpr{
-				pos: position{line: 328, col: 10, offset: 7809},
+				pos: position{line: 341, col: 10, offset: 8269},
 				run: (*parser).callonURoll1,
 				expr: &seqExpr{
-					pos: position{line: 328, col: 10, offset: 7809},
+					pos: position{line: 341, col: 10, offset: 8269},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 328, col: 10, offset: 7809},
+							pos:   position{line: 341, col: 10, offset: 8269},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 328, col: 14, offset: 7813},
+								pos:  position{line: 341, col: 14, offset: 8273},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 328, col: 26, offset: 7825},
+							pos:        position{line: 341, col: 26, offset: 8285},
 							val:        "u",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 328, col: 31, offset: 7830},
+							pos:   position{line: 341, col: 31, offset: 8290},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 328, col: 37, offset: 7836},
+								pos:  position{line: 341, col: 37, offset: 8296},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 328, col: 49, offset: 7848},
+							pos:  position{line: 341, col: 49, offset: 8308},
 							name: "IncRandCount",
 						},
 					},
@@ -1671,20 +1707,20 @@ var g = &grammar{
 		},
 		{
 			name: "RollOperand",
-			pos:  position{line: 335, col: 1, offset: 7971},
+			pos:  position{line: 348, col: 1, offset: 8431},
 			expr: &choiceExpr{
-				pos: position{line: 335, col: 16, offset: 7986},
+				pos: position{line: 348, col: 16, offset: 8446},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 335, col: 16, offset: 7986},
+						pos:  position{line: 348, col: 16, offset: 8446},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 335, col: 26, offset: 7996},
+						pos:  position{line: 348, col: 26, offset: 8456},
 						name: "RandomNumber",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 335, col: 41, offset: 8011},
+						pos:  position{line: 348, col: 41, offset: 8471},
 						name: "ParenthesizedIntRandExpr",
 					},
 				},
@@ -1692,46 +1728,46 @@ var g = &grammar{
 		},
 		{
 			name: "RandomNumber",
-			pos:  position{line: 337, col: 1, offset: 8037},
+			pos:  position{line: 350, col: 1, offset: 8497},
 			expr: &actionExpr{
-				pos: position{line: 337, col: 17, offset: 8053},
+				pos: position{line: 350, col: 17, offset: 8513},
 				run: (*parser).callonRandomNumber1,
 				expr: &seqExpr{
-					pos: position{line: 337, col: 17, offset: 8053},
+					pos: position{line: 350, col: 17, offset: 8513},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 337, col: 17, offset: 8053},
+							pos:        position{line: 350, col: 17, offset: 8513},
 							val:        "[",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 337, col: 21, offset: 8057},
+							pos:   position{line: 350, col: 21, offset: 8517},
 							label: "min",
 							expr: &ruleRefExpr{
-								pos:  position{line: 337, col: 25, offset: 8061},
+								pos:  position{line: 350, col: 25, offset: 8521},
 								name: "RandomNumberOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 337, col: 45, offset: 8081},
+							pos:        position{line: 350, col: 45, offset: 8541},
 							val:        "...",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 337, col: 51, offset: 8087},
+							pos:   position{line: 350, col: 51, offset: 8547},
 							label: "max",
 							expr: &ruleRefExpr{
-								pos:  position{line: 337, col: 55, offset: 8091},
+								pos:  position{line: 350, col: 55, offset: 8551},
 								name: "RandomNumberOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 337, col: 75, offset: 8111},
+							pos:        position{line: 350, col: 75, offset: 8571},
 							val:        "]",
 							ignoreCase: false,
 						},
 						&ruleRefExpr{
-							pos:  position{line: 337, col: 79, offset: 8115},
+							pos:  position{line: 350, col: 79, offset: 8575},
 							name: "IncRandCount",
 						},
 					},
@@ -1740,16 +1776,16 @@ var g = &grammar{
 		},
 		{
 			name: "RandomNumberOperand",
-			pos:  position{line: 344, col: 1, offset: 8239},
+			pos:  position{line: 357, col: 1, offset: 8699},
 			expr: &choiceExpr{
-				pos: position{line: 344, col: 24, offset: 8262},
+				pos: position{line: 357, col: 24, offset: 8722},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 344, col: 24, offset: 8262},
+						pos:  position{line: 357, col: 24, offset: 8722},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 344, col: 34, offset: 8272},
+						pos:  position{line: 357, col: 34, offset: 8732},
 						name: "ParenthesizedIntExpr",
 					},
 				},
@@ -1757,30 +1793,30 @@ var g = &grammar{
 		},
 		{
 			name: "ResetRandCount",
-			pos:  position{line: 346, col: 1, offset: 8294},
+			pos:  position{line: 359, col: 1, offset: 8754},
 			expr: &stateCodeExpr{
-				pos: position{line: 346, col: 19, offset: 8312},
+				pos: position{line: 359, col: 19, offset: 8772},
 				run: (*parser).callonResetRandCount1,
 			},
 		},
 		{
 			name: "IncRandCount",
-			pos:  position{line: 351, col: 1, offset: 8356},
+			pos:  position{line: 364, col: 1, offset: 8816},
 			expr: &stateCodeExpr{
-				pos: position{line: 351, col: 17, offset: 8372},
+				pos: position{line: 364, col: 17, offset: 8832},
 				run: (*parser).callonIncRandCount1,
 			},
 		},
 		{
 			name: "Integer",
-			pos:  position{line: 356, col: 1, offset: 8445},
+			pos:  position{line: 369, col: 1, offset: 8905},
 			expr: &actionExpr{
-				pos: position{line: 356, col: 12, offset: 8456},
+				pos: position{line: 369, col: 12, offset: 8916},
 				run: (*parser).callonInteger1,
 				expr: &oneOrMoreExpr{
-					pos: position{line: 356, col: 12, offset: 8456},
+					pos: position{line: 369, col: 12, offset: 8916},
 					expr: &charClassMatcher{
-						pos:        position{line: 356, col: 12, offset: 8456},
+						pos:        position{line: 369, col: 12, offset: 8916},
 						val:        "[0-9]",
 						ranges:     []rune{'0', '9'},
 						ignoreCase: false,
@@ -1791,37 +1827,37 @@ var g = &grammar{
 		},
 		{
 			name: "CompareOp",
-			pos:  position{line: 365, col: 1, offset: 8625},
+			pos:  position{line: 378, col: 1, offset: 9085},
 			expr: &choiceExpr{
-				pos: position{line: 365, col: 14, offset: 8638},
+				pos: position{line: 378, col: 14, offset: 9098},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 365, col: 14, offset: 8638},
+						pos:        position{line: 378, col: 14, offset: 9098},
 						val:        "=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 365, col: 20, offset: 8644},
+						pos:        position{line: 378, col: 20, offset: 9104},
 						val:        "<>",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 365, col: 27, offset: 8651},
+						pos:        position{line: 378, col: 27, offset: 9111},
 						val:        "<=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 365, col: 34, offset: 8658},
+						pos:        position{line: 378, col: 34, offset: 9118},
 						val:        "<",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 365, col: 40, offset: 8664},
+						pos:        position{line: 378, col: 40, offset: 9124},
 						val:        ">=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 365, col: 47, offset: 8671},
+						pos:        position{line: 378, col: 47, offset: 9131},
 						val:        ">",
 						ignoreCase: false,
 					},
@@ -1830,11 +1866,11 @@ var g = &grammar{
 		},
 		{
 			name: "EOT",
-			pos:  position{line: 367, col: 1, offset: 8676},
+			pos:  position{line: 380, col: 1, offset: 9136},
 			expr: &notExpr{
-				pos: position{line: 367, col: 8, offset: 8683},
+				pos: position{line: 380, col: 8, offset: 9143},
 				expr: &anyMatcher{
-					line: 367, col: 9, offset: 8684,
+					line: 380, col: 9, offset: 9144,
 				},
 			},
 		},
@@ -2052,6 +2088,19 @@ func (c *current) onURollExpr1(uRollList, bonus interface{}) (interface{}, error
 		case "+":
 			bonusNode = ast.NewAdd(ast.NewInt(0), right)
 		case "-":
+			// 先頭の "-" は最初の項にのみ掛かるため、ひとつの減算にまとめるには
+			// 以降の項の符号を反転させる必要がある
+			for _, r := range toIfaceSlice(bonusSlice[2]) {
+				rs := toIfaceSlice(r)
+				term := rs[1].(ast.Node)
+
+				if string(rs[0].([]byte)) == "+" {
+					right = ast.NewSubtract(right, term)
+				} else {
+					right = ast.NewAdd(right, term)
+				}
+			}
+
 			bonusNode = ast.NewSubtract(ast.NewInt(0), right)
 		default:
 			return nil, fmt.Errorf("unknown operator: %s", op)
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 97ba423..6747310 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -184,7 +184,7 @@ URollComp <- left:URollExpr op:CompareOp right:IntExpr {
 	), nil
 }
 
-URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprAdditive)? {
+URollExpr <- uRollList:URollList bonus:('+' IntExprAdditive / '-' IntExprMultitive (('+' / '-') IntExprMultitive)*)? {
 	bonusSlice := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
@@ -196,6 +196,19 @@ URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprAdditive)? {
 		case "+":
 			bonusNode = ast.NewAdd(ast.NewInt(0), right)
 		case "-":
+			// 先頭の "-" は最初の項にのみ掛かるため、ひとつの減算にまとめるには
+			// 以降の項の符号を反転させる必要がある
+			for _, r := range toIfaceSlice(bonusSlice[2]) {
+				rs := toIfaceSlice(r)
+				term := rs[1].(ast.Node)
+
+				if string(rs[0].([]byte)) == "+" {
+					right = ast.NewSubtract(right, term)
+				} else {
+					right = ast.NewAdd(right, term)
+				}
+			}
+
 			bonusNode = ast.NewSubtract(ast.NewInt(0), right)
 		default:
 			return nil, fmt.Errorf("unknown operator: %s", op)
-- 
2.43.0


From 1892b4d7ea4797cffd0d37e350cff6ecb91bcf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 03/22] fix: parse a division once instead of retrying it
 without rounding suffix

Each '/' operand without U/R was parsed twice, so the time to parse
1/(1/(1/... doubled with every nesting level.
---
 pkg/core/parser/parser.go     | 909 +++++++++++++++++-----------------
 pkg/core/parser/parser.pigeon |   8 +-
 2 files changed, 448 insertions(+), 469 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 85f679a..6a32593 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -56,7 +56,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -82,33 +82,33 @@ var g = &grammar{
 	rules: []*rule{
 		{
 			name: "Command",
-			pos:  position{line: 72, col: 1, offset: 1640},
+			pos:  position{line: 72, col: 1, offset: 1656},
 			expr: &actionExpr{
-				pos: position{line: 72, col: 12, offset: 1651},
+				pos: position{line: 72, col: 12, offset: 1667},
 				run: (*parser).callonCommand1,
 				expr: &seqExpr{
-					pos: position{line: 72, col: 12, offset: 1651},
+					pos: position{line: 72, col: 12, offset: 1667},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 72, col: 12, offset: 1651},
+							pos:  position{line: 72, col: 12, offset: 1667},
 							name: "ResetRandCount",
 						},
 						&labeledExpr{
-							pos:   position{line: 72, col: 27, offset: 1666},
+							pos:   position{line: 72, col: 27, offset: 1682},
 							label: "n",
 							expr: &choiceExpr{
-								pos: position{line: 72, col: 30, offset: 1669},
+								pos: position{line: 72, col: 30, offset: 1685},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 72, col: 30, offset: 1669},
+										pos:  position{line: 72, col: 30, offset: 1685},
 										name: "Choice",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 72, col: 39, offset: 1678},
+										pos:  position{line: 72, col: 39, offset: 1694},
 										name: "Calc",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 72, col: 46, offset: 1685},
+										pos:  position{line: 72, col: 46, offset: 1701},
 										name: "CommandWithExpression",
 									},
 								},
@@ -120,56 +120,56 @@ var g = &grammar{
 		},
 		{
 			name: "CommandWithExpression",
-			pos:  position{line: 76, col: 1, offset: 1728},
+			pos:  position{line: 76, col: 1, offset: 1744},
 			expr: &actionExpr{
-				pos: position{line: 76, col: 26, offset: 1753},
+				pos: position{line: 76, col: 26, offset: 1769},
 				run: (*parser).callonCommandWithExpression1,
 				expr: &seqExpr{
-					pos: position{line: 76, col: 26, offset: 1753},
+					pos: position{line: 76, col: 26, offset: 1769},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 76, col: 26, offset: 1753},
+							pos:   position{line: 76, col: 26, offset: 1769},
 							label: "n",
 							expr: &choiceExpr{
-								pos: position{line: 76, col: 29, offset: 1756},
+								pos: position{line: 76, col: 29, offset: 1772},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 29, offset: 1756},
+										pos:  position{line: 76, col: 29, offset: 1772},
 										name: "BRollComp",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 41, offset: 1768},
+										pos:  position{line: 76, col: 41, offset: 1784},
 										name: "BRollList",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 53, offset: 1780},
+										pos:  position{line: 76, col: 53, offset: 1796},
 										name: "RRollComp",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 65, offset: 1792},
+										pos:  position{line: 76, col: 65, offset: 1808},
 										name: "RRollList",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 77, offset: 1804},
+										pos:  position{line: 76, col: 77, offset: 1820},
 										name: "URollComp",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 89, offset: 1816},
+										pos:  position{line: 76, col: 89, offset: 1832},
 										name: "URollExpr",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 101, offset: 1828},
+										pos:  position{line: 76, col: 101, offset: 1844},
 										name: "DRollCompCommand",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 76, col: 120, offset: 1847},
+										pos:  position{line: 76, col: 120, offset: 1863},
 										name: "DRollExprCommand",
 									},
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 76, col: 138, offset: 1865},
+							pos:  position{line: 76, col: 138, offset: 1881},
 							name: "EOT",
 						},
 					},
@@ -178,40 +178,40 @@ var g = &grammar{
 		},
 		{
 			name: "Choice",
-			pos:  position{line: 80, col: 1, offset: 1889},
+			pos:  position{line: 80, col: 1, offset: 1905},
 			expr: &actionExpr{
-				pos: position{line: 80, col: 11, offset: 1899},
+				pos: position{line: 80, col: 11, offset: 1915},
 				run: (*parser).callonChoice1,
 				expr: &seqExpr{
-					pos: position{line: 80, col: 11, offset: 1899},
+					pos: position{line: 80, col: 11, offset: 1915},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 80, col: 11, offset: 1899},
+							pos:        position{line: 80, col: 11, offset: 1915},
 							val:        "choice[",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 80, col: 22, offset: 1910},
+							pos:   position{line: 80, col: 22, offset: 1926},
 							label: "items",
 							expr: &ruleRefExpr{
-								pos:  position{line: 80, col: 28, offset: 1916},
+								pos:  position{line: 80, col: 28, offset: 1932},
 								name: "ChoiceItems",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 80, col: 40, offset: 1928},
+							pos: position{line: 80, col: 40, offset: 1944},
 							expr: &seqExpr{
-								pos: position{line: 80, col: 41, offset: 1929},
+								pos: position{line: 80, col: 41, offset: 1945},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 80, col: 41, offset: 1929},
+										pos:        position{line: 80, col: 41, offset: 1945},
 										val:        ",",
 										ignoreCase: false,
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 80, col: 45, offset: 1933},
+										pos: position{line: 80, col: 45, offset: 1949},
 										expr: &charClassMatcher{
-											pos:        position{line: 80, col: 45, offset: 1933},
+											pos:        position{line: 80, col: 45, offset: 1949},
 											val:        "[\\pZ]",
 											classes:    []*unicode.RangeTable{rangeTable("Z")},
 											ignoreCase: false,
@@ -222,7 +222,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 80, col: 54, offset: 1942},
+							pos:        position{line: 80, col: 54, offset: 1958},
 							val:        "]",
 							ignoreCase: false,
 						},
@@ -232,36 +232,36 @@ var g = &grammar{
 		},
 		{
 			name: "ChoiceItems",
-			pos:  position{line: 84, col: 1, offset: 1970},
+			pos:  position{line: 84, col: 1, offset: 1986},
 			expr: &actionExpr{
-				pos: position{line: 84, col: 16, offset: 1985},
+				pos: position{line: 84, col: 16, offset: 2001},
 				run: (*parser).callonChoiceItems1,
 				expr: &seqExpr{
-					pos: position{line: 84, col: 16, offset: 1985},
+					pos: position{line: 84, col: 16, offset: 2001},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 84, col: 16, offset: 1985},
+							pos:   position{line: 84, col: 16, offset: 2001},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 84, col: 22, offset: 1991},
+								pos:  position{line: 84, col: 22, offset: 2007},
 								name: "ChoiceItem",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 84, col: 33, offset: 2002},
+							pos:   position{line: 84, col: 33, offset: 2018},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 84, col: 38, offset: 2007},
+								pos: position{line: 84, col: 38, offset: 2023},
 								expr: &seqExpr{
-									pos: position{line: 84, col: 39, offset: 2008},
+									pos: position{line: 84, col: 39, offset: 2024},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 84, col: 39, offset: 2008},
+											pos:        position{line: 84, col: 39, offset: 2024},
 											val:        ",",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 84, col: 43, offset: 2012},
+											pos:  position{line: 84, col: 43, offset: 2028},
 											name: "ChoiceItem",
 										},
 									},
@@ -274,17 +274,17 @@ var g = &grammar{
 		},
 		{
 			name: "ChoiceItem",
-			pos:  position{line: 98, col: 1, offset: 2240},
+			pos:  position{line: 98, col: 1, offset: 2256},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 15, offset: 2254},
+				pos: position{line: 98, col: 15, offset: 2270},
 				run: (*parser).callonChoiceItem1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 15, offset: 2254},
+					pos: position{line: 98, col: 15, offset: 2270},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 98, col: 15, offset: 2254},
+							pos: position{line: 98, col: 15, offset: 2270},
 							expr: &charClassMatcher{
-								pos:        position{line: 98, col: 15, offset: 2254},
+								pos:        position{line: 98, col: 15, offset: 2270},
 								val:        "[\\pZ]",
 								classes:    []*unicode.RangeTable{rangeTable("Z")},
 								ignoreCase: false,
@@ -292,10 +292,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2261},
+							pos:   position{line: 98, col: 22, offset: 2277},
 							label: "s",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 24, offset: 2263},
+								pos:  position{line: 98, col: 24, offset: 2279},
 								name: "ChoiceItemChars",
 							},
 						},
@@ -305,14 +305,14 @@ var g = &grammar{
 		},
 		{
 			name: "ChoiceItemChars",
-			pos:  position{line: 102, col: 1, offset: 2299},
+			pos:  position{line: 102, col: 1, offset: 2315},
 			expr: &actionExpr{
-				pos: position{line: 102, col: 20, offset: 2318},
+				pos: position{line: 102, col: 20, offset: 2334},
 				run: (*parser).callonChoiceItemChars1,
 				expr: &oneOrMoreExpr{
-					pos: position{line: 102, col: 20, offset: 2318},
+					pos: position{line: 102, col: 20, offset: 2334},
 					expr: &charClassMatcher{
-						pos:        position{line: 102, col: 20, offset: 2318},
+						pos:        position{line: 102, col: 20, offset: 2334},
 						val:        "[^\\],]",
 						chars:      []rune{']', ','},
 						ignoreCase: false,
@@ -323,33 +323,33 @@ var g = &grammar{
 		},
 		{
 			name: "Calc",
-			pos:  position{line: 106, col: 1, offset: 2393},
+			pos:  position{line: 106, col: 1, offset: 2409},
 			expr: &actionExpr{
-				pos: position{line: 106, col: 9, offset: 2401},
+				pos: position{line: 106, col: 9, offset: 2417},
 				run: (*parser).callonCalc1,
 				expr: &seqExpr{
-					pos: position{line: 106, col: 9, offset: 2401},
+					pos: position{line: 106, col: 9, offset: 2417},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 106, col: 9, offset: 2401},
+							pos:        position{line: 106, col: 9, offset: 2417},
 							val:        "c",
 							ignoreCase: true,
 						},
 						&litMatcher{
-							pos:        position{line: 106, col: 14, offset: 2406},
+							pos:        position{line: 106, col: 14, offset: 2422},
 							val:        "(",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 106, col: 18, offset: 2410},
+							pos:   position{line: 106, col: 18, offset: 2426},
 							label: "expr",
 							expr: &ruleRefExpr{
-								pos:  position{line: 106, col: 23, offset: 2415},
+								pos:  position{line: 106, col: 23, offset: 2431},
 								name: "IntExpr",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 106, col: 31, offset: 2423},
+							pos:        position{line: 106, col: 31, offset: 2439},
 							val:        ")",
 							ignoreCase: false,
 						},
@@ -359,15 +359,15 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprCommand",
-			pos:  position{line: 110, col: 1, offset: 2474},
+			pos:  position{line: 110, col: 1, offset: 2490},
 			expr: &actionExpr{
-				pos: position{line: 110, col: 21, offset: 2494},
+				pos: position{line: 110, col: 21, offset: 2510},
 				run: (*parser).callonDRollExprCommand1,
 				expr: &labeledExpr{
-					pos:   position{line: 110, col: 21, offset: 2494},
+					pos:   position{line: 110, col: 21, offset: 2510},
 					label: "expr",
 					expr: &ruleRefExpr{
-						pos:  position{line: 110, col: 26, offset: 2499},
+						pos:  position{line: 110, col: 26, offset: 2515},
 						name: "DRollExpr",
 					},
 				},
@@ -375,15 +375,15 @@ var g = &grammar{
 		},
 		{
 			name: "DRollCompCommand",
-			pos:  position{line: 118, col: 1, offset: 2655},
+			pos:  position{line: 118, col: 1, offset: 2671},
 			expr: &actionExpr{
-				pos: position{line: 118, col: 21, offset: 2675},
+				pos: position{line: 118, col: 21, offset: 2691},
 				run: (*parser).callonDRollCompCommand1,
 				expr: &labeledExpr{
-					pos:   position{line: 118, col: 21, offset: 2675},
+					pos:   position{line: 118, col: 21, offset: 2691},
 					label: "expr",
 					expr: &ruleRefExpr{
-						pos:  position{line: 118, col: 26, offset: 2680},
+						pos:  position{line: 118, col: 26, offset: 2696},
 						name: "DRollComp",
 					},
 				},
@@ -391,36 +391,36 @@ var g = &grammar{
 		},
 		{
 			name: "BRollList",
-			pos:  position{line: 126, col: 1, offset: 2836},
+			pos:  position{line: 126, col: 1, offset: 2852},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 14, offset: 2849},
+				pos: position{line: 126, col: 14, offset: 2865},
 				run: (*parser).callonBRollList1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 14, offset: 2849},
+					pos: position{line: 126, col: 14, offset: 2865},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 126, col: 14, offset: 2849},
+							pos:   position{line: 126, col: 14, offset: 2865},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 20, offset: 2855},
+								pos:  position{line: 126, col: 20, offset: 2871},
 								name: "BRoll",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 26, offset: 2861},
+							pos:   position{line: 126, col: 26, offset: 2877},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 126, col: 31, offset: 2866},
+								pos: position{line: 126, col: 31, offset: 2882},
 								expr: &seqExpr{
-									pos: position{line: 126, col: 32, offset: 2867},
+									pos: position{line: 126, col: 32, offset: 2883},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 126, col: 32, offset: 2867},
+											pos:        position{line: 126, col: 32, offset: 2883},
 											val:        "+",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 126, col: 36, offset: 2871},
+											pos:  position{line: 126, col: 36, offset: 2887},
 											name: "BRoll",
 										},
 									},
@@ -433,34 +433,34 @@ var g = &grammar{
 		},
 		{
 			name: "BRollComp",
-			pos:  position{line: 138, col: 1, offset: 3111},
+			pos:  position{line: 138, col: 1, offset: 3127},
 			expr: &actionExpr{
-				pos: position{line: 138, col: 14, offset: 3124},
+				pos: position{line: 138, col: 14, offset: 3140},
 				run: (*parser).callonBRollComp1,
 				expr: &seqExpr{
-					pos: position{line: 138, col: 14, offset: 3124},
+					pos: position{line: 138, col: 14, offset: 3140},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 138, col: 14, offset: 3124},
+							pos:   position{line: 138, col: 14, offset: 3140},
 							label: "left",
 							expr: &ruleRefExpr{
-								pos:  position{line: 138, col: 19, offset: 3129},
+								pos:  position{line: 138, col: 19, offset: 3145},
 								name: "BRollList",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 138, col: 29, offset: 3139},
+							pos:   position{line: 138, col: 29, offset: 3155},
 							label: "op",
 							expr: &ruleRefExpr{
-								pos:  position{line: 138, col: 32, offset: 3142},
+								pos:  position{line: 138, col: 32, offset: 3158},
 								name: "CompareOp",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 138, col: 42, offset: 3152},
+							pos:   position{line: 138, col: 42, offset: 3168},
 							label: "right",
 							expr: &ruleRefExpr{
-								pos:  position{line: 138, col: 48, offset: 3158},
+								pos:  position{line: 138, col: 48, offset: 3174},
 								name: "IntExpr",
 							},
 						},
@@ -470,36 +470,36 @@ var g = &grammar{
 		},
 		{
 			name: "RRollList",
-			pos:  position{line: 148, col: 1, offset: 3293},
+			pos:  position{line: 148, col: 1, offset: 3309},
 			expr: &actionExpr{
-				pos: position{line: 148, col: 14, offset: 3306},
+				pos: position{line: 148, col: 14, offset: 3322},
 				run: (*parser).callonRRollList1,
 				expr: &seqExpr{
-					pos: position{line: 148, col: 14, offset: 3306},
+					pos: position{line: 148, col: 14, offset: 3322},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 148, col: 14, offset: 3306},
+							pos:   position{line: 148, col: 14, offset: 3322},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 148, col: 20, offset: 3312},
+								pos:  position{line: 148, col: 20, offset: 3328},
 								name: "RRoll",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 148, col: 26, offset: 3318},
+							pos:   position{line: 148, col: 26, offset: 3334},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 148, col: 31, offset: 3323},
+								pos: position{line: 148, col: 31, offset: 3339},
 								expr: &seqExpr{
-									pos: position{line: 148, col: 32, offset: 3324},
+									pos: position{line: 148, col: 32, offset: 3340},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 148, col: 32, offset: 3324},
+											pos:        position{line: 148, col: 32, offset: 3340},
 											val:        "+",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 148, col: 36, offset: 3328},
+											pos:  position{line: 148, col: 36, offset: 3344},
 											name: "RRoll",
 										},
 									},
@@ -507,24 +507,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 148, col: 44, offset: 3336},
+							pos:   position{line: 148, col: 44, offset: 3352},
 							label: "th",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 148, col: 47, offset: 3339},
+								pos: position{line: 148, col: 47, offset: 3355},
 								expr: &seqExpr{
-									pos: position{line: 148, col: 48, offset: 3340},
+									pos: position{line: 148, col: 48, offset: 3356},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 148, col: 48, offset: 3340},
+											pos:        position{line: 148, col: 48, offset: 3356},
 											val:        "[",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 148, col: 52, offset: 3344},
+											pos:  position{line: 148, col: 52, offset: 3360},
 											name: "IntExpr",
 										},
 										&litMatcher{
-											pos:        position{line: 148, col: 60, offset: 3352},
+											pos:        position{line: 148, col: 60, offset: 3368},
 											val:        "]",
 											ignoreCase: false,
 										},
@@ -538,34 +538,34 @@ var g = &grammar{
 		},
 		{
 			name: "RRollComp",
-			pos:  position{line: 167, col: 1, offset: 3726},
+			pos:  position{line: 167, col: 1, offset: 3742},
 			expr: &actionExpr{
-				pos: position{line: 167, col: 14, offset: 3739},
+				pos: position{line: 167, col: 14, offset: 3755},
 				run: (*parser).callonRRollComp1,
 				expr: &seqExpr{
-					pos: position{line: 167, col: 14, offset: 3739},
+					pos: position{line: 167, col: 14, offset: 3755},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 167, col: 14, offset: 3739},
+							pos:   position{line: 167, col: 14, offset: 3755},
 							label: "left",
 							expr: &ruleRefExpr{
-								pos:  position{line: 167, col: 19, offset: 3744},
+								pos:  position{line: 167, col: 19, offset: 3760},
 								name: "RRollList",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 167, col: 29, offset: 3754},
+							pos:   position{line: 167, col: 29, offset: 3770},
 							label: "op",
 							expr: &ruleRefExpr{
-								pos:  position{line: 167, col: 32, offset: 3757},
+								pos:  position{line: 167, col: 32, offset: 3773},
 								name: "CompareOp",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 167, col: 42, offset: 3767},
+							pos:   position{line: 167, col: 42, offset: 3783},
 							label: "right",
 							expr: &ruleRefExpr{
-								pos:  position{line: 167, col: 48, offset: 3773},
+								pos:  position{line: 167, col: 48, offset: 3789},
 								name: "IntExpr",
 							},
 						},
@@ -575,34 +575,34 @@ var g = &grammar{
 		},
 		{
 			name: "URollComp",
-			pos:  position{line: 177, col: 1, offset: 3908},
+			pos:  position{line: 177, col: 1, offset: 3924},
 			expr: &actionExpr{
-				pos: position{line: 177, col: 14, offset: 3921},
+				pos: position{line: 177, col: 14, offset: 3937},
 				run: (*parser).callonURollComp1,
 				expr: &seqExpr{
-					pos: position{line: 177, col: 14, offset: 3921},
+					pos: position{line: 177, col: 14, offset: 3937},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 177, col: 14, offset: 3921},
+							pos:   position{line: 177, col: 14, offset: 3937},
 							label: "left",
 							expr: &ruleRefExpr{
-								pos:  position{line: 177, col: 19, offset: 3926},
+								pos:  position{line: 177, col: 19, offset: 3942},
 								name: "URollExpr",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 177, col: 29, offset: 3936},
+							pos:   position{line: 177, col: 29, offset: 3952},
 							label: "op",
 							expr: &ruleRefExpr{
-								pos:  position{line: 177, col: 32, offset: 3939},
+								pos:  position{line: 177, col: 32, offset: 3955},
 								name: "CompareOp",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 177, col: 42, offset: 3949},
+							pos:   position{line: 177, col: 42, offset: 3965},
 							label: "right",
 							expr: &ruleRefExpr{
-								pos:  position{line: 177, col: 48, offset: 3955},
+								pos:  position{line: 177, col: 48, offset: 3971},
 								name: "IntExpr",
 							},
 						},
@@ -612,77 +612,77 @@ var g = &grammar{
 		},
 		{
 			name: "URollExpr",
-			pos:  position{line: 187, col: 1, offset: 4090},
+			pos:  position{line: 187, col: 1, offset: 4106},
 			expr: &actionExpr{
-				pos: position{line: 187, col: 14, offset: 4103},
+				pos: position{line: 187, col: 14, offset: 4119},
 				run: (*parser).callonURollExpr1,
 				expr: &seqExpr{
-					pos: position{line: 187, col: 14, offset: 4103},
+					pos: position{line: 187, col: 14, offset: 4119},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 187, col: 14, offset: 4103},
+							pos:   position{line: 187, col: 14, offset: 4119},
 							label: "uRollList",
 							expr: &ruleRefExpr{
-								pos:  position{line: 187, col: 24, offset: 4113},
+								pos:  position{line: 187, col: 24, offset: 4129},
 								name: "URollList",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 187, col: 34, offset: 4123},
+							pos:   position{line: 187, col: 34, offset: 4139},
 							label: "bonus",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 187, col: 40, offset: 4129},
+								pos: position{line: 187, col: 40, offset: 4145},
 								expr: &choiceExpr{
-									pos: position{line: 187, col: 41, offset: 4130},
+									pos: position{line: 187, col: 41, offset: 4146},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 187, col: 41, offset: 4130},
+											pos: position{line: 187, col: 41, offset: 4146},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 187, col: 41, offset: 4130},
+													pos:        position{line: 187, col: 41, offset: 4146},
 													val:        "+",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 187, col: 45, offset: 4134},
+													pos:  position{line: 187, col: 45, offset: 4150},
 													name: "IntExprAdditive",
 												},
 											},
 										},
 										&seqExpr{
-											pos: position{line: 187, col: 63, offset: 4152},
+											pos: position{line: 187, col: 63, offset: 4168},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 187, col: 63, offset: 4152},
+													pos:        position{line: 187, col: 63, offset: 4168},
 													val:        "-",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 187, col: 67, offset: 4156},
+													pos:  position{line: 187, col: 67, offset: 4172},
 													name: "IntExprMultitive",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 187, col: 84, offset: 4173},
+													pos: position{line: 187, col: 84, offset: 4189},
 													expr: &seqExpr{
-														pos: position{line: 187, col: 85, offset: 4174},
+														pos: position{line: 187, col: 85, offset: 4190},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 187, col: 86, offset: 4175},
+																pos: position{line: 187, col: 86, offset: 4191},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 187, col: 86, offset: 4175},
+																		pos:        position{line: 187, col: 86, offset: 4191},
 																		val:        "+",
 																		ignoreCase: false,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 187, col: 92, offset: 4181},
+																		pos:        position{line: 187, col: 92, offset: 4197},
 																		val:        "-",
 																		ignoreCase: false,
 																	},
 																},
 															},
 															&ruleRefExpr{
-																pos:  position{line: 187, col: 97, offset: 4186},
+																pos:  position{line: 187, col: 97, offset: 4202},
 																name: "IntExprMultitive",
 															},
 														},
@@ -700,36 +700,36 @@ var g = &grammar{
 		},
 		{
 			name: "URollList",
-			pos:  position{line: 221, col: 1, offset: 5083},
+			pos:  position{line: 221, col: 1, offset: 5099},
 			expr: &actionExpr{
-				pos: position{line: 221, col: 14, offset: 5096},
+				pos: position{line: 221, col: 14, offset: 5112},
 				run: (*parser).callonURollList1,
 				expr: &seqExpr{
-					pos: position{line: 221, col: 14, offset: 5096},
+					pos: position{line: 221, col: 14, offset: 5112},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 221, col: 14, offset: 5096},
+							pos:   position{line: 221, col: 14, offset: 5112},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 221, col: 20, offset: 5102},
+								pos:  position{line: 221, col: 20, offset: 5118},
 								name: "URoll",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 221, col: 26, offset: 5108},
+							pos:   position{line: 221, col: 26, offset: 5124},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 221, col: 31, offset: 5113},
+								pos: position{line: 221, col: 31, offset: 5129},
 								expr: &seqExpr{
-									pos: position{line: 221, col: 32, offset: 5114},
+									pos: position{line: 221, col: 32, offset: 5130},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 221, col: 32, offset: 5114},
+											pos:        position{line: 221, col: 32, offset: 5130},
 											val:        "+",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 221, col: 36, offset: 5118},
+											pos:  position{line: 221, col: 36, offset: 5134},
 											name: "URoll",
 										},
 									},
@@ -737,24 +737,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 221, col: 44, offset: 5126},
+							pos:   position{line: 221, col: 44, offset: 5142},
 							label: "th",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 221, col: 47, offset: 5129},
+								pos: position{line: 221, col: 47, offset: 5145},
 								expr: &seqExpr{
-									pos: position{line: 221, col: 48, offset: 5130},
+									pos: position{line: 221, col: 48, offset: 5146},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 221, col: 48, offset: 5130},
+											pos:        position{line: 221, col: 48, offset: 5146},
 											val:        "[",
 											ignoreCase: false,
 										},
 										&ruleRefExpr{
-											pos:  position{line: 221, col: 52, offset: 5134},
+											pos:  position{line: 221, col: 52, offset: 5150},
 											name: "IntExpr",
 										},
 										&litMatcher{
-											pos:        position{line: 221, col: 60, offset: 5142},
+											pos:        position{line: 221, col: 60, offset: 5158},
 											val:        "]",
 											ignoreCase: false,
 										},
@@ -768,54 +768,54 @@ var g = &grammar{
 		},
 		{
 			name: "IntExpr",
-			pos:  position{line: 240, col: 1, offset: 5516},
+			pos:  position{line: 240, col: 1, offset: 5532},
 			expr: &ruleRefExpr{
-				pos:  position{line: 240, col: 12, offset: 5527},
+				pos:  position{line: 240, col: 12, offset: 5543},
 				name: "IntExprAdditive",
 			},
 		},
 		{
 			name: "IntExprAdditive",
-			pos:  position{line: 242, col: 1, offset: 5544},
+			pos:  position{line: 242, col: 1, offset: 5560},
 			expr: &actionExpr{
-				pos: position{line: 242, col: 20, offset: 5563},
+				pos: position{line: 242, col: 20, offset: 5579},
 				run: (*parser).callonIntExprAdditive1,
 				expr: &seqExpr{
-					pos: position{line: 242, col: 20, offset: 5563},
+					pos: position{line: 242, col: 20, offset: 5579},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 242, col: 20, offset: 5563},
+							pos:   position{line: 242, col: 20, offset: 5579},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 242, col: 26, offset: 5569},
+								pos:  position{line: 242, col: 26, offset: 5585},
 								name: "IntExprMultitive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 242, col: 43, offset: 5586},
+							pos:   position{line: 242, col: 43, offset: 5602},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 242, col: 48, offset: 5591},
+								pos: position{line: 242, col: 48, offset: 5607},
 								expr: &seqExpr{
-									pos: position{line: 242, col: 49, offset: 5592},
+									pos: position{line: 242, col: 49, offset: 5608},
 									exprs: []interface{}{
 										&choiceExpr{
-											pos: position{line: 242, col: 50, offset: 5593},
+											pos: position{line: 242, col: 50, offset: 5609},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 242, col: 50, offset: 5593},
+													pos:        position{line: 242, col: 50, offset: 5609},
 													val:        "+",
 													ignoreCase: false,
 												},
 												&litMatcher{
-													pos:        position{line: 242, col: 56, offset: 5599},
+													pos:        position{line: 242, col: 56, offset: 5615},
 													val:        "-",
 													ignoreCase: false,
 												},
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 242, col: 61, offset: 5604},
+											pos:  position{line: 242, col: 61, offset: 5620},
 											name: "IntExprMultitive",
 										},
 									},
@@ -828,70 +828,63 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprMultitive",
-			pos:  position{line: 246, col: 1, offset: 5673},
+			pos:  position{line: 246, col: 1, offset: 5689},
 			expr: &actionExpr{
-				pos: position{line: 246, col: 21, offset: 5693},
+				pos: position{line: 246, col: 21, offset: 5709},
 				run: (*parser).callonIntExprMultitive1,
 				expr: &seqExpr{
-					pos: position{line: 246, col: 21, offset: 5693},
+					pos: position{line: 246, col: 21, offset: 5709},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 246, col: 21, offset: 5693},
+							pos:   position{line: 246, col: 21, offset: 5709},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 246, col: 27, offset: 5699},
+								pos:  position{line: 246, col: 27, offset: 5715},
 								name: "IntExprPrimary",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 246, col: 42, offset: 5714},
+							pos:   position{line: 246, col: 42, offset: 5730},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 246, col: 47, offset: 5719},
+								pos: position{line: 246, col: 47, offset: 5735},
 								expr: &choiceExpr{
-									pos: position{line: 246, col: 48, offset: 5720},
+									pos: position{line: 246, col: 48, offset: 5736},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 246, col: 48, offset: 5720},
+											pos: position{line: 246, col: 48, offset: 5736},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 246, col: 48, offset: 5720},
+													pos:        position{line: 246, col: 48, offset: 5736},
 													val:        "/",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 246, col: 52, offset: 5724},
+													pos:  position{line: 246, col: 52, offset: 5740},
 													name: "IntExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 246, col: 67, offset: 5739},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 246, col: 67, offset: 5755},
+													expr: &charClassMatcher{
+														pos:        position{line: 246, col: 67, offset: 5755},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
-											pos: position{line: 246, col: 76, offset: 5748},
+											pos: position{line: 246, col: 76, offset: 5764},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 246, col: 77, offset: 5749},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 246, col: 77, offset: 5749},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 246, col: 83, offset: 5755},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 246, col: 76, offset: 5764},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 246, col: 88, offset: 5760},
+													pos:  position{line: 246, col: 80, offset: 5768},
 													name: "IntExprPrimary",
 												},
 											},
@@ -906,24 +899,24 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprPrimary",
-			pos:  position{line: 250, col: 1, offset: 5829},
+			pos:  position{line: 250, col: 1, offset: 5836},
 			expr: &choiceExpr{
-				pos: position{line: 250, col: 19, offset: 5847},
+				pos: position{line: 250, col: 19, offset: 5854},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 250, col: 19, offset: 5847},
+						pos:  position{line: 250, col: 19, offset: 5854},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 250, col: 29, offset: 5857},
+						pos:  position{line: 250, col: 29, offset: 5864},
 						name: "IntExprUnaryPlus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 250, col: 48, offset: 5876},
+						pos:  position{line: 250, col: 48, offset: 5883},
 						name: "IntExprUnaryMinus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 250, col: 68, offset: 5896},
+						pos:  position{line: 250, col: 68, offset: 5903},
 						name: "ParenthesizedIntExpr",
 					},
 				},
@@ -931,28 +924,28 @@ var g = &grammar{
 		},
 		{
 			name: "ParenthesizedIntExpr",
-			pos:  position{line: 252, col: 1, offset: 5918},
+			pos:  position{line: 252, col: 1, offset: 5925},
 			expr: &actionExpr{
-				pos: position{line: 252, col: 25, offset: 5942},
+				pos: position{line: 252, col: 25, offset: 5949},
 				run: (*parser).callonParenthesizedIntExpr1,
 				expr: &seqExpr{
-					pos: position{line: 252, col: 25, offset: 5942},
+					pos: position{line: 252, col: 25, offset: 5949},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 252, col: 25, offset: 5942},
+							pos:        position{line: 252, col: 25, offset: 5949},
 							val:        "(",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 252, col: 29, offset: 5946},
+							pos:   position{line: 252, col: 29, offset: 5953},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 252, col: 31, offset: 5948},
+								pos:  position{line: 252, col: 31, offset: 5955},
 								name: "IntExpr",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 252, col: 39, offset: 5956},
+							pos:        position{line: 252, col: 39, offset: 5963},
 							val:        ")",
 							ignoreCase: false,
 						},
@@ -962,23 +955,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprUnaryPlus",
-			pos:  position{line: 256, col: 1, offset: 5991},
+			pos:  position{line: 256, col: 1, offset: 5998},
 			expr: &actionExpr{
-				pos: position{line: 256, col: 21, offset: 6011},
+				pos: position{line: 256, col: 21, offset: 6018},
 				run: (*parser).callonIntExprUnaryPlus1,
 				expr: &seqExpr{
-					pos: position{line: 256, col: 21, offset: 6011},
+					pos: position{line: 256, col: 21, offset: 6018},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 256, col: 21, offset: 6011},
+							pos:        position{line: 256, col: 21, offset: 6018},
 							val:        "+",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 256, col: 25, offset: 6015},
+							pos:   position{line: 256, col: 25, offset: 6022},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 256, col: 27, offset: 6017},
+								pos:  position{line: 256, col: 27, offset: 6024},
 								name: "IntExprPrimary",
 							},
 						},
@@ -988,23 +981,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntExprUnaryMinus",
-			pos:  position{line: 260, col: 1, offset: 6063},
+			pos:  position{line: 260, col: 1, offset: 6070},
 			expr: &actionExpr{
-				pos: position{line: 260, col: 22, offset: 6084},
+				pos: position{line: 260, col: 22, offset: 6091},
 				run: (*parser).callonIntExprUnaryMinus1,
 				expr: &seqExpr{
-					pos: position{line: 260, col: 22, offset: 6084},
+					pos: position{line: 260, col: 22, offset: 6091},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 260, col: 22, offset: 6084},
+							pos:        position{line: 260, col: 22, offset: 6091},
 							val:        "-",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 260, col: 26, offset: 6088},
+							pos:   position{line: 260, col: 26, offset: 6095},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 260, col: 28, offset: 6090},
+								pos:  position{line: 260, col: 28, offset: 6097},
 								name: "IntExprPrimary",
 							},
 						},
@@ -1014,34 +1007,34 @@ var g = &grammar{
 		},
 		{
 			name: "DRollComp",
-			pos:  position{line: 264, col: 1, offset: 6155},
+			pos:  position{line: 264, col: 1, offset: 6162},
 			expr: &actionExpr{
-				pos: position{line: 264, col: 14, offset: 6168},
+				pos: position{line: 264, col: 14, offset: 6175},
 				run: (*parser).callonDRollComp1,
 				expr: &seqExpr{
-					pos: position{line: 264, col: 14, offset: 6168},
+					pos: position{line: 264, col: 14, offset: 6175},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 264, col: 14, offset: 6168},
+							pos:   position{line: 264, col: 14, offset: 6175},
 							label: "left",
 							expr: &ruleRefExpr{
-								pos:  position{line: 264, col: 19, offset: 6173},
+								pos:  position{line: 264, col: 19, offset: 6180},
 								name: "DRollExprAdditive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 264, col: 37, offset: 6191},
+							pos:   position{line: 264, col: 37, offset: 6198},
 							label: "op",
 							expr: &ruleRefExpr{
-								pos:  position{line: 264, col: 40, offset: 6194},
+								pos:  position{line: 264, col: 40, offset: 6201},
 								name: "CompareOp",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 264, col: 50, offset: 6204},
+							pos:   position{line: 264, col: 50, offset: 6211},
 							label: "right",
 							expr: &ruleRefExpr{
-								pos:  position{line: 264, col: 56, offset: 6210},
+								pos:  position{line: 264, col: 56, offset: 6217},
 								name: "IntExpr",
 							},
 						},
@@ -1051,54 +1044,54 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExpr",
-			pos:  position{line: 272, col: 1, offset: 6317},
+			pos:  position{line: 272, col: 1, offset: 6324},
 			expr: &ruleRefExpr{
-				pos:  position{line: 272, col: 14, offset: 6330},
+				pos:  position{line: 272, col: 14, offset: 6337},
 				name: "DRollExprAdditive",
 			},
 		},
 		{
 			name: "DRollExprAdditive",
-			pos:  position{line: 274, col: 1, offset: 6349},
+			pos:  position{line: 274, col: 1, offset: 6356},
 			expr: &actionExpr{
-				pos: position{line: 274, col: 22, offset: 6370},
+				pos: position{line: 274, col: 22, offset: 6377},
 				run: (*parser).callonDRollExprAdditive1,
 				expr: &seqExpr{
-					pos: position{line: 274, col: 22, offset: 6370},
+					pos: position{line: 274, col: 22, offset: 6377},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 274, col: 22, offset: 6370},
+							pos:   position{line: 274, col: 22, offset: 6377},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 274, col: 28, offset: 6376},
+								pos:  position{line: 274, col: 28, offset: 6383},
 								name: "DRollExprMultitive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 274, col: 47, offset: 6395},
+							pos:   position{line: 274, col: 47, offset: 6402},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 274, col: 52, offset: 6400},
+								pos: position{line: 274, col: 52, offset: 6407},
 								expr: &seqExpr{
-									pos: position{line: 274, col: 53, offset: 6401},
+									pos: position{line: 274, col: 53, offset: 6408},
 									exprs: []interface{}{
 										&choiceExpr{
-											pos: position{line: 274, col: 54, offset: 6402},
+											pos: position{line: 274, col: 54, offset: 6409},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 274, col: 54, offset: 6402},
+													pos:        position{line: 274, col: 54, offset: 6409},
 													val:        "+",
 													ignoreCase: false,
 												},
 												&litMatcher{
-													pos:        position{line: 274, col: 60, offset: 6408},
+													pos:        position{line: 274, col: 60, offset: 6415},
 													val:        "-",
 													ignoreCase: false,
 												},
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 274, col: 65, offset: 6413},
+											pos:  position{line: 274, col: 65, offset: 6420},
 											name: "DRollExprMultitive",
 										},
 									},
@@ -1111,70 +1104,63 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprMultitive",
-			pos:  position{line: 278, col: 1, offset: 6484},
+			pos:  position{line: 278, col: 1, offset: 6491},
 			expr: &actionExpr{
-				pos: position{line: 278, col: 23, offset: 6506},
+				pos: position{line: 278, col: 23, offset: 6513},
 				run: (*parser).callonDRollExprMultitive1,
 				expr: &seqExpr{
-					pos: position{line: 278, col: 23, offset: 6506},
+					pos: position{line: 278, col: 23, offset: 6513},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 278, col: 23, offset: 6506},
+							pos:   position{line: 278, col: 23, offset: 6513},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 278, col: 29, offset: 6512},
+								pos:  position{line: 278, col: 29, offset: 6519},
 								name: "DRollExprPrimary",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 278, col: 46, offset: 6529},
+							pos:   position{line: 278, col: 46, offset: 6536},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 278, col: 51, offset: 6534},
+								pos: position{line: 278, col: 51, offset: 6541},
 								expr: &choiceExpr{
-									pos: position{line: 278, col: 52, offset: 6535},
+									pos: position{line: 278, col: 52, offset: 6542},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 278, col: 52, offset: 6535},
+											pos: position{line: 278, col: 52, offset: 6542},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 278, col: 52, offset: 6535},
+													pos:        position{line: 278, col: 52, offset: 6542},
 													val:        "/",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 278, col: 56, offset: 6539},
+													pos:  position{line: 278, col: 56, offset: 6546},
 													name: "DRollExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 278, col: 73, offset: 6556},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 278, col: 73, offset: 6563},
+													expr: &charClassMatcher{
+														pos:        position{line: 278, col: 73, offset: 6563},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
-											pos: position{line: 278, col: 82, offset: 6565},
+											pos: position{line: 278, col: 82, offset: 6572},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 278, col: 83, offset: 6566},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 278, col: 83, offset: 6566},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 278, col: 89, offset: 6572},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 278, col: 82, offset: 6572},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 278, col: 94, offset: 6577},
+													pos:  position{line: 278, col: 86, offset: 6576},
 													name: "DRollExprPrimary",
 												},
 											},
@@ -1189,32 +1175,32 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprPrimary",
-			pos:  position{line: 282, col: 1, offset: 6648},
+			pos:  position{line: 282, col: 1, offset: 6646},
 			expr: &choiceExpr{
-				pos: position{line: 282, col: 21, offset: 6668},
+				pos: position{line: 282, col: 21, offset: 6666},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 282, col: 21, offset: 6668},
+						pos:  position{line: 282, col: 21, offset: 6666},
 						name: "DRoll",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 282, col: 29, offset: 6676},
+						pos:  position{line: 282, col: 29, offset: 6674},
 						name: "RandomNumber",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 282, col: 44, offset: 6691},
+						pos:  position{line: 282, col: 44, offset: 6689},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 282, col: 54, offset: 6701},
+						pos:  position{line: 282, col: 54, offset: 6699},
 						name: "DRollExprUnaryPlus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 282, col: 75, offset: 6722},
+						pos:  position{line: 282, col: 75, offset: 6720},
 						name: "DRollExprUnaryMinus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 282, col: 97, offset: 6744},
+						pos:  position{line: 282, col: 97, offset: 6742},
 						name: "ParenthesizedDRollExpr",
 					},
 				},
@@ -1222,28 +1208,28 @@ var g = &grammar{
 		},
 		{
 			name: "ParenthesizedDRollExpr",
-			pos:  position{line: 284, col: 1, offset: 6768},
+			pos:  position{line: 284, col: 1, offset: 6766},
 			expr: &actionExpr{
-				pos: position{line: 284, col: 27, offset: 6794},
+				pos: position{line: 284, col: 27, offset: 6792},
 				run: (*parser).callonParenthesizedDRollExpr1,
 				expr: &seqExpr{
-					pos: position{line: 284, col: 27, offset: 6794},
+					pos: position{line: 284, col: 27, offset: 6792},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 284, col: 27, offset: 6794},
+							pos:        position{line: 284, col: 27, offset: 6792},
 							val:        "(",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 284, col: 31, offset: 6798},
+							pos:   position{line: 284, col: 31, offset: 6796},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 284, col: 33, offset: 6800},
+								pos:  position{line: 284, col: 33, offset: 6798},
 								name: "DRollExpr",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 284, col: 43, offset: 6810},
+							pos:        position{line: 284, col: 43, offset: 6808},
 							val:        ")",
 							ignoreCase: false,
 						},
@@ -1253,23 +1239,23 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprUnaryPlus",
-			pos:  position{line: 288, col: 1, offset: 6845},
+			pos:  position{line: 288, col: 1, offset: 6843},
 			expr: &actionExpr{
-				pos: position{line: 288, col: 23, offset: 6867},
+				pos: position{line: 288, col: 23, offset: 6865},
 				run: (*parser).callonDRollExprUnaryPlus1,
 				expr: &seqExpr{
-					pos: position{line: 288, col: 23, offset: 6867},
+					pos: position{line: 288, col: 23, offset: 6865},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 288, col: 23, offset: 6867},
+							pos:        position{line: 288, col: 23, offset: 6865},
 							val:        "+",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 288, col: 27, offset: 6871},
+							pos:   position{line: 288, col: 27, offset: 6869},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 288, col: 29, offset: 6873},
+								pos:  position{line: 288, col: 29, offset: 6871},
 								name: "DRollExprPrimary",
 							},
 						},
@@ -1279,23 +1265,23 @@ var g = &grammar{
 		},
 		{
 			name: "DRollExprUnaryMinus",
-			pos:  position{line: 292, col: 1, offset: 6921},
+			pos:  position{line: 292, col: 1, offset: 6919},
 			expr: &actionExpr{
-				pos: position{line: 292, col: 24, offset: 6944},
+				pos: position{line: 292, col: 24, offset: 6942},
 				run: (*parser).callonDRollExprUnaryMinus1,
 				expr: &seqExpr{
-					pos: position{line: 292, col: 24, offset: 6944},
+					pos: position{line: 292, col: 24, offset: 6942},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 292, col: 24, offset: 6944},
+							pos:        position{line: 292, col: 24, offset: 6942},
 							val:        "-",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 292, col: 28, offset: 6948},
+							pos:   position{line: 292, col: 28, offset: 6946},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 292, col: 30, offset: 6950},
+								pos:  position{line: 292, col: 30, offset: 6948},
 								name: "DRollExprPrimary",
 							},
 						},
@@ -1305,54 +1291,54 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExpr",
-			pos:  position{line: 296, col: 1, offset: 7017},
+			pos:  position{line: 296, col: 1, offset: 7015},
 			expr: &ruleRefExpr{
-				pos:  position{line: 296, col: 16, offset: 7032},
+				pos:  position{line: 296, col: 16, offset: 7030},
 				name: "IntRandExprAdditive",
 			},
 		},
 		{
 			name: "IntRandExprAdditive",
-			pos:  position{line: 298, col: 1, offset: 7053},
+			pos:  position{line: 298, col: 1, offset: 7051},
 			expr: &actionExpr{
-				pos: position{line: 298, col: 24, offset: 7076},
+				pos: position{line: 298, col: 24, offset: 7074},
 				run: (*parser).callonIntRandExprAdditive1,
 				expr: &seqExpr{
-					pos: position{line: 298, col: 24, offset: 7076},
+					pos: position{line: 298, col: 24, offset: 7074},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 298, col: 24, offset: 7076},
+							pos:   position{line: 298, col: 24, offset: 7074},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 298, col: 30, offset: 7082},
+								pos:  position{line: 298, col: 30, offset: 7080},
 								name: "IntRandExprMultitive",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 298, col: 51, offset: 7103},
+							pos:   position{line: 298, col: 51, offset: 7101},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 298, col: 56, offset: 7108},
+								pos: position{line: 298, col: 56, offset: 7106},
 								expr: &seqExpr{
-									pos: position{line: 298, col: 57, offset: 7109},
+									pos: position{line: 298, col: 57, offset: 7107},
 									exprs: []interface{}{
 										&choiceExpr{
-											pos: position{line: 298, col: 58, offset: 7110},
+											pos: position{line: 298, col: 58, offset: 7108},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 298, col: 58, offset: 7110},
+													pos:        position{line: 298, col: 58, offset: 7108},
 													val:        "+",
 													ignoreCase: false,
 												},
 												&litMatcher{
-													pos:        position{line: 298, col: 64, offset: 7116},
+													pos:        position{line: 298, col: 64, offset: 7114},
 													val:        "-",
 													ignoreCase: false,
 												},
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 298, col: 69, offset: 7121},
+											pos:  position{line: 298, col: 69, offset: 7119},
 											name: "IntRandExprMultitive",
 										},
 									},
@@ -1365,70 +1351,63 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprMultitive",
-			pos:  position{line: 302, col: 1, offset: 7194},
+			pos:  position{line: 302, col: 1, offset: 7192},
 			expr: &actionExpr{
-				pos: position{line: 302, col: 25, offset: 7218},
+				pos: position{line: 302, col: 25, offset: 7216},
 				run: (*parser).callonIntRandExprMultitive1,
 				expr: &seqExpr{
-					pos: position{line: 302, col: 25, offset: 7218},
+					pos: position{line: 302, col: 25, offset: 7216},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 302, col: 25, offset: 7218},
+							pos:   position{line: 302, col: 25, offset: 7216},
 							label: "first",
 							expr: &ruleRefExpr{
-								pos:  position{line: 302, col: 31, offset: 7224},
+								pos:  position{line: 302, col: 31, offset: 7222},
 								name: "IntRandExprPrimary",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 302, col: 50, offset: 7243},
+							pos:   position{line: 302, col: 50, offset: 7241},
 							label: "rest",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 302, col: 55, offset: 7248},
+								pos: position{line: 302, col: 55, offset: 7246},
 								expr: &choiceExpr{
-									pos: position{line: 302, col: 56, offset: 7249},
+									pos: position{line: 302, col: 56, offset: 7247},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 302, col: 56, offset: 7249},
+											pos: position{line: 302, col: 56, offset: 7247},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 302, col: 56, offset: 7249},
+													pos:        position{line: 302, col: 56, offset: 7247},
 													val:        "/",
 													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 302, col: 60, offset: 7253},
+													pos:  position{line: 302, col: 60, offset: 7251},
 													name: "IntRandExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 302, col: 79, offset: 7272},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 302, col: 79, offset: 7270},
+													expr: &charClassMatcher{
+														pos:        position{line: 302, col: 79, offset: 7270},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
-											pos: position{line: 302, col: 88, offset: 7281},
+											pos: position{line: 302, col: 88, offset: 7279},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 302, col: 89, offset: 7282},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 302, col: 89, offset: 7282},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 302, col: 95, offset: 7288},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 302, col: 88, offset: 7279},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
-													pos:  position{line: 302, col: 100, offset: 7293},
+													pos:  position{line: 302, col: 92, offset: 7283},
 													name: "IntRandExprPrimary",
 												},
 											},
@@ -1443,28 +1422,28 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprPrimary",
-			pos:  position{line: 306, col: 1, offset: 7366},
+			pos:  position{line: 306, col: 1, offset: 7355},
 			expr: &choiceExpr{
-				pos: position{line: 306, col: 23, offset: 7388},
+				pos: position{line: 306, col: 23, offset: 7377},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 306, col: 23, offset: 7388},
+						pos:  position{line: 306, col: 23, offset: 7377},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 306, col: 33, offset: 7398},
+						pos:  position{line: 306, col: 33, offset: 7387},
 						name: "RandomNumber",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 306, col: 48, offset: 7413},
+						pos:  position{line: 306, col: 48, offset: 7402},
 						name: "IntRandExprUnaryPlus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 306, col: 71, offset: 7436},
+						pos:  position{line: 306, col: 71, offset: 7425},
 						name: "IntRandExprUnaryMinus",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 306, col: 95, offset: 7460},
+						pos:  position{line: 306, col: 95, offset: 7449},
 						name: "ParenthesizedIntRandExpr",
 					},
 				},
@@ -1472,28 +1451,28 @@ var g = &grammar{
 		},
 		{
 			name: "ParenthesizedIntRandExpr",
-			pos:  position{line: 308, col: 1, offset: 7486},
+			pos:  position{line: 308, col: 1, offset: 7475},
 			expr: &actionExpr{
-				pos: position{line: 308, col: 29, offset: 7514},
+				pos: position{line: 308, col: 29, offset: 7503},
 				run: (*parser).callonParenthesizedIntRandExpr1,
 				expr: &seqExpr{
-					pos: position{line: 308, col: 29, offset: 7514},
+					pos: position{line: 308, col: 29, offset: 7503},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 308, col: 29, offset: 7514},
+							pos:        position{line: 308, col: 29, offset: 7503},
 							val:        "(",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 308, col: 33, offset: 7518},
+							pos:   position{line: 308, col: 33, offset: 7507},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 308, col: 35, offset: 7520},
+								pos:  position{line: 308, col: 35, offset: 7509},
 								name: "IntRandExpr",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 308, col: 47, offset: 7532},
+							pos:        position{line: 308, col: 47, offset: 7521},
 							val:        ")",
 							ignoreCase: false,
 						},
@@ -1503,23 +1482,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprUnaryPlus",
-			pos:  position{line: 312, col: 1, offset: 7567},
+			pos:  position{line: 312, col: 1, offset: 7556},
 			expr: &actionExpr{
-				pos: position{line: 312, col: 25, offset: 7591},
+				pos: position{line: 312, col: 25, offset: 7580},
 				run: (*parser).callonIntRandExprUnaryPlus1,
 				expr: &seqExpr{
-					pos: position{line: 312, col: 25, offset: 7591},
+					pos: position{line: 312, col: 25, offset: 7580},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 312, col: 25, offset: 7591},
+							pos:        position{line: 312, col: 25, offset: 7580},
 							val:        "+",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 312, col: 29, offset: 7595},
+							pos:   position{line: 312, col: 29, offset: 7584},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 312, col: 31, offset: 7597},
+								pos:  position{line: 312, col: 31, offset: 7586},
 								name: "IntRandExprPrimary",
 							},
 						},
@@ -1529,23 +1508,23 @@ var g = &grammar{
 		},
 		{
 			name: "IntRandExprUnaryMinus",
-			pos:  position{line: 316, col: 1, offset: 7647},
+			pos:  position{line: 316, col: 1, offset: 7636},
 			expr: &actionExpr{
-				pos: position{line: 316, col: 26, offset: 7672},
+				pos: position{line: 316, col: 26, offset: 7661},
 				run: (*parser).callonIntRandExprUnaryMinus1,
 				expr: &seqExpr{
-					pos: position{line: 316, col: 26, offset: 7672},
+					pos: position{line: 316, col: 26, offset: 7661},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 316, col: 26, offset: 7672},
+							pos:        position{line: 316, col: 26, offset: 7661},
 							val:        "-",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 316, col: 30, offset: 7676},
+							pos:   position{line: 316, col: 30, offset: 7665},
 							label: "e",
 							expr: &ruleRefExpr{
-								pos:  position{line: 316, col: 32, offset: 7678},
+								pos:  position{line: 316, col: 32, offset: 7667},
 								name: "IntRandExprPrimary",
 							},
 						},
@@ -1555,36 +1534,36 @@ var g = &grammar{
 		},
 		{
 			name: "DRoll",
-			pos:  position{line: 320, col: 1, offset: 7747},
+			pos:  position{line: 320, col: 1, offset: 7736},
 			expr: &actionExpr{
-				pos: position{line: 320, col: 10, offset: 7756},
+				pos: position{line: 320, col: 10, offset: 7745},
 				run: (*parser).callonDRoll1,
 				expr: &seqExpr{
-					pos: position{line: 320, col: 10, offset: 7756},
+					pos: position{line: 320, col: 10, offset: 7745},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 320, col: 10, offset: 7756},
+							pos:   position{line: 320, col: 10, offset: 7745},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 320, col: 14, offset: 7760},
+								pos:  position{line: 320, col: 14, offset: 7749},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 320, col: 26, offset: 7772},
+							pos:        position{line: 320, col: 26, offset: 7761},
 							val:        "d",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 320, col: 31, offset: 7777},
+							pos:   position{line: 320, col: 31, offset: 7766},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 320, col: 37, offset: 7783},
+								pos:  position{line: 320, col: 37, offset: 7772},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 320, col: 49, offset: 7795},
+							pos:  position{line: 320, col: 49, offset: 7784},
 							name: "IncRandCount",
 						},
 					},
@@ -1593,36 +1572,36 @@ var g = &grammar{
 		},
 		{
 			name: "BRoll",
-			pos:  position{line: 327, col: 1, offset: 7918},
+			pos:  position{line: 327, col: 1, offset: 7907},
 			expr: &actionExpr{
-				pos: position{line: 327, col: 10, offset: 7927},
+				pos: position{line: 327, col: 10, offset: 7916},
 				run: (*parser).callonBRoll1,
 				expr: &seqExpr{
-					pos: position{line: 327, col: 10, offset: 7927},
+					pos: position{line: 327, col: 10, offset: 7916},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 327, col: 10, offset: 7927},
+							pos:   position{line: 327, col: 10, offset: 7916},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 327, col: 14, offset: 7931},
+								pos:  position{line: 327, col: 14, offset: 7920},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 327, col: 26, offset: 7943},
+							pos:        position{line: 327, col: 26, offset: 7932},
 							val:        "b",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 327, col: 31, offset: 7948},
+							pos:   position{line: 327, col: 31, offset: 7937},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 327, col: 37, offset: 7954},
+								pos:  position{line: 327, col: 37, offset: 7943},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 327, col: 49, offset: 7966},
+							pos:  position{line: 327, col: 49, offset: 7955},
 							name: "IncRandCount",
 						},
 					},
@@ -1631,36 +1610,36 @@ var g = &grammar{
 		},
 		{
 			name: "RRoll",
-			pos:  position{line: 334, col: 1, offset: 8089},
+			pos:  position{line: 334, col: 1, offset: 8078},
 			expr: &actionExpr{
-				pos: position{line: 334, col: 10, offset: 8098},
+				pos: position{line: 334, col: 10, offset: 8087},
 				run: (*parser).callonRRoll1,
 				expr: &seqExpr{
-					pos: position{line: 334, col: 10, offset: 8098},
+					pos: position{line: 334, col: 10, offset: 8087},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 334, col: 10, offset: 8098},
+							pos:   position{line: 334, col: 10, offset: 8087},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 334, col: 14, offset: 8102},
+								pos:  position{line: 334, col: 14, offset: 8091},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 334, col: 26, offset: 8114},
+							pos:        position{line: 334, col: 26, offset: 8103},
 							val:        "r",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 334, col: 31, offset: 8119},
+							pos:   position{line: 334, col: 31, offset: 8108},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 334, col: 37, offset: 8125},
+								pos:  position{line: 334, col: 37, offset: 8114},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 334, col: 49, offset: 8137},
+							pos:  position{line: 334, col: 49, offset: 8126},
 							name: "IncRandCount",
 						},
 					},
@@ -1669,36 +1648,36 @@ var g = &grammar{
 		},
 		{
 			name: "URoll",
-			pos:  position{line: 341, col: 1, offset: 8260},
+			pos:  position{line: 341, col: 1, offset: 8249},
 			expr: &actionExpr{
-				pos: position{line: 341, col: 10, offset: 8269},
+				pos: position{line: 341, col: 10, offset: 8258},
 				run: (*parser).callonURoll1,
 				expr: &seqExpr{
-					pos: position{line: 341, col: 10, offset: 8269},
+					pos: position{line: 341, col: 10, offset: 8258},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 341, col: 10, offset: 8269},
+							pos:   position{line: 341, col: 10, offset: 8258},
 							label: "num",
 							expr: &ruleRefExpr{
-								pos:  position{line: 341, col: 14, offset: 8273},
+								pos:  position{line: 341, col: 14, offset: 8262},
 								name: "RollOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 341, col: 26, offset: 8285},
+							pos:        position{line: 341, col: 26, offset: 8274},
 							val:        "u",
 							ignoreCase: true,
 						},
 						&labeledExpr{
-							pos:   position{line: 341, col: 31, offset: 8290},
+							pos:   position{line: 341, col: 31, offset: 8279},
 							label: "sides",
 							expr: &ruleRefExpr{
-								pos:  position{line: 341, col: 37, offset: 8296},
+								pos:  position{line: 341, col: 37, offset: 8285},
 								name: "RollOperand",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 341, col: 49, offset: 8308},
+							pos:  position{line: 341, col: 49, offset: 8297},
 							name: "IncRandCount",
 						},
 					},
@@ -1707,20 +1686,20 @@ var g = &grammar{
 		},
 		{
 			name: "RollOperand",
-			pos:  position{line: 348, col: 1, offset: 8431},
+			pos:  position{line: 348, col: 1, offset: 8420},
 			expr: &choiceExpr{
-				pos: position{line: 348, col: 16, offset: 8446},
+				pos: position{line: 348, col: 16, offset: 8435},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 348, col: 16, offset: 8446},
+						pos:  position{line: 348, col: 16, offset: 8435},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 348, col: 26, offset: 8456},
+						pos:  position{line: 348, col: 26, offset: 8445},
 						name: "RandomNumber",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 348, col: 41, offset: 8471},
+						pos:  position{line: 348, col: 41, offset: 8460},
 						name: "ParenthesizedIntRandExpr",
 					},
 				},
@@ -1728,46 +1707,46 @@ var g = &grammar{
 		},
 		{
 			name: "RandomNumber",
-			pos:  position{line: 350, col: 1, offset: 8497},
+			pos:  position{line: 350, col: 1, offset: 8486},
 			expr: &actionExpr{
-				pos: position{line: 350, col: 17, offset: 8513},
+				pos: position{line: 350, col: 17, offset: 8502},
 				run: (*parser).callonRandomNumber1,
 				expr: &seqExpr{
-					pos: position{line: 350, col: 17, offset: 8513},
+					pos: position{line: 350, col: 17, offset: 8502},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 350, col: 17, offset: 8513},
+							pos:        position{line: 350, col: 17, offset: 8502},
 							val:        "[",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 350, col: 21, offset: 8517},
+							pos:   position{line: 350, col: 21, offset: 8506},
 							label: "min",
 							expr: &ruleRefExpr{
-								pos:  position{line: 350, col: 25, offset: 8521},
+								pos:  position{line: 350, col: 25, offset: 8510},
 								name: "RandomNumberOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 350, col: 45, offset: 8541},
+							pos:        position{line: 350, col: 45, offset: 8530},
 							val:        "...",
 							ignoreCase: false,
 						},
 						&labeledExpr{
-							pos:   position{line: 350, col: 51, offset: 8547},
+							pos:   position{line: 350, col: 51, offset: 8536},
 							label: "max",
 							expr: &ruleRefExpr{
-								pos:  position{line: 350, col: 55, offset: 8551},
+								pos:  position{line: 350, col: 55, offset: 8540},
 								name: "RandomNumberOperand",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 350, col: 75, offset: 8571},
+							pos:        position{line: 350, col: 75, offset: 8560},
 							val:        "]",
 							ignoreCase: false,
 						},
 						&ruleRefExpr{
-							pos:  position{line: 350, col: 79, offset: 8575},
+							pos:  position{line: 350, col: 79, offset: 8564},
 							name: "IncRandCount",
 						},
 					},
@@ -1776,16 +1755,16 @@ var g = &grammar{
 		},
 		{
 			name: "RandomNumberOperand",
-			pos:  position{line: 357, col: 1, offset: 8699},
+			pos:  position{line: 357, col: 1, offset: 8688},
 			expr: &choiceExpr{
-				pos: position{line: 357, col: 24, offset: 8722},
+				pos: position{line: 357, col: 24, offset: 8711},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 357, col: 24, offset: 8722},
+						pos:  position{line: 357, col: 24, offset: 8711},
 						name: "Integer",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 357, col: 34, offset: 8732},
+						pos:  position{line: 357, col: 34, offset: 8721},
 						name: "ParenthesizedIntExpr",
 					},
 				},
@@ -1793,30 +1772,30 @@ var g = &grammar{
 		},
 		{
 			name: "ResetRandCount",
-			pos:  position{line: 359, col: 1, offset: 8754},
+			pos:  position{line: 359, col: 1, offset: 8743},
 			expr: &stateCodeExpr{
-				pos: position{line: 359, col: 19, offset: 8772},
+				pos: position{line: 359, col: 19, offset: 8761},
 				run: (*parser).callonResetRandCount1,
 			},
 		},
 		{
 			name: "IncRandCount",
-			pos:  position{line: 364, col: 1, offset: 8816},
+			pos:  position{line: 364, col: 1, offset: 8805},
 			expr: &stateCodeExpr{
-				pos: position{line: 364, col: 17, offset: 8832},
+				pos: position{line: 364, col: 17, offset: 8821},
 				run: (*parser).callonIncRandCount1,
 			},
 		},
 		{
 			name: "Integer",
-			pos:  position{line: 369, col: 1, offset: 8905},
+			pos:  position{line: 369, col: 1, offset: 8894},
 			expr: &actionExpr{
-				pos: position{line: 369, col: 12, offset: 8916},
+				pos: position{line: 369, col: 12, offset: 8905},
 				run: (*parser).callonInteger1,
 				expr: &oneOrMoreExpr{
-					pos: position{line: 369, col: 12, offset: 8916},
+					pos: position{line: 369, col: 12, offset: 8905},
 					expr: &charClassMatcher{
-						pos:        position{line: 369, col: 12, offset: 8916},
+						pos:        position{line: 369, col: 12, offset: 8905},
 						val:        "[0-9]",
 						ranges:     []rune{'0', '9'},
 						ignoreCase: false,
@@ -1827,37 +1806,37 @@ var g = &grammar{
 		},
 		{
 			name: "CompareOp",
-			pos:  position{line: 378, col: 1, offset: 9085},
+			pos:  position{line: 378, col: 1, offset: 9074},
 			expr: &choiceExpr{
-				pos: position{line: 378, col: 14, offset: 9098},
+				pos: position{line: 378, col: 14, offset: 9087},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 378, col: 14, offset: 9098},
+						pos:        position{line: 378, col: 14, offset: 9087},
 						val:        "=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 20, offset: 9104},
+						pos:        position{line: 378, col: 20, offset: 9093},
 						val:        "<>",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 27, offset: 9111},
+						pos:        position{line: 378, col: 27, offset: 9100},
 						val:        "<=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 34, offset: 9118},
+						pos:        position{line: 378, col: 34, offset: 9107},
 						val:        "<",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 40, offset: 9124},
+						pos:        position{line: 378, col: 40, offset: 9113},
 						val:        ">=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 47, offset: 9131},
+						pos:        position{line: 378, col: 47, offset: 9120},
 						val:        ">",
 						ignoreCase: false,
 					},
@@ -1866,11 +1845,11 @@ var g = &grammar{
 		},
 		{
 			name: "EOT",
-			pos:  position{line: 380, col: 1, offset: 9136},
+			pos:  position{line: 380, col: 1, offset: 9125},
 			expr: &notExpr{
-				pos: position{line: 380, col: 8, offset: 9143},
+				pos: position{line: 380, col: 8, offset: 9132},
 				expr: &anyMatcher{
-					line: 380, col: 9, offset: 9144,
+					line: 380, col: 9, offset: 9133,
 				},
 			},
 		},
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 6747310..1037016 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -45,7 +45,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -243,7 +243,7 @@ IntExprAdditive <- first:IntExprMultitive rest:(('+' / '-') IntExprMultitive)* {
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntExprMultitive <- first:IntExprPrimary rest:('/' IntExprPrimary [ur]i / (('*' / '/') IntExprPrimary))* {
+IntExprMultitive <- first:IntExprPrimary rest:('/' IntExprPrimary [ur]i? / '*' IntExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -275,7 +275,7 @@ DRollExprAdditive <- first:DRollExprMultitive rest:(('+' / '-') DRollExprMultiti
 	return leftAssociativeAdditive(first, rest)
 }
 
-DRollExprMultitive <- first:DRollExprPrimary rest:('/' DRollExprPrimary [ur]i / (('*' / '/') DRollExprPrimary))* {
+DRollExprMultitive <- first:DRollExprPrimary rest:('/' DRollExprPrimary [ur]i? / '*' DRollExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -299,7 +299,7 @@ IntRandExprAdditive <- first:IntRandExprMultitive rest:(('+' / '-') IntRandExprM
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntRandExprMultitive <- first:IntRandExprPrimary rest:('/' IntRandExprPrimary [ur]i / (('*' / '/') IntRandExprPrimary))* {
+IntRandExprMultitive <- first:IntRandExprPrimary rest:('/' IntRandExprPrimary [ur]i? / '*' IntRandExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
-- 
2.43.0


From e9693cade716a08d529244a7f681df2d4f9d71e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 04/22] fix: reject integer literals that do not fit instead of
 saturating them

C(99999999999999999999) silently calculated with 9223372036854775807.
---
 pkg/core/parser/parser.go     | 27 +++++++++++++--------------
 pkg/core/parser/parser.pigeon |  5 ++---
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 6a32593..9cfb889 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -1806,37 +1806,37 @@ var g = &grammar{
 		},
 		{
 			name: "CompareOp",
-			pos:  position{line: 378, col: 1, offset: 9074},
+			pos:  position{line: 377, col: 1, offset: 9002},
 			expr: &choiceExpr{
-				pos: position{line: 378, col: 14, offset: 9087},
+				pos: position{line: 377, col: 14, offset: 9015},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 378, col: 14, offset: 9087},
+						pos:        position{line: 377, col: 14, offset: 9015},
 						val:        "=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 20, offset: 9093},
+						pos:        position{line: 377, col: 20, offset: 9021},
 						val:        "<>",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 27, offset: 9100},
+						pos:        position{line: 377, col: 27, offset: 9028},
 						val:        "<=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 34, offset: 9107},
+						pos:        position{line: 377, col: 34, offset: 9035},
 						val:        "<",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 40, offset: 9113},
+						pos:        position{line: 377, col: 40, offset: 9041},
 						val:        ">=",
 						ignoreCase: false,
 					},
 					&litMatcher{
-						pos:        position{line: 378, col: 47, offset: 9120},
+						pos:        position{line: 377, col: 47, offset: 9048},
 						val:        ">",
 						ignoreCase: false,
 					},
@@ -1845,11 +1845,11 @@ var g = &grammar{
 		},
 		{
 			name: "EOT",
-			pos:  position{line: 380, col: 1, offset: 9125},
+			pos:  position{line: 379, col: 1, offset: 9053},
 			expr: &notExpr{
-				pos: position{line: 380, col: 8, offset: 9132},
+				pos: position{line: 379, col: 8, offset: 9060},
 				expr: &anyMatcher{
-					line: 380, col: 9, offset: 9133,
+					line: 379, col: 9, offset: 9061,
 				},
 			},
 		},
@@ -2374,10 +2374,9 @@ func (p *parser) callonIncRandCount1() error {
 func (c *current) onInteger1() (interface{}, error) {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
 
-	return ast.NewInt(value), nil
+	return ast.NewInt(value), err
 }
 
 func (p *parser) callonInteger1() (interface{}, error) {
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 1037016..762724a 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -369,10 +369,9 @@ IncRandCount <- #{
 Integer <- [0-9]+ {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
 
-	return ast.NewInt(value), nil
+	return ast.NewInt(value), err
 }
 
 CompareOp <- "=" / "<>" / "<=" / "<" / ">=" / ">"
-- 
2.43.0


From 9ea0cfb398c948d39a8c48670df7c3b58ca5a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 05/22] fix: round quotients with integer arithmetic

/R and /U went through float64, so operands above 2^53 were divided
inexactly and 9223372036854775807/1R came out negative.
---
 pkg/core/evaluator/eval_infix_expression.go | 55 ++++++++++++++++-----
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 2903c95..d52d9da 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -2,7 +2,6 @@ package evaluator
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
@@ -126,22 +125,56 @@ func (e *Evaluator) evalIntegerDivide(
 		// 除算（小数点以下切り捨て）
 		return object.NewInteger(leftValue / rightValue), nil
 	case ast.ROUNDING_METHOD_ROUND:
-		{
-			// 除算（小数点以下四捨五入）
-			resultFloat := math.Round(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下四捨五入）
+		return object.NewInteger(divideWithRounding(leftValue, rightValue)), nil
 	case ast.ROUNDING_METHOD_ROUND_UP:
-		{
-			// 除算（小数点以下切り上げ）
-			resultFloat := math.Ceil(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下切り上げ）
+		return object.NewInteger(divideWithRoundingUp(leftValue, rightValue)), nil
 	default:
 		return nil, fmt.Errorf("evalIntegerDivide: unknown rounding method")
 	}
 }
 
+// divideWithRounding は除算を行い、小数点以下を四捨五入した商を返す。
+// float64では大きな整数を正確に表せないため、整数のまま計算する。
+func divideWithRounding(left int, right int) int {
+	quotient := left / right
+	remainder := left % right
+
+	if remainder < 0 {
+		remainder = -remainder
+	}
+
+	// 余りが除数の半分以上ならば、0から遠い方に丸める。
+	// 除数の絶対値は、符号反転でのオーバーフローを避けるため負の数で表す。
+	negativeDivisor := right
+	if negativeDivisor > 0 {
+		negativeDivisor = -negativeDivisor
+	}
+
+	if negativeDivisor+remainder < -remainder || remainder == 0 {
+		return quotient
+	}
+
+	if (left < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient - 1
+}
+
+// divideWithRoundingUp は除算を行い、小数点以下を切り上げた商を返す。
+// float64では大きな整数を正確に表せないため、整数のまま計算する。
+func divideWithRoundingUp(left int, right int) int {
+	quotient := left / right
+
+	if left%right != 0 && (left < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient
+}
+
 // evalSumRoll は加算ロールを評価する。
 func (e *Evaluator) evalSumRoll(
 	num *object.Integer,
-- 
2.43.0


From 78b07304e51171bfa2efb639dbc24aa44d67a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 06/22] fix: report integer overflow in arithmetic instead of
 wrapping

C(9223372036854775807+1) printed -9223372036854775808.
---
 pkg/core/evaluator/eval_infix_expression.go  | 32 ++++++++++++++++++--
 pkg/core/evaluator/eval_prefix_expression.go |  5 +++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index d52d9da..8c65b89 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -78,11 +78,27 @@ func (e *Evaluator) evalIntegerInfixExpression(
 
 	switch operator {
 	case "+":
-		return object.NewInteger(leftValue + rightValue), nil
+		sum := leftValue + rightValue
+		if (sum > leftValue) != (rightValue > 0) {
+			return nil, overflowError(leftValue, operator, rightValue)
+		}
+
+		return object.NewInteger(sum), nil
 	case "-":
-		return object.NewInteger(leftValue - rightValue), nil
+		difference := leftValue - rightValue
+		if (difference < leftValue) != (rightValue > 0) {
+			return nil, overflowError(leftValue, operator, rightValue)
+		}
+
+		return object.NewInteger(difference), nil
 	case "*":
-		return object.NewInteger(leftValue * rightValue), nil
+		product := leftValue * rightValue
+		if leftValue != 0 &&
+			(product/leftValue != rightValue || (leftValue == -1 && product == rightValue && product != 0)) {
+			return nil, overflowError(leftValue, operator, rightValue)
+		}
+
+		return object.NewInteger(product), nil
 	case "D":
 		return e.evalSumRoll(left, right)
 	case "B", "R":
@@ -107,6 +123,11 @@ func (e *Evaluator) evalIntegerInfixExpression(
 		left.Type(), operator, right.Type())
 }
 
+// overflowError は演算結果が整数の範囲に収まらないことを表すエラーを返す。
+func overflowError(left int, operator string, right int) error {
+	return fmt.Errorf("integer overflow: %d %s %d", left, operator, right)
+}
+
 // evalIntegerDivide は除算を評価する。
 func (e *Evaluator) evalIntegerDivide(
 	divide *ast.Divide,
@@ -120,6 +141,11 @@ func (e *Evaluator) evalIntegerDivide(
 		return nil, fmt.Errorf("%d divided by zero", leftValue)
 	}
 
+	// 最小の整数を-1で割った商は整数の範囲に収まらない
+	if rightValue == -1 && leftValue != 0 && leftValue == -leftValue {
+		return nil, overflowError(leftValue, divide.Operator(), rightValue)
+	}
+
 	switch divide.RoundingMethod {
 	case ast.ROUNDING_METHOD_ROUND_DOWN:
 		// 除算（小数点以下切り捨て）
diff --git a/pkg/core/evaluator/eval_prefix_expression.go b/pkg/core/evaluator/eval_prefix_expression.go
index 7dc16d7..be1beb6 100644
--- a/pkg/core/evaluator/eval_prefix_expression.go
+++ b/pkg/core/evaluator/eval_prefix_expression.go
@@ -42,6 +42,11 @@ func (e *Evaluator) evalIntegerPrefixExpression(
 
 	switch operator {
 	case "-":
+		// 最小の整数の符号を反転させた値は整数の範囲に収まらない
+		if value != 0 && value == -value {
+			return nil, fmt.Errorf("integer overflow: %s(%d)", operator, value)
+		}
+
 		return object.NewInteger(-value), nil
 	}
 
-- 
2.43.0


From 378d705dbd11f9290161d588adedafd9c1416c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 07/22] fix: limit the number of dice a command can roll

9999999999999999D6 made the process panic or run out of memory, since
the dice count was passed to make() unchecked.
---
 pkg/core/dice/roller/roller.go         | 13 +++++++++++++
 pkg/core/evaluator/environment.go      |  5 +++++
 pkg/core/evaluator/eval_u_roll_expr.go |  2 +-
 pkg/core/evaluator/evaluator.go        |  6 ++++++
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index ae54df5..1a0a75e 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -10,6 +10,10 @@ import (
 	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
 )
 
+// MaxNumOfDice は、一度に振ることができるダイスの最大数。
+// 巨大なダイス数の指定によってメモリを使い果たさないようにするために設ける。
+const MaxNumOfDice = 1000000
+
 // ダイスローラーを表す構造体。
 type DiceRoller struct {
 	// feederが実際にダイスを供給する
@@ -33,6 +37,7 @@ func (dr *DiceRoller) DieFeeder() feeder.DieFeeder {
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 //
 // num、sidesともに正の整数でなければならない。
+// また、numはMaxNumOfDice以下でなければならない。
 // この条件が満たされていなかった場合は、エラーを返す。
 func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 	if sides < 1 {
@@ -51,6 +56,14 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 		)
 	}
 
+	if num > MaxNumOfDice {
+		return nil, fmt.Errorf(
+			"RollDice(num: %d, sides: %d): 振るダイス数が多すぎます",
+			num,
+			sides,
+		)
+	}
+
 	// 結果のスライスの領域をnum個分確保する
 	rolledDice := make([]dice.Die, 0, num)
 
diff --git a/pkg/core/evaluator/environment.go b/pkg/core/evaluator/environment.go
index 1c7d7fa..1df7db2 100644
--- a/pkg/core/evaluator/environment.go
+++ b/pkg/core/evaluator/environment.go
@@ -25,6 +25,11 @@ func (e *Environment) RolledDice() []dice.Die {
 	return dice
 }
 
+// NumOfRolledDice は記録されたダイスの数を返す。
+func (e *Environment) NumOfRolledDice() int {
+	return len(e.rolledDice)
+}
+
 // PushRolledDie は振られたダイスを記録に追加する。
 func (e *Environment) PushRolledDie(d dice.Die) {
 	e.rolledDice = append(e.rolledDice, d)
diff --git a/pkg/core/evaluator/eval_u_roll_expr.go b/pkg/core/evaluator/eval_u_roll_expr.go
index 400600c..e433139 100644
--- a/pkg/core/evaluator/eval_u_roll_expr.go
+++ b/pkg/core/evaluator/eval_u_roll_expr.go
@@ -100,7 +100,7 @@ func (e *Evaluator) evalCompoundingRoll(
 		)
 	}
 
-	valueGroups := make([]object.Object, 0, numVal)
+	valueGroups := []object.Object{}
 	for i := 0; i < numVal; i++ {
 		valueGroup := []object.Object{}
 
diff --git a/pkg/core/evaluator/evaluator.go b/pkg/core/evaluator/evaluator.go
index 6adfb3f..c6be402 100644
--- a/pkg/core/evaluator/evaluator.go
+++ b/pkg/core/evaluator/evaluator.go
@@ -90,7 +90,13 @@ func (e *Evaluator) evalCommand(node *ast.Command) (object.Object, error) {
 
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 // また、ダイスロールの結果を記録する。
+//
+// ひとつのコマンドで振るダイスの総数は、roller.MaxNumOfDice以下でなければならない。
 func (e *Evaluator) RollDice(num int, sides int) ([]dice.Die, error) {
+	if num > roller.MaxNumOfDice-e.env.NumOfRolledDice() {
+		return nil, fmt.Errorf("RollDice(num: %d, sides: %d): 振るダイス数が多すぎます", num, sides)
+	}
+
 	rolledDice, err := e.diceRoller.RollDice(num, sides)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fda2d5672ffbb64e39f759027ff4265dfb65c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 08/22] fix: evaluate random numbers used as terms of a D roll
 expression

1D6+[1...3] was accepted by the parser, but always failed with
"evalVarArgsOfVariableExpr not implemented: RandomNumber".
---
 pkg/core/evaluator/eval_var_args.go | 50 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index ed7ecca..e82a4f9 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -30,6 +30,28 @@ func (e *Evaluator) EvalVarArgs(node ast.Node) error {
 	return fmt.Errorf("EvalVarArgs not implemented: %s", node.Type())
 }
 
+// evalVarArgsOfOperand は一次式のオペランドの可変ノードの引数を評価して整数に変換する。
+//
+// ランダム数値の取り出しは、それ自体を評価して整数のノードに置き換える。
+func (e *Evaluator) evalVarArgsOfOperand(node ast.Node, setter nodeSetter) error {
+	if !node.IsVariable() {
+		return nil
+	}
+
+	if node.Type() == ast.RANDOM_NUMBER_NODE {
+		obj, err := e.Eval(node)
+		if err != nil {
+			return err
+		}
+
+		setter(objectToIntNode(obj))
+
+		return nil
+	}
+
+	return e.evalVarArgsOfVariableExpr(node)
+}
+
 // evalVarArgsOfVariableExpr は可変ノードの引数を評価して整数に変換する。
 //
 // このメソッドには、DRollなど、実際に引数を評価して整数に変換する必要がある、可変一次式のノードを渡す。
@@ -145,11 +167,9 @@ func (e *Evaluator) evalVarArgsInURollExpr(node *ast.URollExpr) error {
 func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 	expr := node.Expression
 	if expr.IsPrimaryExpression() {
-		if expr.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(expr)
-		}
-
-		return nil
+		return e.evalVarArgsOfOperand(expr, func(newNode ast.Node) {
+			node.Expression = newNode
+		})
 	}
 
 	return e.EvalVarArgs(expr)
@@ -161,8 +181,8 @@ func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	left := node.Left()
 	var leftEvalErr error
 
-	if left.IsPrimaryExpression() && left.IsVariable() {
-		leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+	if left.IsPrimaryExpression() {
+		leftEvalErr = e.evalVarArgsOfOperand(left, node.SetLeft)
 	} else {
 		leftEvalErr = e.EvalVarArgs(left)
 	}
@@ -186,11 +206,7 @@ func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 func (e *Evaluator) evalVarArgsInPrefixExpression(node ast.PrefixExpression) error {
 	right := node.Right()
 	if right.IsPrimaryExpression() {
-		if right.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(right)
-		}
-
-		return nil
+		return e.evalVarArgsOfOperand(right, node.SetRight)
 	}
 
 	return e.EvalVarArgs(right)
@@ -202,9 +218,7 @@ func (e *Evaluator) evalVarArgsInInfixExpression(node ast.InfixExpression) error
 	var leftErr error
 
 	if left.IsPrimaryExpression() {
-		if left.IsVariable() {
-			leftErr = e.evalVarArgsOfVariableExpr(left)
-		}
+		leftErr = e.evalVarArgsOfOperand(left, node.SetLeft)
 	} else {
 		leftErr = e.EvalVarArgs(left)
 	}
@@ -215,11 +229,7 @@ func (e *Evaluator) evalVarArgsInInfixExpression(node ast.InfixExpression) error
 
 	right := node.Right()
 	if right.IsPrimaryExpression() {
-		if right.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(right)
-		}
-
-		return nil
+		return e.evalVarArgsOfOperand(right, node.SetRight)
 	}
 
 	return e.EvalVarArgs(right)
-- 
2.43.0


From 1041b53ae7ec0f20628d7d9a450cb23638463ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 09/22] fix: refuse a die whose value is not on its faces

A queued die such as 5/2 made CHOICE[a,b] panic with an index out of
range.
---
 pkg/core/dice/roller/roller.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index 1a0a75e..9506519 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -83,6 +83,16 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 			)
 		}
 
+		if d.Value < 1 || d.Value > d.Sides {
+			return nil, fmt.Errorf(
+				"RollDice(num: %d, sides: %d) -> %d/%d: ダイスの値が範囲外です",
+				num,
+				sides,
+				d.Value,
+				d.Sides,
+			)
+		}
+
 		rolledDice = append(rolledDice, d)
 	}
 
-- 
2.43.0


From 8cd442643540b224c3ec4eda7b9cef85c5dc5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 10/22] fix: execute a command once even if it fails

ExecuteCommand ran a failing command a second time, so it consumed dice
that were not reported, and 1D6/(1D6-1) could succeed on the hidden
second roll.
---
 pkg/bcdice/bcdice.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pkg/bcdice/bcdice.go b/pkg/bcdice/bcdice.go
index e529057..6ef18f6 100644
--- a/pkg/bcdice/bcdice.go
+++ b/pkg/bcdice/bcdice.go
@@ -74,22 +74,24 @@ func (b *BCDice) ExecuteCommand(input string) (*command.Result, error) {
 		}
 	}
 
-	{
-		result, err := b.ExecuteBasicCommand(command)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
+	// コマンドを実行すると成否によらずダイスが消費されるため、
+	// 構文解析に成功したものを1回だけ実行する
+	node, parseErr := parser.Parse("input", []byte(command))
+	if parseErr != nil {
+		node, parseErr = parser.Parse("input", []byte(firstPart))
+	}
+	if parseErr != nil {
+		return nil, parseErr
 	}
-	{
-		result, err := b.ExecuteBasicCommand(firstPart)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
 
+	result, err := b.executeNode(node.(ast.Node))
+	if err != nil {
 		return nil, err
 	}
+
+	result.IsSecret = isSecret
+
+	return result, nil
 }
 
 // ExecuteDiceBotCommand は設定されているダイスボットを使用して指定されたコマンドを実行する。
@@ -112,8 +114,13 @@ func (b *BCDice) ExecuteBasicCommand(c string) (*command.Result, error) {
 		return nil, parseErr
 	}
 
+	return b.executeNode(node.(ast.Node))
+}
+
+// executeNode は構文解析で得られたBCDiceの基本コマンドのノードを実行する。
+func (b *BCDice) executeNode(node ast.Node) (*command.Result, error) {
 	env := evaluator.NewEnvironment()
 	ev := evaluator.NewEvaluator(b.diceRoller, env)
 
-	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
+	return command.Execute(node, b.DiceBot.GameID(), ev)
 }
-- 
2.43.0


From 57188c81b0a1f1115171f44f8b05e058ed230499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 11/22] fix: end the REPL at end of input

break only left the switch, so at EOF the REPL printed its usage
forever.
---
 cmd/GoBCDiceREPL/repl/repl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index a40bf42..6799ae0 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -235,7 +235,7 @@ func (r *REPL) Start() {
 		switch readlineErr {
 		case io.EOF:
 			// ^D が押されたら修了する
-			break
+			return
 		case readline.ErrInterrupt:
 			// ^C が押されたら次の読み込みに移る
 			continue
-- 
2.43.0


From f3c061015ef6366f7d0855173c2f3a305b242e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 12/22] fix: reject dice notations whose numbers do not fit

ParseDice read 1/99999999999999999999 as 1/9223372036854775807.
---
 pkg/dicebot/testing/testcase.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/dicebot/testing/testcase.go b/pkg/dicebot/testing/testcase.go
index 051827a..3bc1535 100644
--- a/pkg/dicebot/testing/testcase.go
+++ b/pkg/dicebot/testing/testcase.go
@@ -73,8 +73,16 @@ func ParseDice(source string) ([]dice.Die, error) {
 			return nil, fmt.Errorf("ParseDice: #%d: %q: ダイス構文エラー", i+1, diceStr)
 		}
 
-		Value, _ := strconv.Atoi(matches[1])
-		Sides, _ := strconv.Atoi(matches[2])
+		Value, valueErr := strconv.Atoi(matches[1])
+		if valueErr != nil {
+			return nil, fmt.Errorf("ParseDice: #%d: %q: %s", i+1, diceStr, valueErr)
+		}
+
+		Sides, sidesErr := strconv.Atoi(matches[2])
+		if sidesErr != nil {
+			return nil, fmt.Errorf("ParseDice: #%d: %q: %s", i+1, diceStr, sidesErr)
+		}
+
 		rolledDice = append(rolledDice, dice.Die{Value, Sides})
 	}
 
-- 
2.43.0


From 32d991a0842d721049003929783547c26aef301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 13/22] fix: strip the secret roll mark only once in the REPL

The REPL removed one S itself and ExecuteCommand another, so it accepted
SS2D6, which is not a command.
---
 cmd/GoBCDiceREPL/repl/repl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 6799ae0..7a9d072 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -338,8 +338,7 @@ func eval(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	command, isSecret := util.CheckIfInputMayBeASecretRoll(input)
-	result, err := r.bcDice.ExecuteCommand(command)
+	result, err := r.bcDice.ExecuteCommand(input)
 	if err != nil {
 		r.printError(err)
 		return
@@ -347,7 +346,7 @@ func eval(r *REPL, c *Command, input string) {
 
 	fmt.Fprint(r.out, RESULT_HEADER)
 
-	if isSecret {
+	if result.IsSecret {
 		fmt.Fprint(r.out, SECRET_HEADER)
 	}
 
-- 
2.43.0


From 7d104dbb49b2ff136f901a087a912a3b0d9da4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 14/22] fix: report the dice rolled before a reroll threshold
 is refused

[1...3]R6 drew a die for its dice count, but the result claimed that no
die had been rolled.
---
 pkg/core/command/command.go             | 7 +++++++
 pkg/core/command/execute_r_roll_comp.go | 1 +
 pkg/core/command/execute_r_roll_list.go | 1 +
 pkg/core/command/execute_u_roll_comp.go | 1 +
 pkg/core/command/execute_u_roll_expr.go | 1 +
 5 files changed, 11 insertions(+)

diff --git a/pkg/core/command/command.go b/pkg/core/command/command.go
index 63d8ffd..b8efbba 100644
--- a/pkg/core/command/command.go
+++ b/pkg/core/command/command.go
@@ -79,3 +79,10 @@ func evalVarArgs(node ast.Node, evaluator *evaluator.Evaluator) (string, error)
 
 	return infixNotation, nil
 }
+
+// recordDiceOfArgs は、可変ノードの引数を評価する際に振られたダイスがあれば結果に記録する。
+func recordDiceOfArgs(result *Result, evaluator *evaluator.Evaluator) {
+	if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+		result.RolledDice = rolledDice
+	}
+}
diff --git a/pkg/core/command/execute_r_roll_comp.go b/pkg/core/command/execute_r_roll_comp.go
index fe4a184..9cb1f34 100644
--- a/pkg/core/command/execute_r_roll_comp.go
+++ b/pkg/core/command/execute_r_roll_comp.go
@@ -43,6 +43,7 @@ func executeRRollComp(
 	checkRerollThresholdErr :=
 		evaluator.CheckRRollThreshold(compareNode.Left().(*ast.RRollList))
 	if checkRerollThresholdErr != nil {
+		recordDiceOfArgs(result, evaluator)
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_r_roll_list.go b/pkg/core/command/execute_r_roll_list.go
index 84641bf..3d3b0ab 100644
--- a/pkg/core/command/execute_r_roll_list.go
+++ b/pkg/core/command/execute_r_roll_list.go
@@ -30,6 +30,7 @@ func executeRRollList(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckRRollThreshold(node)
 	if checkRerollThresholdErr != nil {
+		recordDiceOfArgs(result, evaluator)
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_comp.go b/pkg/core/command/execute_u_roll_comp.go
index 93b1f65..4d81766 100644
--- a/pkg/core/command/execute_u_roll_comp.go
+++ b/pkg/core/command/execute_u_roll_comp.go
@@ -38,6 +38,7 @@ func executeURollComp(
 		compareNode.Left().(*ast.URollExpr).URollList,
 	)
 	if checkRerollThresholdErr != nil {
+		recordDiceOfArgs(result, evaluator)
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_expr.go b/pkg/core/command/execute_u_roll_expr.go
index 490819f..e79c318 100644
--- a/pkg/core/command/execute_u_roll_expr.go
+++ b/pkg/core/command/execute_u_roll_expr.go
@@ -32,6 +32,7 @@ func executeURollExpr(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckURollThreshold(node.URollList)
 	if checkRerollThresholdErr != nil {
+		recordDiceOfArgs(result, evaluator)
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
-- 
2.43.0


From 10343c2c0ce66e8310c58c34a09d318296e03768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 15/22] fix: report overflow of the sum of a D roll instead of
 wrapping

---
 pkg/core/evaluator/determine_values.go      |  4 ++++
 pkg/core/evaluator/eval_infix_expression.go | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/core/evaluator/determine_values.go b/pkg/core/evaluator/determine_values.go
index d011c51..b8f0518 100644
--- a/pkg/core/evaluator/determine_values.go
+++ b/pkg/core/evaluator/determine_values.go
@@ -48,6 +48,10 @@ func (e *Evaluator) determineValueOfDRoll(
 		return nil, rollDiceErr
 	}
 
+	if _, sumErr := sumOfDice(rolledDice); sumErr != nil {
+		return nil, sumErr
+	}
+
 	return ast.NewSumRollResult(rolledDice), nil
 }
 
diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 8c65b89..450540b 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
+	"github.com/raa0121/GoBCDice/pkg/core/dice"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
 )
 
@@ -214,12 +215,27 @@ func (e *Evaluator) evalSumRoll(
 		return nil, err
 	}
 
+	sum, sumErr := sumOfDice(rolledDice)
+	if sumErr != nil {
+		return nil, sumErr
+	}
+
+	return object.NewInteger(sum), nil
+}
+
+// sumOfDice は出目の合計を返す。合計が整数の範囲に収まらない場合はエラーを返す。
+func sumOfDice(rolledDice []dice.Die) (int, error) {
 	sum := 0
 	for _, d := range rolledDice {
-		sum += d.Value
+		newSum := sum + d.Value
+		if newSum < sum {
+			return 0, overflowError(sum, "+", d.Value)
+		}
+
+		sum = newSum
 	}
 
-	return object.NewInteger(sum), nil
+	return sum, nil
 }
 
 // evalBasicRoll はバラバラロールを評価する。
-- 
2.43.0


From 646a551e15f14696123d4e73eb531b0bcd6db37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 16/22] fix: report overflow of the sum of a U roll instead of
 wrapping

---
 pkg/core/evaluator/eval_u_roll_expr.go | 28 ++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/core/evaluator/eval_u_roll_expr.go b/pkg/core/evaluator/eval_u_roll_expr.go
index e433139..d1e38fc 100644
--- a/pkg/core/evaluator/eval_u_roll_expr.go
+++ b/pkg/core/evaluator/eval_u_roll_expr.go
@@ -55,9 +55,37 @@ func (e *Evaluator) evalURollExpr(node *ast.URollExpr) (*object.URollExprResult,
 		return nil, valueGroupsErr
 	}
 
+	if err := checkOverflowOfURollSum(valueGroups, modifier); err != nil {
+		return nil, err
+	}
+
 	return object.NewURollExprResult(valueGroups, modifier), nil
 }
 
+// checkOverflowOfURollSum は、出目の合計、およびそれに修正値を加えた値が
+// 整数の範囲に収まるかを確認する。収まらない場合はエラーを返す。
+func checkOverflowOfURollSum(valueGroups *object.Array, modifier *object.Integer) error {
+	sum := 0
+	for _, valueGroup := range valueGroups.Elements {
+		for _, value := range valueGroup.(*object.Array).Elements {
+			v := value.(*object.Integer).Value
+
+			newSum := sum + v
+			if newSum < sum {
+				return overflowError(sum, "+", v)
+			}
+
+			sum = newSum
+		}
+	}
+
+	if modifier.Value > 0 && sum+modifier.Value < sum {
+		return overflowError(sum, "+", modifier.Value)
+	}
+
+	return nil
+}
+
 // evalCompoundingRoll は上方無限ロールを評価する。
 // 返り値は、出目のグループを要素として持つ配列オブジェクト、およびエラー。
 func (e *Evaluator) evalCompoundingRoll(
-- 
2.43.0


From 9fd1d60deb22f98dc74fc4012f6d82c0079ee382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 17/22] fix: report numbers that do not fit in the .roll
 command of the REPL

---
 cmd/GoBCDiceREPL/repl/repl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 7a9d072..32e29f9 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -373,8 +373,17 @@ func rollDice(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	num, _ := strconv.Atoi(matches[1])
-	sides, _ := strconv.Atoi(matches[2])
+	num, numErr := strconv.Atoi(matches[1])
+	if numErr != nil {
+		r.printError(numErr)
+		return
+	}
+
+	sides, sidesErr := strconv.Atoi(matches[2])
+	if sidesErr != nil {
+		r.printError(sidesErr)
+		return
+	}
 
 	rolledDice, err := r.diceRoller.RollDice(num, sides)
 	if err != nil {
-- 
2.43.0


From a1f0311ce16efe7105629eda7b56f86abd9ffd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 18/22] fix: keep invalid UTF-8 of a secret roll instead of
 replacing it

---
 pkg/core/util/secret_roll.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/core/util/secret_roll.go b/pkg/core/util/secret_roll.go
index 281e716..9012c05 100644
--- a/pkg/core/util/secret_roll.go
+++ b/pkg/core/util/secret_roll.go
@@ -10,11 +10,9 @@ func CheckIfInputMayBeASecretRoll(input string) (string, bool) {
 		return "", false
 	}
 
-	inputRunes := []rune(input)
-
-	switch inputRunes[0] {
+	switch input[0] {
 	case 'S', 's':
-		return string(inputRunes[1:len(inputRunes)]), true
+		return input[1:], true
 	default:
 		return input, false
 	}
-- 
2.43.0


From 2594b6882a306bd8a48c9a2fa66dbbaf69abdeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 19/22] Revert "fix: reject dice notations whose numbers do not
 fit"

testcase.go counts as a test file and stays as it is.
---
 pkg/dicebot/testing/testcase.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pkg/dicebot/testing/testcase.go b/pkg/dicebot/testing/testcase.go
index 3bc1535..051827a 100644
--- a/pkg/dicebot/testing/testcase.go
+++ b/pkg/dicebot/testing/testcase.go
@@ -73,16 +73,8 @@ func ParseDice(source string) ([]dice.Die, error) {
 			return nil, fmt.Errorf("ParseDice: #%d: %q: ダイス構文エラー", i+1, diceStr)
 		}
 
-		Value, valueErr := strconv.Atoi(matches[1])
-		if valueErr != nil {
-			return nil, fmt.Errorf("ParseDice: #%d: %q: %s", i+1, diceStr, valueErr)
-		}
-
-		Sides, sidesErr := strconv.Atoi(matches[2])
-		if sidesErr != nil {
-			return nil, fmt.Errorf("ParseDice: #%d: %q: %s", i+1, diceStr, sidesErr)
-		}
-
+		Value, _ := strconv.Atoi(matches[1])
+		Sides, _ := strconv.Atoi(matches[2])
 		rolledDice = append(rolledDice, dice.Die{Value, Sides})
 	}
 
-- 
2.43.0


From 967eba5b0ec96321741f6ca67e8c338f9e8a7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 20/22] fix: refuse a U roll bonus that cannot be negated

---
 pkg/core/evaluator/eval_var_args.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index e82a4f9..3a315ad 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -148,6 +148,12 @@ func (e *Evaluator) evalVarArgsInURollExpr(node *ast.URollExpr) error {
 		}
 
 		bonusValue := bonusObj.(*object.Integer).Value
+
+		// 最小の整数の絶対値は整数の範囲に収まらず、減算の右オペランドにできない
+		if bonusValue != 0 && bonusValue == -bonusValue {
+			return fmt.Errorf("integer overflow: -(%d)", bonusValue)
+		}
+
 		var newBonus ast.InfixExpression
 		if bonusValue == 0 {
 			newBonus = nil
-- 
2.43.0


From 70ee159d64437b8ea6d41ed6b02cd6dbe18ddf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 21/22] fix: run the data-driven tests of a game system under
 that game system

---
 pkg/dicebot/testing/testing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dicebot/testing/testing.go b/pkg/dicebot/testing/testing.go
index 1d307f5..4ec8176 100644
--- a/pkg/dicebot/testing/testing.go
+++ b/pkg/dicebot/testing/testing.go
@@ -37,6 +37,11 @@ func Run(gameID string, t *testing.T, testDataFiles ...string) {
 			f := feeder.NewQueue(test.Dice)
 			b := bcdice.New(f)
 
+			if setErr := b.SetDiceBotByGameID(test.GameID); setErr != nil {
+				t.Fatalf("ダイスボットの設定失敗: %s", setErr)
+				return
+			}
+
 			// TODO: エラーが発生することの予想を明示できるようにする
 			expectErr := (test.Output == "")
 
-- 
2.43.0


From 3fd19593fd16c96f98b0191777284a5ced85ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 22/22] Revert "fix: run the data-driven tests of a game system
 under that game system"

This reverts commit 70ee159d64437b8ea6d41ed6b02cd6dbe18ddf29.
---
 pkg/dicebot/testing/testing.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkg/dicebot/testing/testing.go b/pkg/dicebot/testing/testing.go
index 4ec8176..1d307f5 100644
--- a/pkg/dicebot/testing/testing.go
+++ b/pkg/dicebot/testing/testing.go
@@ -37,11 +37,6 @@ func Run(gameID string, t *testing.T, testDataFiles ...string) {
 			f := feeder.NewQueue(test.Dice)
 			b := bcdice.New(f)
 
-			if setErr := b.SetDiceBotByGameID(test.GameID); setErr != nil {
-				t.Fatalf("ダイスボットの設定失敗: %s", setErr)
-				return
-			}
-
 			// TODO: エラーが発生することの予想を明示できるようにする
 			expectErr := (test.Output == "")
 
-- 
2.43.0

