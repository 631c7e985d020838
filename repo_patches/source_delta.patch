From 24257a5606bd14cf1d231ba6e5f49cb1afccba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 01/34] fix: return a nil statement when parsing fails

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 892b76a..7fb40dc 100644
--- a/parser.go
+++ b/parser.go
@@ -193,7 +193,11 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		trigger, terr := s.parseTriggerStmt()
+		if terr != nil {
+			return nil, terr
+		}
+		return trigger, nil
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From 89b0732ff9c3fd8c486c9bb0f04e29a72b6762be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 02/34] fix: reject input that follows the statement

---
 parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.go b/parser.go
index 7fb40dc..cbb10f1 100644
--- a/parser.go
+++ b/parser.go
@@ -197,6 +197,13 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if terr != nil {
 			return nil, terr
 		}
+		if s.t.Err() != nil {
+			s.err = s.t.Err()
+			return nil, s.error()
+		}
+		if !s.except(EOF) {
+			return nil, s.error()
+		}
 		return trigger, nil
 	default:
 		err = s.error()
-- 
2.43.0


From be8e4280bdb7c5d373a82831e881da1b52acd6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 03/34] fix: require real operators and a closing parenthesis
 in a group

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index cbb10f1..16d6078 100644
--- a/parser.go
+++ b/parser.go
@@ -328,10 +328,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From 215e31d4ffbf25441d77f7e24631a410f272a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 04/34] fix: consume the wildcard token

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 16d6078..69a5c0a 100644
--- a/parser.go
+++ b/parser.go
@@ -311,7 +311,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From e2d8b0634385ccb939b1fd5f02506737b2714805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 05/34] fix: do not apply the sign of a range's low bound to
 its high bound

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 69a5c0a..9c918af 100644
--- a/parser.go
+++ b/parser.go
@@ -300,13 +300,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	case BOOLEAN:
 		expr, err = s.parseBooleanLit()
 	}
+	s.resetSign()
 	if err == nil {
 		switch s.tok {
 		case RANGE:
 			expr, err = s.parseRangeExpr(expr)
 		}
 	}
-	s.resetSign()
 	return
 }
 
-- 
2.43.0


From d442d6b0e18c11a569ad0622cc139ea07417fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 06/34] fix: reject a sign in front of a non-numeric operand

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 9c918af..6c83c87 100644
--- a/parser.go
+++ b/parser.go
@@ -261,6 +261,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 			s.sign = ADD
 		}
 		s.next()
+		if !s.except(INT, FLOAT) {
+			return nil, s.error()
+		}
 	}
 
 	switch s.tok {
-- 
2.43.0


From d4bf8b8ba7c2da4e48234f7660851c7873a4aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 07/34] fix: reject a negative pressure

---
 primitive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive.go b/primitive.go
index ba9d923..bce2209 100644
--- a/primitive.go
+++ b/primitive.go
@@ -83,6 +83,10 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
+		if s.isSignMinus() {
+			s.err = errNegativeValue
+			return nil, s.error()
+		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From 9770618861b33b30beabb30e65130d3b29fd4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 08/34] fix: do not take the token after an operator for a unit

---
 primitive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive.go b/primitive.go
index bce2209..c2c7ad9 100644
--- a/primitive.go
+++ b/primitive.go
@@ -71,6 +71,10 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
 	s.rpos = s.t.Offset() - 1
 	s.next()
+	if !s.except(SELECTOR) && s.lit != "%" {
+		// not a unit of measurement
+		return nil, nil
+	}
 	unit := s.t.TokenText()
 	litlen := Pos(len(plit))
 	switch {
-- 
2.43.0


From 9102a690ecd74573fa516ca9daebc0935bfca8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 09/34] fix: keep the text of an unknown negated operator

---
 token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token.go b/token.go
index 2ae51e6..36a4ffe 100644
--- a/token.go
+++ b/token.go
@@ -196,8 +196,8 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 			if exists {
 				found = true
 				kwd = notkwd
-				lit = notlit
 			}
+			lit = notlit
 		default:
 			kwd, found = keywords[lit]
 		}
-- 
2.43.0


From 7643be47668d5180f1203afb1b76870a74f30a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 10/34] fix: require a distance after the colon of a geometry

---
 primitive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive.go b/primitive.go
index c2c7ad9..bef8527 100644
--- a/primitive.go
+++ b/primitive.go
@@ -155,6 +155,8 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 	s.next()
 	var ok bool
 	switch s.tok {
+	default:
+		return nil, s.error()
 	case INT:
 		re, err := s.parseIntTypes()
 		if err != nil {
-- 
2.43.0


From c681aff93cd02511b93c70ca63752f9edd16400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 11/34] fix: reject an unclosed geometry

---
 geometry.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/geometry.go b/geometry.go
index d3e0733..75a098d 100644
--- a/geometry.go
+++ b/geometry.go
@@ -114,11 +114,8 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	q := 1
 	for {
 		s.next()
-		if s.except(EOF) {
-			break
-		}
 		if !s.except(LBRACK, SUB, COMMA, FLOAT, INT, RBRACK) {
-			break
+			return nil, s.error()
 		}
 		if s.except(LBRACK) {
 			path++
-- 
2.43.0


From 3678aadcd32b15df2ef59e64bb7c2b9a8340ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 12/34] fix: reject calendar lists with missing or repeated
 separators

---
 datetime.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/datetime.go b/datetime.go
index 1e49f50..d698804 100644
--- a/datetime.go
+++ b/datetime.go
@@ -97,10 +97,13 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = date
+			rangeExpr = &Range{Low: date}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -232,10 +235,13 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = time_
+			rangeExpr = &Range{Low: time_}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -318,10 +324,13 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = wd
+			rangeExpr = &Range{Low: wd}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -414,10 +423,13 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = wd
+			rangeExpr = &Range{Low: wd}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
-- 
2.43.0


From 1ce438dbef2df7240fd5996a185da17bcc3b3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 13/34] fix: format months with month names

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From b9eac30ae3410e413b8e934a40bc936b5a26245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 14/34] fix: report writer errors of boolean literals

---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..2304a54 100644
--- a/ast.go
+++ b/ast.go
@@ -294,9 +294,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From cd6a3650128cd347e819899aebaaecae0c8fd90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 15/34] fix: format the devices of a selector in a
 deterministic order

---
 ast.go    | 11 +----------
 format.go | 10 +++++++---
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/ast.go b/ast.go
index 2304a54..bcd9dc6 100644
--- a/ast.go
+++ b/ast.go
@@ -270,19 +270,10 @@ func (e *Selector) calculateEnd(p Pos) {
 
 func (e *Selector) needExpand() (ok bool) {
 	var n int
-	var i int
 	for k := range e.Args {
 		n += len(k)
-		if n > 64 {
-			ok = true
-			break
-		}
-		if i > 3 {
-			break
-		}
-		i++
 	}
-	return
+	return n > 64
 }
 
 type BooleanTyp struct {
diff --git a/format.go b/format.go
index eda8dca..62d8ff0 100644
--- a/format.go
+++ b/format.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"sort"
 	"strconv"
 )
 
@@ -278,7 +279,6 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 	checkError(b.WriteString(e.Ident))
 	if len(e.Args) > 0 {
 		checkError(b.WriteString("{"))
-		var i int
 		var expand bool
 		var pad2 string
 		if !inline {
@@ -293,15 +293,19 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
+		ids := make([]string, 0, len(e.Args))
 		for k := range e.Args {
+			ids = append(ids, k)
+		}
+		sort.Strings(ids)
+		for i, k := range ids {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
 			checkError(b.WriteString(`"` + k + `"`))
-			if i+1 < len(e.Args) {
+			if i+1 < len(ids) {
 				checkError(b.WriteString(", "))
 			}
-			i++
 		}
 		if !inline && expand {
 			checkError(b.WriteString("\n" + padding))
-- 
2.43.0


From a6361c3de5581b2807d03886afa8f3b7e1df2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 16/34] fix: separate the rem operator from its operands

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 62d8ff0..b316d79 100644
--- a/format.go
+++ b/format.go
@@ -370,7 +370,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL, QUO:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From 00fccd1d3b052d88f2a577d95db70dc1dd23c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 17/34] fix: strip only the delimiting quotes of a string

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 6c83c87..9d6cdba 100644
--- a/parser.go
+++ b/parser.go
@@ -391,7 +391,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From 25a933a4ae7d65683f0fee500c37b1f3c03223f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 18/34] fix: walk the children with the visitor returned for
 the node

---
 walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/walk.go b/walk.go
index bfbde08..71ff5fd 100644
--- a/walk.go
+++ b/walk.go
@@ -5,7 +5,7 @@ type Visitor interface {
 }
 
 func Walk(v Visitor, expr Expr) {
-	if v.Visit(expr) == nil {
+	if v = v.Visit(expr); v == nil {
 		return
 	}
 	switch typ := expr.(type) {
-- 
2.43.0


From 5efa0ee452f53fb70ab6d3c823ecaa5065608a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 19/34] fix: do not walk the absent clauses of a trigger

---
 walk.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/walk.go b/walk.go
index 71ff5fd..f55e52d 100644
--- a/walk.go
+++ b/walk.go
@@ -36,10 +36,18 @@ func Walk(v Visitor, expr Expr) {
 				Walk(v, expr)
 			}
 		}
-		Walk(v, typ.When)
-		Walk(v, typ.RepeatCount)
-		Walk(v, typ.RepeatInterval)
-		Walk(v, typ.ResetAfter)
+		if typ.When != nil {
+			Walk(v, typ.When)
+		}
+		if typ.RepeatCount != nil {
+			Walk(v, typ.RepeatCount)
+		}
+		if typ.RepeatInterval != nil {
+			Walk(v, typ.RepeatInterval)
+		}
+		if typ.ResetAfter != nil {
+			Walk(v, typ.ResetAfter)
+		}
 	}
 	v.Visit(nil)
 }
-- 
2.43.0


From 5539798f02c44351163b60b79a78355d4016d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 20/34] fix: walk the parts of geometries

---
 walk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/walk.go b/walk.go
index f55e52d..a2586d4 100644
--- a/walk.go
+++ b/walk.go
@@ -27,6 +27,22 @@ func Walk(v Visitor, expr Expr) {
 		for i := 0; i < len(typ.List); i++ {
 			Walk(v, typ.List[i])
 		}
+	case *GeometryPointTyp:
+		if typ.Radius != nil {
+			Walk(v, typ.Radius)
+		}
+	case *GeometryLineTyp:
+		if typ.Margin != nil {
+			Walk(v, typ.Margin)
+		}
+	case *GeometryMultiObjectTyp:
+		for i := 0; i < len(typ.Val); i++ {
+			Walk(v, typ.Val[i])
+		}
+	case *GeometryCollectionTyp:
+		for i := 0; i < len(typ.Objects); i++ {
+			Walk(v, typ.Objects[i])
+		}
 	case *Assign:
 		Walk(v, typ.Left)
 		Walk(v, typ.Right)
-- 
2.43.0


From 92fbd0f8f0c0ae76ec6316f55fdcaebfccbcc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 21/34] fix: type check polygons as geometries

---
 typecheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 128a260..9f50aba 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -446,7 +446,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 func (tc *checker) isGeometry(in Expr) (ok bool) {
 	switch typ := in.(type) {
 	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-		*GeometryMultiObjectTyp:
+		*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 		ok = true
 	case *Ref:
 		assign, err := tc.trigger.findAssign(typ.ID)
@@ -455,7 +455,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 		}
 		switch assign.Right.(type) {
 		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-			*GeometryMultiObjectTyp:
+			*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 			ok = true
 		}
 	}
-- 
2.43.0


From 9b9932942e2551042c80ff56a160a9b45aba8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 22/34] fix: recognise selectors declared as arrays of ints

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 9f50aba..304372d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -481,6 +481,9 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
+		if array, isArray := selector.(*ArrayTyp); isArray {
+			selector = array.List[0]
+		}
 		switch selector.(type) {
 		case *IntTyp:
 			ok = true
-- 
2.43.0


From ed6c36710c80fe0a2fd4b654e228383102a8eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 23/34] fix: require the words every and after in repeat and
 reset

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9d6cdba..9fbfc6d 100644
--- a/parser.go
+++ b/parser.go
@@ -96,7 +96,7 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return
 	}
 
-	if !s.except(SELECTOR) {
+	if s.lit != "every" {
 		return s.error()
 	}
 	s.next()
@@ -163,6 +163,9 @@ func (s *parser) parseSet(stmt *Trigger) error {
 
 func (s *parser) parseReset(stmt *Trigger) (err error) {
 	s.next()
+	if s.lit != "after" {
+		return s.error()
+	}
 	s.next()
 	var dur Expr
 	switch s.tok {
-- 
2.43.0


From e27ef39126af90bb29e76e4f9b36d3ed42b7ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 24/34] fix: scan a dot before a digit as a dot of its own

---
 scanner/scanner.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1fe49bc..1431fd4 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -577,9 +577,6 @@ redo:
 			ch = s.next()
 		case '.':
 			ch = s.next()
-			if isDecimal(ch) && s.Mode&ScanFloats != 0 {
-				tok, ch = s.scanNumber(ch, true)
-			}
 		case '/':
 			ch = s.next()
 			if (ch == '/' || ch == '*') && s.Mode&ScanComments != 0 {
-- 
2.43.0


From f648d5eeef4069739a9e8cdb249a71c118341197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:49 +0000
Subject: [PATCH 25/34] fix: accept fractional durations as repeat interval

---
 parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9fbfc6d..62a087e 100644
--- a/parser.go
+++ b/parser.go
@@ -100,7 +100,13 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return s.error()
 	}
 	s.next()
-	dur, err := s.parseIntTypes()
+	var dur Expr
+	switch s.tok {
+	case INT:
+		dur, err = s.parseIntTypes()
+	case FLOAT:
+		dur, err = s.parseFloatTypes()
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c14182710700fa8b9830d185fc6600737d144041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:49 +0000
Subject: [PATCH 26/34] fix: require a name after @

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index bef8527..5ea41dc 100644
--- a/primitive.go
+++ b/primitive.go
@@ -7,6 +7,9 @@ import (
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
 	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
 	s.next()
 	return
-- 
2.43.0


From 4fd129f076eb679941692fc49305c3db78912f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:55 +0000
Subject: [PATCH 27/34] fix: do not skip tokens between array elements

---
 composite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite.go b/composite.go
index c1520c1..9aca42c 100644
--- a/composite.go
+++ b/composite.go
@@ -77,6 +77,9 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
+		if !s.except(COMMA, COLON) {
+			return nil, s.error()
+		}
 	}
 	arrayExpr.rpos = s.t.Offset()
 	s.next()
-- 
2.43.0


From f85eccc5d17b2298d3802c7c2b31735199c0f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 28/34] fix: require the closing bracket of multi-geometries
 and collections

---
 geometry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry.go b/geometry.go
index 75a098d..3394ed4 100644
--- a/geometry.go
+++ b/geometry.go
@@ -16,7 +16,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	}
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		object, oer := s.parseGeometryExpr()
 		if oer != nil {
@@ -68,7 +68,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 	s.next()
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		var object Expr
 		var oer error
-- 
2.43.0


From b7d6451165d94847f508f2c7540ee2d6660df0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:57 +0000
Subject: [PATCH 29/34] fix: require the closing brace of selector devices

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 9aca42c..8d0508c 100644
--- a/composite.go
+++ b/composite.go
@@ -129,7 +129,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 		var i int
 		for {
 			s.next()
-			if s.except(EOF, RBRACE) {
+			if s.except(RBRACE) {
 				break
 			}
 			if s.except(COMMA) {
-- 
2.43.0


From 3edce9d45f1ecc867474df302827bc8936d4e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:57 +0000
Subject: [PATCH 30/34] fix: require the separators of a date in their places

---
 datetime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datetime.go b/datetime.go
index d698804..d92853c 100644
--- a/datetime.go
+++ b/datetime.go
@@ -15,6 +15,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 	var arrayExpr *ArrayTyp
 	var rangeExpr *Range
 	isDay := func(n int) bool { return n == 3 }
+	isSep := func(n int) bool { return n%2 == 0 }
 	isMonth := func(n int) bool { return n == 1 }
 	isArrayTyp := func() bool { return arrayExpr != nil }
 	isRangeTyp := func() bool { return rangeExpr != nil }
@@ -39,6 +40,9 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
+			if s.except(SUB) != isSep(i) {
+				return nil, s.error()
+			}
 			if s.except(SUB) {
 				sep++
 				continue
-- 
2.43.0


From 311ef6fd007a1112b5915bf1760ef7c45376dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 31/34] fix: do not skip numbers in a time

---
 datetime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datetime.go b/datetime.go
index d92853c..3c8e2d0 100644
--- a/datetime.go
+++ b/datetime.go
@@ -142,6 +142,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 	var arrayExpr *ArrayTyp
 	var rangeExpr *Range
 	isSeconds := func(n int) bool { return n == 3 }
+	isSep := func(n int) bool { return n%2 == 0 }
 	isMinutes := func(n int) bool { return n == 1 }
 	isArrayTyp := func() bool { return arrayExpr != nil }
 	isRangeTyp := func() bool { return rangeExpr != nil }
@@ -174,6 +175,9 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				s.t.Reset()
 				break
 			}
+			if isSep(i) {
+				return nil, s.error()
+			}
 			if !s.except(COLON, INT) || s.except(EOF) {
 				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
 			}
-- 
2.43.0


From 504fddaaa4652c67a1d4e54f1321eed4b6034d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:59 +0000
Subject: [PATCH 32/34] fix: reject coordinates that are not two numbers at the
 geometry's depth

---
 geometry.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/geometry.go b/geometry.go
index 3394ed4..e4c3b8e 100644
--- a/geometry.go
+++ b/geometry.go
@@ -111,6 +111,14 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	var bb [][2]float64
 	var cc [][][2]float64
 	open := true
+	n := 0 // numbers read of the open coordinate
+	depth := 0
+	switch geomtyp {
+	case GEOMETRY_LINE:
+		depth = 1
+	case GEOMETRY_POLYGON:
+		depth = 2
+	}
 	q := 1
 	for {
 		s.next()
@@ -120,11 +128,17 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		if s.except(LBRACK) {
 			path++
 			q++
+			if path > depth || n > 0 {
+				return nil, s.error()
+			}
 			open = true
 			continue
 		}
 		if s.except(RBRACK) {
 			if open {
+				if path != depth || n != 2 {
+					return nil, s.error()
+				}
 				switch path {
 				case 0:
 					aa = [2]float64{x, y}
@@ -153,6 +167,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 				bb = make([][2]float64, 0)
 			}
 			open = false
+			n = 0
 			pi = 0
 			x = 0
 			y = 0
@@ -165,6 +180,9 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		}
 		if s.except(COMMA) {
 			if open {
+				if n != 1 || pi == 1 {
+					return nil, s.error()
+				}
 				pi = 1
 			}
 			continue
@@ -196,6 +214,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
+		if !open || path != depth || n != int(pi) {
+			return nil, s.error()
+		}
+		n++
 		switch pi {
 		case 0:
 			x = val
-- 
2.43.0


From b577fc5cf839dd23be907bb2c5b4b4d11fcc6729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 33/34] fix: format single calendar values of a condition with
 their type

---
 format.go | 102 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 60 insertions(+), 42 deletions(-)

diff --git a/format.go b/format.go
index b316d79..c13c39e 100644
--- a/format.go
+++ b/format.go
@@ -208,25 +208,40 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Low.(type) {
+	default:
+		e.Low.format(w, padding, inline)
+		checkError(w.WriteString(" .. "))
+		e.High.format(w, padding, inline)
+		return
 	case *TimeTyp:
 		checkError(w.WriteString("time["))
-		inline = true
 	case *MonthTyp:
 		checkError(w.WriteString("month["))
-		inline = true
 	case *DateTyp:
 		checkError(w.WriteString("date["))
-		inline = true
 	case *WeekdayTyp:
 		checkError(w.WriteString("weekday["))
-		inline = true
 	}
-	e.Low.format(w, padding, inline)
+	formatItem(w, e.Low, padding)
 	checkError(w.WriteString(" .. "))
-	e.High.format(w, padding, inline)
-	switch e.Low.(type) {
-	case *TimeTyp, *MonthTyp, *DateTyp, *WeekdayTyp:
-		checkError(w.WriteString("]"))
+	formatItem(w, e.High, padding)
+	checkError(w.WriteString("]"))
+}
+
+// formatItem writes an element of a calendar list or range: the value alone,
+// as the brackets are those of the list or range.
+func formatItem(w io.StringWriter, expr Expr, padding string) {
+	switch item := expr.(type) {
+	default:
+		expr.format(w, padding, true)
+	case *TimeTyp:
+		item.formatValue(w)
+	case *MonthTyp:
+		item.formatValue(w)
+	case *DateTyp:
+		item.formatValue(w)
+	case *WeekdayTyp:
+		item.formatValue(w)
 	}
 }
 
@@ -336,25 +351,28 @@ func (e *GeometryPointTyp) format(w io.StringWriter, padding string, inline bool
 }
 
 func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
+	calendar := true
 	switch e.Kind {
+	default:
+		calendar = false
 	case TIME:
 		checkError(b.WriteString("time"))
-		inline = true
 	case MONTH:
 		checkError(b.WriteString("month"))
-		inline = true
 	case DATE:
 		checkError(b.WriteString("date"))
-		inline = true
 	case WEEKDAY:
 		checkError(b.WriteString("weekday"))
-		inline = true
 	}
 
 	checkError(b.WriteString("["))
 
 	for i, expr := range e.List {
-		expr.format(b, padding, inline)
+		if calendar {
+			formatItem(b, expr, padding)
+		} else {
+			expr.format(b, padding, inline)
+		}
 		if i+1 < len(e.List) {
 			checkError(b.WriteString(", "))
 		}
@@ -457,24 +475,27 @@ func (e *IntTyp) format(w io.StringWriter, _ string, _ bool) {
 	checkError(w.WriteString(strconv.Itoa(e.Val)))
 }
 
-func (e *DateTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("date["))
-	}
+func (e *DateTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("date["))
+	e.formatValue(w)
+	checkError(w.WriteString("]"))
+}
+
+func (e *DateTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(d2s(e.Year)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Month)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Day)))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("time["))
-	}
+func (e *TimeTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("time["))
+	e.formatValue(w)
+	checkError(w.WriteString("]"))
+}
+
+func (e *TimeTyp) formatValue(w io.StringWriter) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(strconv.Itoa(e.Hours)))
 	} else {
@@ -489,29 +510,26 @@ func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(e.U.String()))
 	}
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *WeekdayTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("weekday["))
-	}
+func (e *WeekdayTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("weekday["))
+	e.formatValue(w)
+	checkError(w.WriteString("]"))
+}
+
+func (e *WeekdayTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(shortDayNames[e.Val]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("month["))
-	}
+func (e *MonthTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("month["))
+	e.formatValue(w)
+	checkError(w.WriteString("]"))
+}
+
+func (e *MonthTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(shortMonthNames[e.Val-1]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
 func d2s(n int) string {
-- 
2.43.0


From 08579f6b75e618cf5c9650948ff4eae5344a8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 34/34] fix: limit the nesting of expressions

Parsing three million nested brackets exhausted the stack, which ends the
process and cannot be recovered from.
---
 parser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 62a087e..27ebe05 100644
--- a/parser.go
+++ b/parser.go
@@ -7,7 +7,13 @@ import (
 	"strings"
 )
 
-var errNegativeValue = errors.New("value cannot be negative")
+var (
+	errNegativeValue = errors.New("value cannot be negative")
+	errTooDeep       = errors.New("expression nested too deeply")
+)
+
+// maxDepth limits the nesting of expressions, so that no input exhausts the stack.
+const maxDepth = 10000
 
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
@@ -25,6 +31,8 @@ type parser struct {
 	sign Token
 	lpos Pos
 	rpos Pos
+	// depth is the number of expressions being parsed
+	depth int
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -260,6 +268,12 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	s.depth++
+	if s.depth > maxDepth {
+		s.err = errTooDeep
+		return nil, s.error()
+	}
+
 	s.next()
 
 	if s.except(SUB, ADD) {
@@ -319,6 +333,7 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 			expr, err = s.parseRangeExpr(expr)
 		}
 	}
+	s.depth--
 	return
 }
 
-- 
2.43.0

