From 5d8ae1be231f4f42a1970336dc2287658ca7f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:16 +0000
Subject: [PATCH 01/29] fix: fail the parse when a message visitor records an
 error

The first error on a message tape was only kept if one was already there, so
errors recorded through a MessageVisitor never failed the parse.
---
 parser/visitors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/visitors.go b/parser/visitors.go
index 4128a75..e8ed4a2 100644
--- a/parser/visitors.go
+++ b/parser/visitors.go
@@ -166,7 +166,7 @@ func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {
 
 func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
 	pmsg := newMessage(msgType, where, fmt.Sprintf(msg, v...))
-	if msgType == MsgError && mt.firstErr != nil {
+	if msgType == MsgError && mt.firstErr == nil {
 		mt.firstErr = pmsg
 	}
 	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))
-- 
2.43.0


From 2c808b13cdcbca7837d8a952de7d7e270a743902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:16 +0000
Subject: [PATCH 02/29] fix: include operands in the match statistics

The statistics of AND, OR and NOT nodes left out their operands, so only the
root of a query was ever reported.
---
 jsonmatcher/nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonmatcher/nodes.go b/jsonmatcher/nodes.go
index 1aff22c..eeaf500 100644
--- a/jsonmatcher/nodes.go
+++ b/jsonmatcher/nodes.go
@@ -24,7 +24,7 @@ func (a *andNode) result(root []byte) bool {
 }
 
 func (a *andNode) stats() *MatchStats {
-	return a.nodeStats.toStatsNode()
+	return a.nodeStats.toStatsNode(a.left, a.right)
 }
 
 type orNode struct {
@@ -41,7 +41,7 @@ func (o *orNode) result(root []byte) bool {
 }
 
 func (o *orNode) stats() *MatchStats {
-	return o.nodeStats.toStatsNode()
+	return o.nodeStats.toStatsNode(o.left, o.right)
 }
 
 type notNode struct {
@@ -58,7 +58,7 @@ func (n *notNode) result(root []byte) bool {
 }
 
 func (n *notNode) stats() *MatchStats {
-	return n.nodeStats.toStatsNode()
+	return n.nodeStats.toStatsNode(n.sub)
 }
 
 // type subdocNode struct {
-- 
2.43.0


From 38bd22bc03770245d9cbf6f609cded1ce899edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:16 +0000
Subject: [PATCH 03/29] fix: never report more matches than checks

A match that finished between the two loads made the statistics of a node show
more matches than checks.
---
 jsonmatcher/node_stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/node_stats.go b/jsonmatcher/node_stats.go
index 1d5fa92..267069f 100644
--- a/jsonmatcher/node_stats.go
+++ b/jsonmatcher/node_stats.go
@@ -27,10 +27,13 @@ func (ns *nodeStats) mark(matched bool) {
 }
 
 func (ns *nodeStats) toStatsNode(children ...boolNode) *MatchStats {
+	// matched is incremented after checked, so it has to be read first for the
+	// pair to be consistent
+	matched := ns.timesMatched.Load()
 	sn := &MatchStats{
 		NodeName:     ns.nodeName,
 		TimesChecked: ns.timesChecked.Load(),
-		TimesMatched: ns.timesMatched.Load(),
+		TimesMatched: matched,
 	}
 	if len(children) > 0 {
 		sn.Children = make([]*MatchStats, 0, len(children))
-- 
2.43.0


From abaacdb4bc66a9e85f1009ead7dffa68c20646d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:30 +0000
Subject: [PATCH 04/29] fix: reject fields that consist of stars only

Stars are removed from a field path while parsing. A path made of nothing else
was left empty and made the matcher panic.
---
 internal/grammar/aql.peg       | 6 +++++-
 internal/grammar/parser_gen.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 963e117..ff8ce6a 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -264,7 +264,11 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
         field = append(field, vSl[1].(string))
     }
 
-    return removeStars(field), nil
+    field = removeStars(field)
+    if len(field) == 0 {
+        return nil, tokErrf(getpos(c), "field needs at least one path segment that is not [*]")
+    }
+    return field, nil
 }
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index b02745d..c4946fe 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -1998,7 +1998,11 @@ func (c *current) onField1(pieces interface{}) (interface{}, error) {
 		field = append(field, vSl[1].(string))
 	}
 
-	return removeStars(field), nil
+	field = removeStars(field)
+	if len(field) == 0 {
+		return nil, tokErrf(getpos(c), "field needs at least one path segment that is not [*]")
+	}
+	return field, nil
 }
 
 func (p *parser) callonField1() (interface{}, error) {
-- 
2.43.0


From 7d3c1fba7d567be0d78f469e09c38568f5a03213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:51 +0000
Subject: [PATCH 05/29] fix: keep slashes at the ends of a regular expression

Removing the delimiters took away every slash at either end of the expression,
so /\// matched everything. Unescaping \/ beforehand also broke expressions that
end in an escaped backslash. An escaped slash needs no unescaping.
---
 internal/grammar/aql.peg       | 1 -
 internal/grammar/parser_gen.go | 1 -
 parser/ast/ast.go              | 3 ++-
 3 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index ff8ce6a..3f572ab 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -345,7 +345,6 @@ ValueChars <- [a-zA-Z0-9 !]
 
 RegexValue <- '/' RegexChar* EndingSlash {
     pos := getpos(c)
-    c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
     val, err := ast.NewRegexpVal(c.text, pos)
     if err != nil {
         return nil, tokErr(pos, err)
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index c4946fe..78cdd76 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2111,7 +2111,6 @@ func (p *parser) callonQuotedValue2() (interface{}, error) {
 
 func (c *current) onRegexValue2() (interface{}, error) {
 	pos := getpos(c)
-	c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
 	val, err := ast.NewRegexpVal(c.text, pos)
 	if err != nil {
 		return nil, tokErr(pos, err)
diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index bb7be02..94b2642 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -339,7 +339,8 @@ type RegexpVal struct {
 
 func NewRegexpVal(b []byte, pos Pos) (*RegexpVal, error) {
 	sv := string(b)
-	rv, err := regexp.Compile(strings.Trim(sv, `/`))
+	// only the delimiters are removed: an escaped slash is valid regexp syntax
+	rv, err := regexp.Compile(strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`))
 	if err != nil {
 		return nil, fmt.Errorf("invalid regular expression [%s]: %v", sv, err)
 	}
-- 
2.43.0


From 33317d9be380d0426859f05288c124532f6e63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:06 +0000
Subject: [PATCH 06/29] fix: compare timestamps as instants

Timestamps were compared by their nanoseconds since 1970 in 64 bits, which
overflow outside of the years 1678 to 2262, so comparisons with other dates gave
wrong results.
---
 jsonmatcher/expr_between.go  |  7 ++++---
 jsonmatcher/expr_datetime.go | 15 ++++++++-------
 jsonmatcher/expr_eq.go       |  8 ++++----
 jsonmatcher/expr_numeric.go  |  3 ++-
 jsonmatcher/json_values.go   |  9 +++++----
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/jsonmatcher/expr_between.go b/jsonmatcher/expr_between.go
index 7605a14..4a7ede8 100644
--- a/jsonmatcher/expr_between.go
+++ b/jsonmatcher/expr_between.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -37,9 +38,9 @@ func exprBetween(RVals []ast.Val) fieldExpr {
 		// datetime between
 		// 2nd argument guaranteed by validator
 		return &exprDatetime{
-			values: [2]int64{
-				RVals[0].(*ast.TimeVal).Value().UnixNano(),
-				RVals[1].(*ast.TimeVal).Value().UnixNano(),
+			values: [2]time.Time{
+				RVals[0].(*ast.TimeVal).Value(),
+				RVals[1].(*ast.TimeVal).Value(),
 			},
 			op: ast.BET,
 		}
diff --git a/jsonmatcher/expr_datetime.go b/jsonmatcher/expr_datetime.go
index bd45ecc..a4adf90 100644
--- a/jsonmatcher/expr_datetime.go
+++ b/jsonmatcher/expr_datetime.go
@@ -2,12 +2,13 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
 
 type exprDatetime struct {
-	values [2]int64
+	values [2]time.Time
 	op     ast.Op
 }
 
@@ -19,27 +20,27 @@ func (e *exprDatetime) matches(field *field) bool {
 		}
 		switch e.op {
 		case ast.EQ:
-			if dv == e.values[0] {
+			if dv.Equal(e.values[0]) {
 				return true
 			}
 		case ast.LT:
-			if dv < e.values[0] {
+			if dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.LTE:
-			if dv <= e.values[0] {
+			if !dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GT:
-			if dv > e.values[0] {
+			if dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GTE:
-			if dv >= e.values[0] {
+			if !dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.BET:
-			if dv >= e.values[0] && dv <= e.values[1] {
+			if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {
 				return true
 			}
 		// backstop
diff --git a/jsonmatcher/expr_eq.go b/jsonmatcher/expr_eq.go
index 4f8433c..380a44b 100644
--- a/jsonmatcher/expr_eq.go
+++ b/jsonmatcher/expr_eq.go
@@ -44,17 +44,17 @@ func exprEQ(RVals []ast.Val) []fieldExpr {
 			})
 		case *ast.TimeVal:
 			if rval.DayOnly() {
-				endOfDay := rval.Value().Add(24*time.Hour).UnixNano() - 1
+				endOfDay := rval.Value().Add(24*time.Hour - time.Nanosecond)
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{
-						rval.Value().UnixNano(),
+					values: [2]time.Time{
+						rval.Value(),
 						endOfDay,
 					},
 					op: ast.BET,
 				})
 			} else {
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{rval.Value().UnixNano()},
+					values: [2]time.Time{rval.Value()},
 					op:     ast.EQ,
 				})
 			}
diff --git a/jsonmatcher/expr_numeric.go b/jsonmatcher/expr_numeric.go
index e5273d5..e0480d9 100644
--- a/jsonmatcher/expr_numeric.go
+++ b/jsonmatcher/expr_numeric.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -24,7 +25,7 @@ func exprNumeric(op ast.Op, RVals []ast.Val) fieldExpr {
 		}
 	case *ast.TimeVal:
 		return &exprDatetime{
-			values: [2]int64{v.Value().UnixNano()},
+			values: [2]time.Time{v.Value()},
 			op:     op,
 		}
 	default:
diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 547400a..6dde882 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"time"
 
 	"github.com/araddon/dateparse"
 	"github.com/buger/jsonparser"
@@ -154,19 +155,19 @@ func getBoolVal(v jsonValue) (boolVal bool, found bool) {
 	return false, false
 }
 
-func getDatetimeVal(v jsonValue) (intVal int64, found bool) {
+func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	// TODO: tighten this up for numstrings. Probably want to be more careful
 	// about what we consider a date with how flexible dateparse is. Maybe a
 	// special getStringVal() that only accepts int-like unix epochs.
 	sv, ok := getStringVal(v)
 	if !ok {
-		return 0, false
+		return time.Time{}, false
 	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
-		return 0, false
+		return time.Time{}, false
 	}
-	return t.UnixNano(), true
+	return t, true
 }
 
 // true:
-- 
2.43.0


From 69ee81b948750c9dcf78fa378f60f9dd707bf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:06 +0000
Subject: [PATCH 07/29] fix: reject between with a number and a timestamp

A timestamp as the second argument after a negative number was accepted and
silently treated as zero.
---
 parser/validators.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/validators.go b/parser/validators.go
index a7400f5..5d36068 100644
--- a/parser/validators.go
+++ b/parser/validators.go
@@ -141,6 +141,9 @@ func checkBetween(e *ast.ExprNode) *ParseError {
 		}
 		return nil
 	}
+	if e.RVals[1].Type() == ast.TypeTime {
+		return ErrorAt(e.RVals[1].Pos(), "second argument must also be a numeric value")
+	}
 
 	var l, r float64
 	switch lnv := e.RVals[0].(type) {
-- 
2.43.0


From 01bd5f18c4c21272b4e3e2fe9a085026968a496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:09 +0000
Subject: [PATCH 08/29] fix: look at the type of the document root

The root of a document was always searched as an object. For an array, fields of
its objects were not found, a key such as "[0]" selected an element, and an
empty key made the matcher panic.
---
 jsonmatcher/json_values.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 6dde882..3d86ad0 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -22,9 +22,13 @@ type field struct {
 
 // TODO: cache paths
 func getField(path []string, root []byte) *field {
-	values := getValues(path, root, jsonparser.Object)
+	// the root is not necessarily an object
+	data, dataType, _, err := jsonparser.Get(root)
+	if err != nil {
+		return &field{}
+	}
 	return &field{
-		values: values,
+		values: getValues(path, data, dataType),
 	}
 }
 
-- 
2.43.0


From dc89847e02f37bcd4142d1d607784edebd8980aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:43 +0000
Subject: [PATCH 09/29] fix: return an error for an empty sample

Sampling an empty document panicked.
---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 2f6e8a8..a5c92db 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -2,6 +2,7 @@ package sampler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/buger/jsonparser"
@@ -38,6 +39,9 @@ func New(maxDepth int) *Sampler {
 }
 
 func (s *Sampler) Sample(sample []byte) error {
+	if len(sample) == 0 {
+		return errors.New("sample is empty")
+	}
 	var rootObj jsonparser.ValueType
 	sampleLen := len(sample)
 	// prep to get 100 characters or so to print if it looks weird, so that
-- 
2.43.0


From 134001682bc521e49dd66b2d5cc54962e8bddd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:45 +0000
Subject: [PATCH 10/29] fix: leave the sampler unchanged when a sample fails

A sample with an error dropped the keys of all samples before it and made the
next one panic. Keys are now collected per sample and added when it is complete.
---
 sampler/sampler.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index a5c92db..06aee96 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -66,17 +66,20 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	err := s.sample(sample, path, depth, rootObj)
+	found := make(map[string]uint)
+	err := s.sample(sample, path, depth, rootObj, found)
 	if err != nil {
-		s.keys = nil
 		return err
 	}
 
+	for key, count := range found {
+		s.keys[key] += count
+	}
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
+func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]uint) error {
 	if depth > s.maxDepth {
 		return nil
 	}
@@ -92,7 +95,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			} else {
 				path.Write(key)
 			}
-			if err := s.sample(value, path, depth+1, dataType); err != nil {
+			if err := s.sample(value, path, depth+1, dataType, found); err != nil {
 				return err
 			}
 			path.Truncate(pl)
@@ -110,7 +113,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			if dataType == jsonparser.Array {
 				return
 			}
-			aerr = s.sample(value, path, depth, dataType)
+			aerr = s.sample(value, path, depth, dataType, found)
 		})
 		if err == nil {
 			err = aerr
@@ -120,7 +123,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
 		// TODO Track types found for UI hinting
-		s.keys[path.String()[1:]]++
+		found[path.String()[1:]]++
 	}
 	return nil
 }
-- 
2.43.0


From e862d41daa2d5fba5d0d65e877f7e670344b10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:47 +0000
Subject: [PATCH 11/29] fix: count a key once per sample

The threshold of KeysAtThreshold is a share of the samples, but keys were counted
for each occurrence, so a key inside a long array reached any threshold.
---
 sampler/sampler.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 06aee96..d9ed681 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -66,20 +66,20 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	found := make(map[string]uint)
+	found := make(map[string]struct{})
 	err := s.sample(sample, path, depth, rootObj, found)
 	if err != nil {
 		return err
 	}
 
-	for key, count := range found {
-		s.keys[key] += count
+	for key := range found {
+		s.keys[key]++
 	}
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]uint) error {
+func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]struct{}) error {
 	if depth > s.maxDepth {
 		return nil
 	}
@@ -123,7 +123,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
 		// TODO Track types found for UI hinting
-		found[path.String()[1:]]++
+		found[path.String()[1:]] = struct{}{}
 	}
 	return nil
 }
-- 
2.43.0


From 8b7a7fdc37b3713853bc7e0c152d5def72fabc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:49 +0000
Subject: [PATCH 12/29] fix: do not limit the depth if it is negative

A negative depth is documented as no limit, but nothing was sampled with it.
---
 sampler/sampler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index d9ed681..ea6f7ba 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -80,7 +80,7 @@ func (s *Sampler) Sample(sample []byte) error {
 }
 
 func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]struct{}) error {
-	if depth > s.maxDepth {
+	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
 	switch valType {
-- 
2.43.0


From b65fc392ff2baf34b5c9c39515cfe19288452f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:52 +0000
Subject: [PATCH 13/29] fix: skip scalars in a top-level array

Sampling an array that contains a scalar panicked, as there is no key for it.
---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index ea6f7ba..bea2c50 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -122,6 +122,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	case jsonparser.Unknown:
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
+		// a scalar in a top-level array has no key
+		if path.Len() == 0 {
+			return nil
+		}
 		// TODO Track types found for UI hinting
 		found[path.String()[1:]] = struct{}{}
 	}
-- 
2.43.0


From 0c08f5974e6ad673febc7a87efa989a60ba72c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:53 +0000
Subject: [PATCH 14/29] fix: quote sampled keys that contain dots or quotes

A key with a dot was reported as the path of a nested key. Keys are now quoted
the same way as fields of a query are printed.
---
 sampler/sampler.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index bea2c50..a3d6452 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 
 	"github.com/buger/jsonparser"
 )
@@ -88,10 +89,8 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 		pl := path.Len()
 		return jsonparser.ObjectEach(current, func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {
 			path.WriteString(".")
-			if bytes.ContainsAny(key, " ") {
-				path.WriteString(`"`)
-				path.Write(key)
-				path.WriteString(`"`)
+			if bytes.ContainsAny(key, ` ."`) {
+				path.WriteString(strconv.Quote(string(key)))
 			} else {
 				path.Write(key)
 			}
-- 
2.43.0


From 6a5dcfc0ebcc4ae49b85be1ede7085b5f8901362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:18 +0000
Subject: [PATCH 15/29] fix: highlight the right part of queries with
 multi-byte characters

The offset of a position is in bytes, but was used as an index into the
characters of the query.
---
 parser/fmtmsg/formatter.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index f22745a..f872513 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	ttemplate "text/template"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -60,6 +61,7 @@ func NewFormatter(tmpl string, html bool, maxWidth int) (*Formatter, error) {
 func (f *Formatter) WithQuery(query string) *Printer {
 	return &Printer{
 		formatter: f,
+		raw:       query,
 		query:     []rune(query),
 	}
 }
@@ -67,6 +69,7 @@ func (f *Formatter) WithQuery(query string) *Printer {
 // Printer prints messages for a given query.
 type Printer struct {
 	formatter *Formatter
+	raw       string
 	query     []rune
 }
 
@@ -88,7 +91,7 @@ func (p *Printer) getPrintData(m Message) *printData {
 	pData := &printData{
 		msgType: msgUnknown,
 		query:   p.query,
-		pos:     m.Pos(),
+		pos:     p.runePos(m.Pos()),
 		lo:      0,
 		ro:      len(p.query),
 		HasHL:   m.Pos() != ast.NoPosition(),
@@ -113,6 +116,16 @@ func (p *Printer) getPrintData(m Message) *printData {
 	return pData
 }
 
+// runePos returns pos with its offset, which is in bytes, converted to runes to
+// fit the query. An offset that is not in the query is moved to the nearest end.
+func (p *Printer) runePos(pos ast.Pos) ast.Pos {
+	if pos == ast.NoPosition() {
+		return pos
+	}
+	pos.Offset = utf8.RuneCountInString(p.raw[:max(0, min(pos.Offset, len(p.raw)))])
+	return pos
+}
+
 type msgType string
 
 const (
-- 
2.43.0


From d7ed41f24ea4b0cea5631f76a1bf5484682f73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:20 +0000
Subject: [PATCH 16/29] fix: format messages at the end of the query

A position at the end of the query, such as that of an unterminated string, or a
highlight that does not fit the window made the formatter print an error instead
of the query.
---
 parser/fmtmsg/formatter.go | 9 +++++++--
 parser/fmtmsg/truncate.go  | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index f872513..97b5df9 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -153,6 +153,11 @@ func (m *printData) HLLen() int {
 	return m.pos.Len
 }
 
+// hlEnd returns where the highlight ends in the part of the query being shown
+func (m *printData) hlEnd() int {
+	return max(m.pos.Offset, min(m.pos.Offset+m.pos.Len, m.ro))
+}
+
 func (m *printData) HLStrOffset() int {
 	offset := m.pos.Offset - m.lo
 	if m.lo > 0 {
@@ -192,7 +197,7 @@ func (m *printData) QueryHL() string {
 	if !m.HasHL {
 		return ""
 	}
-	return string(m.query[m.pos.Offset : m.pos.Offset+m.pos.Len])
+	return string(m.query[m.pos.Offset:m.hlEnd()])
 }
 
 func (m *printData) QueryPost() string {
@@ -200,7 +205,7 @@ func (m *printData) QueryPost() string {
 		return ""
 	}
 	var sb strings.Builder
-	sb.WriteString(string(m.query[m.pos.Offset+m.pos.Len : m.ro]))
+	sb.WriteString(string(m.query[m.hlEnd():m.ro]))
 	if m.ro < (len(m.query)) {
 		sb.WriteString("...")
 	}
diff --git a/parser/fmtmsg/truncate.go b/parser/fmtmsg/truncate.go
index 4f80213..85c565c 100644
--- a/parser/fmtmsg/truncate.go
+++ b/parser/fmtmsg/truncate.go
@@ -10,7 +10,11 @@ func truncate(pd *printData, maxLen int) {
 	if maxLen <= 0 || pd.pos == ast.NoPosition() || len(pd.query) <= maxLen {
 		return
 	}
-	pd.lo, pd.ro = findCenterSubstring(pd.query, maxLen, pd.pos.Offset, pd.pos.Offset+pd.pos.Len)
+	lo, ro := findCenterSubstring(pd.query, maxLen, pd.pos.Offset, pd.pos.Offset+pd.pos.Len)
+	// keep the window inside the query and the start of the highlight inside the
+	// window, the highlight may extend past the end of either
+	pd.lo = max(0, min(lo, pd.pos.Offset))
+	pd.ro = min(max(ro, pd.pos.Offset), len(pd.query))
 }
 
 func findCenterSubstring(r []rune, windowSize int, startOffset int, endOffset int) (int, int) {
-- 
2.43.0


From 4ac95914504abbfaedb33ea90721da66babe1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:22 +0000
Subject: [PATCH 17/29] fix: escape fields and values in graph labels

A field or value with a character that is special in HTML broke the label.
---
 aqlgraph/node_html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f91df89..e03a9a4 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -38,7 +38,7 @@ type NodeVal struct {
 
 var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +53,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From ae9573066bd4b16d47c631e7064c6679428c6809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:22 +0000
Subject: [PATCH 18/29] fix: check for a graph error before using the graph

---
 aqlgraph/graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index caa39aa..ddfa113 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -63,11 +63,11 @@ func QueryGraph(query string) (*Graph, error) {
 	}
 	gv := graphviz.New()
 	g, err := gv.Graph(graphviz.Name("query"), graphviz.Directed)
-	g.SafeSet("fontname", "Courier", "")
-	g.SafeSet("fontsize", "10px", "")
 	if err != nil {
 		return nil, err
 	}
+	g.SafeSet("fontname", "Courier", "")
+	g.SafeSet("fontsize", "10px", "")
 	ng := &namegraph{
 		Graph: g,
 	}
-- 
2.43.0


From ce121f1e4dddf4224e97a5baa3ac0266f961f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:24 +0000
Subject: [PATCH 19/29] fix: close the index page after serving it

Every request for the index page leaked a file descriptor.
---
 wasm/aqlparse/server/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/aqlparse/server/main.go b/wasm/aqlparse/server/main.go
index f18204a..a23fed9 100644
--- a/wasm/aqlparse/server/main.go
+++ b/wasm/aqlparse/server/main.go
@@ -50,6 +50,7 @@ func main() {
 			if err != nil {
 				panic("error opening index.html: " + err.Error())
 			}
+			defer f.Close()
 			http.ServeContent(w, r, "index.html", time.Now(), f)
 			return
 		}
-- 
2.43.0


From dceda3b22fe00a405883afd26d8ff520c1065254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:15 +0000
Subject: [PATCH 20/29] fix: parse nested queries in linear time

Every level of parentheses was parsed at least four times, so a query nested
eight levels deep took seconds.
---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b33f72..f3d6b1f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,7 +26,8 @@ func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
 	for _, o := range options {
 		o(opts)
 	}
-	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug))
+	// without memoization, parsing is exponential in the nesting of the query
+	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug), grammar.Memoize(true))
 	if err != nil {
 		return nil, grammar.GetParseError(err)
 	}
-- 
2.43.0


From e40871b2d25f0c67cade0d5070df89a3a075e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:17 +0000
Subject: [PATCH 21/29] fix: match strings that begin or end with punctuation

A string was always searched between word boundaries, so one such as "here!" did
not even match itself.
---
 jsonmatcher/str_matchers.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index 3a72a61..796697b 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -23,6 +23,13 @@ func getStringMatcher(str string) fieldExpr {
 	}
 }
 
+// A string can only begin or end at a word boundary if it has a word character or
+// a wildcard there.
+var (
+	boundaryBefore = regexp.MustCompile(`^[\w?*]`)
+	boundaryAfter  = regexp.MustCompile(`(?:\w|(?:^|[^\\])[?*])$`)
+)
+
 // todo: replace runs of spaces or handle spaces specially somehow?
 func stringSearchRegexp(wcString string) *regexp.Regexp {
 	wcString = strings.ToLower(wcString)
@@ -30,7 +37,7 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
 	asciiOnly := isASCII(wcString)
-	if asciiOnly {
+	if asciiOnly && boundaryBefore.MatchString(wcString) {
 		buf.WriteString(`\b`)
 	}
 	var accum bytes.Buffer
@@ -61,7 +68,7 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	}
 	// write whatever remains in the accumulator
 	buf.WriteString(regexp.QuoteMeta(accum.String()))
-	if asciiOnly {
+	if asciiOnly && boundaryAfter.MatchString(wcString) {
 		buf.WriteString(`\b`)
 	}
 	return regexp.MustCompile(buf.String())
-- 
2.43.0


From b2ae8f6e462a3bc709e245a96b3aab8f1a79e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:51 +0000
Subject: [PATCH 22/29] fix: do not change the letters of a string search
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Lowercasing a letter such as İ turns it into other letters that no longer match
it. The search ignores case anyway.
---
 jsonmatcher/str_matchers.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index 796697b..26cd1ed 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -32,7 +32,6 @@ var (
 
 // todo: replace runs of spaces or handle spaces specially somehow?
 func stringSearchRegexp(wcString string) *regexp.Regexp {
-	wcString = strings.ToLower(wcString)
 	wcRunes := []rune(wcString)
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
-- 
2.43.0


From a1f705548a7c3eb29b1815560593191babbd53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:01 +0000
Subject: [PATCH 23/29] fix: report the whole literal for an integer out of
 range

---
 internal/grammar/aql.peg       | 7 ++++++-
 internal/grammar/parser_gen.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 3f572ab..dbe13d0 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -379,7 +379,12 @@ FloatValue <- '-'? [0-9]+ '.' [0-9]+ {
 }
 
 IntValue <- '-'? [0-9]+ {
-    return ast.NewIntVal(c.text, getpos(c))
+    pos := getpos(c)
+    val, err := ast.NewIntVal(c.text, pos)
+    if err != nil {
+        return nil, tokErr(pos, err)
+    }
+    return val, nil
 }
 
 
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index 78cdd76..3e7a1d6 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2150,7 +2150,12 @@ func (p *parser) callonFloatValue1() (interface{}, error) {
 }
 
 func (c *current) onIntValue1() (interface{}, error) {
-	return ast.NewIntVal(c.text, getpos(c))
+	pos := getpos(c)
+	val, err := ast.NewIntVal(c.text, pos)
+	if err != nil {
+		return nil, tokErr(pos, err)
+	}
+	return val, nil
 }
 
 func (p *parser) callonIntValue1() (interface{}, error) {
-- 
2.43.0


From e0ebdc56ecfd74a4ff2aff06c6b343eddbeb1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:24 +0000
Subject: [PATCH 24/29] fix: make new field statistics with example lists

---
 jsonmatcher/field_stats.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jsonmatcher/field_stats.go b/jsonmatcher/field_stats.go
index a665227..e1388f6 100644
--- a/jsonmatcher/field_stats.go
+++ b/jsonmatcher/field_stats.go
@@ -68,12 +68,10 @@ func NewFieldStats(expectedTypes ...expectedType) *FieldStats {
 	fs := &FieldStats{
 		Expecting: expectedTypes,
 	}
-	for _, enc := range fs.TypesEnountered {
-		enc.Examples = &ExampleList{}
-	}
-	return &FieldStats{
-		Expecting: expectedTypes,
+	for i := range fs.TypesEnountered {
+		fs.TypesEnountered[i].Examples = &ExampleList{}
 	}
+	return fs
 }
 
 func (n *FieldStats) MarshalJson() ([]byte, error) {
-- 
2.43.0


From 78870e178b9d5c1f1244e550050270f9d8009701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:24 +0000
Subject: [PATCH 25/29] fix: do not copy field counters that are in use

---
 jsonmatcher/field_stats.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/field_stats.go b/jsonmatcher/field_stats.go
index e1388f6..1c8dc6d 100644
--- a/jsonmatcher/field_stats.go
+++ b/jsonmatcher/field_stats.go
@@ -79,7 +79,8 @@ func (n *FieldStats) MarshalJson() ([]byte, error) {
 	out["expecting"] = n.Expecting
 	out["times_seen"] = n.TimesSampled.Load()
 	encountered := map[string]map[string]interface{}{}
-	for i, e := range n.TypesEnountered {
+	for i := range n.TypesEnountered {
+		e := &n.TypesEnountered[i]
 		if e.TimesSeen.Load() != 0 {
 			em := map[string]interface{}{}
 			em["times_seen"] = e.TimesSeen.Load()
-- 
2.43.0


From 6729aab3816f1df3deea59cc0330fdf17cd70272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:24 +0000
Subject: [PATCH 26/29] fix: show at most the maximum number of keys in an
 example

---
 jsonmatcher/field_stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonmatcher/field_stats.go b/jsonmatcher/field_stats.go
index 1c8dc6d..3fe95f7 100644
--- a/jsonmatcher/field_stats.go
+++ b/jsonmatcher/field_stats.go
@@ -156,7 +156,7 @@ func (n *FieldStats) mark(foundValues []jsonValue, matchIdx int, inArray bool) {
 					}
 					sb.WriteString(`"` + keystr + `"`)
 					numkeys++
-					if numkeys > fieldMapMaxKeys {
+					if numkeys >= fieldMapMaxKeys {
 						return stopIter
 					}
 					return nil
-- 
2.43.0


From 771b184560f68cb71308b35ad38cb7f69799b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:24 +0000
Subject: [PATCH 27/29] fix: keep the first examples of a field

---
 jsonmatcher/field_stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonmatcher/field_stats.go b/jsonmatcher/field_stats.go
index 3fe95f7..65ddbe7 100644
--- a/jsonmatcher/field_stats.go
+++ b/jsonmatcher/field_stats.go
@@ -183,11 +183,11 @@ type ExampleList struct {
 func (el *ExampleList) addExample(example string) {
 	el.mux.Lock()
 	defer el.mux.Unlock()
+	el.examples[el.eIdx] = example
 	el.eIdx++
 	if el.eIdx == len(el.examples) {
 		el.eIdx = 0
 	}
-	el.examples[el.eIdx] = example
 }
 
 func (el *ExampleList) Get() []string {
-- 
2.43.0


From 76f79df2f3e4f753db952e575fb27ecb8bd94c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:24 +0000
Subject: [PATCH 28/29] fix: encode the type of a message by name wherever it
 is

---
 parser/message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/message.go b/parser/message.go
index 231c4f5..5b49685 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -10,8 +10,8 @@ import (
 // MessageType is the type of a parser message
 type MessageType int
 
-func (t *MessageType) MarshalJSON() ([]byte, error) {
-	return json.Marshal(typeStr(*t))
+func (t MessageType) MarshalJSON() ([]byte, error) {
+	return json.Marshal(typeStr(t))
 }
 
 const (
-- 
2.43.0


From 8773e921c43dd37ec34e791fcb972bdafbae3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:30 +0000
Subject: [PATCH 29/29] fix: count highlighted characters as the browser does

---
 wasm/aqlparse/main.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/wasm/aqlparse/main.go b/wasm/aqlparse/main.go
index 49e22cb..fb2db8e 100644
--- a/wasm/aqlparse/main.go
+++ b/wasm/aqlparse/main.go
@@ -7,8 +7,11 @@ import (
 	"fmt"
 	"strings"
 	"syscall/js"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
+	"github.com/flowchartsman/aql/parser/ast"
 )
 
 func parseAQL(query string) (string, []*parser.ParserMessage, error) {
@@ -29,15 +32,14 @@ func errConvert(err error, input string) map[string]any {
 		msg := pe.Msg
 		if strings.HasPrefix(msg, "no match found") {
 			msg = "incomplete query"
-			pe.Position.Offset = len(input) - 1
+			_, size := utf8.DecodeLastRuneInString(input)
+			pe.Position.Offset = len(input) - size
 			pe.Position.Len = 1
 		}
-		return map[string]any{
-			"type":  "error",
-			"msg":   msg,
-			"start": pe.Position.Offset,
-			"end":   pe.Position.Offset + pe.Position.Len,
-		}
+		return located(map[string]any{
+			"type": "error",
+			"msg":  msg,
+		}, pe.Position, input)
 	} else {
 		return map[string]any{
 			"msg": err.Error(),
@@ -55,12 +57,26 @@ func msgConvert(msg *parser.ParserMessage, input string) map[string]any {
 	case parser.MsgError:
 		msgType = "error"
 	}
-	return map[string]any{
-		"type":  msgType,
-		"msg":   msg.Msg,
-		"start": msg.Position.Offset,
-		"end":   msg.Position.Offset + msg.Position.Len,
+	return located(map[string]any{
+		"type": msgType,
+		"msg":  msg.Msg,
+	}, msg.Position, input)
+}
+
+// located adds the part of the input at a position to a message. The browser
+// counts UTF-16 code units, while offsets are in bytes and lengths in runes.
+func located(message map[string]any, pos ast.Pos, input string) map[string]any {
+	if pos.Offset < 0 {
+		return message
+	}
+	covered := []rune(input[pos.Offset:])
+	if pos.Len < len(covered) {
+		covered = covered[:pos.Len]
 	}
+	start := len(utf16.Encode([]rune(input[:pos.Offset])))
+	message["start"] = start
+	message["end"] = start + len(utf16.Encode(covered))
+	return message
 }
 
 func pWrap(this js.Value, args []js.Value) any {
-- 
2.43.0

