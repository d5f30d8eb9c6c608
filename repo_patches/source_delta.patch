From 5e6a4a1c574239c588cb3a72bbef3d62625649ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/15] fix: key elements by a unique number instead of a
 reusable memory address

---
 support.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/support.go b/support.go
index 1e177de..50de1a7 100644
--- a/support.go
+++ b/support.go
@@ -1,8 +1,9 @@
 package cypher
 
 import (
-	"fmt"
 	"github.com/rs/xid"
+	"strconv"
+	"sync/atomic"
 )
 
 var SYMBOLIC_GENERATOR = xid.New()
@@ -23,7 +24,11 @@ func PatternElementsToVisitables(patterns []PatternElement) []Visitable {
 	return visitables
 }
 
-func getAddress(a interface{}) string {
-	return fmt.Sprintf("%p", a)
+var lastKey uint64
+
+// getAddress returns a key that identifies the given element. It must differ from the key of every element created
+// before, also of those already collected, so it can not be derived from the memory address of the element.
+func getAddress(_ interface{}) string {
+	return strconv.FormatUint(atomic.AddUint64(&lastKey, 1), 16)
 }
 
-- 
2.43.0


From 5a1e4a2382e773b60468729b45cfc195ea0bc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 02/15] fix: render every statement with a fresh state so that
 a renderer can be reused and shared

---
 cypher_renderer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index d3be5ac..37df927 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -46,8 +46,9 @@ func (renderer CypherRenderer) Render(statement Statement) (string, error) {
 	if statement.GetError() != nil {
 		return "", statement.GetError()
 	}
-	statement.accept(&renderer)
-	return strings.TrimSpace(renderer.builder.String()), nil
+	run := NewRenderer()
+	statement.accept(run)
+	return strings.TrimSpace(run.builder.String()), nil
 }
 
 func (renderer *CypherRenderer) enableSeparator(level int, on bool) {
-- 
2.43.0


From 027beb1eedaed70951aaf37661f664c46bba1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 03/15] fix: give every unresolved symbolic name its own valid
 generated name

---
 cypher_renderer.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cypher_renderer.go b/cypher_renderer.go
index 37df927..81e68cd 100644
--- a/cypher_renderer.go
+++ b/cypher_renderer.go
@@ -3,6 +3,7 @@ package cypher
 import (
 	"github.com/rs/xid"
 	"golang.org/x/xerrors"
+	"strconv"
 	"strings"
 	"unicode"
 )
@@ -10,7 +11,7 @@ import (
 type CypherRenderer struct {
 	visitableToAliased     map[string]AliasedExpression
 	separatorOnLevel       map[int]string
-	resolvedSymbolicNames  map[SymbolicName]string
+	resolvedSymbolicNames  map[string]string
 	visitedNamed           map[string]int
 	currentVisitedElements []string
 	currentAliasedElements []AliasedExpression
@@ -29,7 +30,7 @@ func NewRenderer() *CypherRenderer {
 	return &CypherRenderer{
 		visitableToAliased:     make(map[string]AliasedExpression),
 		separatorOnLevel:       make(map[int]string),
-		resolvedSymbolicNames:  make(map[SymbolicName]string),
+		resolvedSymbolicNames:  make(map[string]string),
 		visitedNamed:           make(map[string]int),
 		currentVisitedElements: make([]string, 0),
 		currentAliasedElements: make([]AliasedExpression, 0),
@@ -69,14 +70,15 @@ func (renderer *CypherRenderer) resetSeparatorOnCurrentLevel() {
 }
 
 func (renderer *CypherRenderer) resolve(name SymbolicName) string {
-	if _, isExist := renderer.resolvedSymbolicNames[name]; !isExist {
-		value := name.value
-		if len(value) > 0 {
-			return EscapeIfNecessary(value)
-		}
-		return renderer.guid.String()
+	if len(name.value) > 0 {
+		return EscapeIfNecessary(name.value)
+	}
+	resolved, isExist := renderer.resolvedSymbolicNames[name.key]
+	if !isExist {
+		resolved = "n" + renderer.guid.String() + strconv.Itoa(len(renderer.resolvedSymbolicNames))
+		renderer.resolvedSymbolicNames[name.key] = resolved
 	}
-	return renderer.resolvedSymbolicNames[name]
+	return resolved
 }
 
 func (renderer *CypherRenderer) enter(visitable Visitable) {
-- 
2.43.0


From 5ef55b4d7175b92e809c09118d0d62eb5bac98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 04/15] fix: write the resolved name of a node at its later
 mentions too

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index c6b77af..43e4394 100644
--- a/node.go
+++ b/node.go
@@ -147,7 +147,7 @@ func (node Node) enter(renderer *CypherRenderer) {
 	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
 	renderer.visitedNamed[node.key] = 1
 	if renderer.skipNodeContent {
-		renderer.append(node.symbolicName.value)
+		renderer.append(renderer.resolve(node.symbolicName))
 	}
 }
 
-- 
2.43.0


From 04a65d06ea08353bdd092b437b2019f1ae5c54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/15] fix: do not share the list of clauses between
 continuations of one statement

---
 default_ongoing_unwind.go    |  4 ++--
 default_statement_builder.go | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/default_ongoing_unwind.go b/default_ongoing_unwind.go
index 23f30e1..f2df5e9 100644
--- a/default_ongoing_unwind.go
+++ b/default_ongoing_unwind.go
@@ -22,6 +22,6 @@ func (d DefaultOngoingUnwind) GetError() error {
 }
 
 func (d DefaultOngoingUnwind) As(variable string) OngoingReading {
-	d.defaultBuilder.currentSinglePartElements = append(d.defaultBuilder.currentSinglePartElements, unwindCreate(d.expressionToUnwind, variable))
-	return d.defaultBuilder
+	builder := *d.defaultBuilder
+	return builder.addSinglePartElement(unwindCreate(d.expressionToUnwind, variable))
 }
diff --git a/default_statement_builder.go b/default_statement_builder.go
index 44fda57..7173d3d 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -46,6 +46,14 @@ func (d DefaultStatementBuilder) Where(condition Condition) OngoingReadingWithWh
 	return d
 }
 
+// addSinglePartElement adds the element without touching the elements of other builders derived from the same one.
+func (d DefaultStatementBuilder) addSinglePartElement(element Visitable) DefaultStatementBuilder {
+	elements := make([]Visitable, len(d.currentSinglePartElements), len(d.currentSinglePartElements)+1)
+	copy(elements, d.currentSinglePartElements)
+	d.currentSinglePartElements = append(elements, element)
+	return d
+}
+
 func (d DefaultStatementBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
 	return d.Where(container.Get())
 }
@@ -58,7 +66,9 @@ func (d DefaultStatementBuilder) AddWith(with with) DefaultStatementBuilder {
 		return DefaultStatementBuilderError(with.GetError())
 	}
 	if with.isNotNil() {
-		d.multipartElements = append(d.multipartElements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
+		elements := make([]MultiPartElement, len(d.multipartElements), len(d.multipartElements)+1)
+		copy(elements, d.multipartElements)
+		d.multipartElements = append(elements, MultiPartElementCreate(d.BuildListOfVisitable(true), with))
 	}
 	return d
 }
@@ -368,8 +378,7 @@ func (d DefaultStatementBuilder) Call(statement Statement) OngoingReadingWithout
 		d.err = singlePart.GetError()
 		return d
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, singlePart)
-	return d
+	return d.addSinglePartElement(singlePart)
 }
 
 func (d DefaultStatementBuilder) Call1(namespaceAndProcedure ...string) OngoingInQueryCallWithoutArguments {
@@ -504,7 +513,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingMatch() {
 	if !d.currentOngoingMatch.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingMatch.buildMatch())
+	*d = d.addSinglePartElement(d.currentOngoingMatch.buildMatch())
 	d.currentOngoingMatch = MatchBuilder{}
 }
 
@@ -517,7 +526,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingCall() {
 		d.err = err
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, builtCall)
+	*d = d.addSinglePartElement(builtCall)
 	d.currentOngoingCall = InQueryCallBuilder{}
 }
 
@@ -525,7 +534,7 @@ func (d *DefaultStatementBuilder) CloseCurrentOngoingUpdate() {
 	if !d.currentOngoingUpdate.notNil {
 		return
 	}
-	d.currentSinglePartElements = append(d.currentSinglePartElements, d.currentOngoingUpdate.builder.build())
+	*d = d.addSinglePartElement(d.currentOngoingUpdate.builder.build())
 	d.currentOngoingUpdate = DefaultStatementWithUpdateBuilder{}
 }
 
@@ -597,7 +606,7 @@ func (d *DefaultStatementBuilder) BuildListOfVisitable(clearAfter bool) []Visita
 
 func (d *DefaultStatementBuilder) addUpdatingClause(clause UpdatingClause) DefaultStatementBuilder {
 	d.CloseCurrentOngoingMatch()
-	d.currentSinglePartElements = append(d.currentSinglePartElements, clause)
+	*d = d.addSinglePartElement(clause)
 	return *d
 }
 
-- 
2.43.0


From 2d59fa2e44e6cf6a4fcc5bf902d8d0237117ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 06/15] fix: building or continuing an update no longer changes
 the statement builder it started from

---
 default_statement_with_update.go | 34 +++++++++++++++-----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 5c2f70e..0bc65d7 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -69,6 +69,13 @@ func (d DefaultStatementWithUpdateBuilder) isNotNil() bool {
 	return d.notNil
 }
 
+// builderWithUpdate returns a copy of the statement builder extended with this update.
+func (d DefaultStatementWithUpdateBuilder) builderWithUpdate() *DefaultStatementBuilder {
+	builder := *d.defaultBuilder
+	builder.addUpdatingClause(d.builder.build())
+	return &builder
+}
+
 func (d DefaultStatementWithUpdateBuilder) And(expression Expression) TerminalOngoingOrderDefinition {
 	d.orderBuilder.And(expression)
 	return d
@@ -108,14 +115,13 @@ func (d DefaultStatementWithUpdateBuilder) Build() (Statement, error) {
 	if d.err != nil {
 		return nil, d.err
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
 	var returning Return
 	if len(d.returnList) > 0 {
 		returnItems := ExpressionList{expressions: d.returnList}
 		returning = ReturnCreate1(d.distinct, returnItems, d.orderBuilder.BuildOrder(), d.orderBuilder.skip,
 			d.orderBuilder.limit)
 	}
-	return d.defaultBuilder.BuildImpl(false, returning), nil
+	return d.builderWithUpdate().BuildImpl(false, returning), nil
 }
 
 func (d DefaultStatementWithUpdateBuilder) ReturningByString(variables ...string) OngoingReadingAndReturn {
@@ -158,8 +164,7 @@ func (d DefaultStatementWithUpdateBuilder) With(expressions ...Expression) Order
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDefault(distinct bool, returnedExpressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.WithDefault(distinct, returnedExpressions...)
+	return d.builderWithUpdate().WithDefault(distinct, returnedExpressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -187,7 +192,6 @@ func (d DefaultStatementWithUpdateBuilder) Delete(expressions ...Expression) Ong
 }
 
 func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, deletedExpressions ...Expression) OngoingUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
 	var deleteType UpdateType
 	if nextDetach {
 		deleteType = UPDATE_TYPE_DETACH_DELETE
@@ -198,7 +202,7 @@ func (d DefaultStatementWithUpdateBuilder) DeleteDefault(nextDetach bool, delete
 	for i := range deletedExpressions {
 		visitables[i] = deletedExpressions[i]
 	}
-	return d.defaultBuilder.Update(deleteType, visitables)
+	return d.builderWithUpdate().Update(deleteType, visitables)
 }
 
 func (d DefaultStatementWithUpdateBuilder) DetachDeleteByString(variables ...string) OngoingUpdate {
@@ -214,13 +218,11 @@ func (d DefaultStatementWithUpdateBuilder) DetachDelete(expressions ...Expressio
 }
 
 func (d DefaultStatementWithUpdateBuilder) Merge(pattern ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Merge(pattern...)
+	return d.builderWithUpdate().Merge(pattern...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Set(expressions ...Expression) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, expressions...)
+	return DefaultStatementWithUpdateBuilderCreate2(d.builderWithUpdate(), UPDATE_TYPE_SET, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expression Expression) BuildableStatementAndOngoingMatchAndUpdate {
@@ -228,16 +230,14 @@ func (d DefaultStatementWithUpdateBuilder) SetWithNamed(variable Named, expressi
 }
 
 func (d DefaultStatementWithUpdateBuilder) SetByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
+	return DefaultStatementWithUpdateBuilderCreate2(d.builderWithUpdate(), UPDATE_TYPE_SET, OperationSetLabel(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) RemoveByNode(node Node, labels ...string) BuildableStatementAndOngoingMatchAndUpdate {
 	if d.err != nil {
 		return d
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
+	return DefaultStatementWithUpdateBuilderCreate2(d.builderWithUpdate(), UPDATE_TYPE_REMOVE, OperationSetLabel(node, labels...))
 }
 
 func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) BuildableStatementAndOngoingMatchAndUpdate {
@@ -245,11 +245,9 @@ func (d DefaultStatementWithUpdateBuilder) Remove(properties ...Property) Builda
 	for i := range properties {
 		expressions[i] = properties[i]
 	}
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return DefaultStatementWithUpdateBuilderCreate2(d.defaultBuilder, UPDATE_TYPE_REMOVE, expressions...)
+	return DefaultStatementWithUpdateBuilderCreate2(d.builderWithUpdate(), UPDATE_TYPE_REMOVE, expressions...)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Create(element ...PatternElement) OngoingUpdateAndExposesSet {
-	d.defaultBuilder.addUpdatingClause(d.builder.build())
-	return d.defaultBuilder.Create(element...)
+	return d.builderWithUpdate().Create(element...)
 }
-- 
2.43.0


From 3675b09e4943c505caaf5a6de222769235505225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 07/15] fix: continuing a procedure call no longer changes the
 statement builder it started from

---
 in_query_call_builder.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index 3fa7feb..b4e56cb 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -19,10 +19,16 @@ func InQueryCallBuilderCreate(defaultBuilder *DefaultStatementBuilder, procedure
 	}
 }
 
+// builderWithCall returns a copy of the statement builder whose ongoing call is this one.
+func (i InQueryCallBuilder) builderWithCall() DefaultStatementBuilder {
+	builder := *i.defaultBuilder
+	builder.currentOngoingCall = i
+	return builder
+}
+
 func (i InQueryCallBuilder) Where(condition Condition) OngoingReadingWithWhere {
 	i.conditionBuilder.Where(condition)
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder
+	return i.builderWithCall()
 }
 
 func (i InQueryCallBuilder) WhereConditionContainer(container ConditionContainer) OngoingReadingWithWhere {
@@ -42,8 +48,7 @@ func (i InQueryCallBuilder) ReturningByNamed(variables ...Named) OngoingReadingA
 }
 
 func (i InQueryCallBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Returning(expression...)
+	return i.builderWithCall().Returning(expression...)
 }
 
 func (i InQueryCallBuilder) ReturningDistinctByString(variables ...string) OngoingReadingAndReturn {
@@ -55,8 +60,7 @@ func (i InQueryCallBuilder) ReturningDistinctByNamed(variables ...Named) Ongoing
 }
 
 func (i InQueryCallBuilder) ReturningDistinct(expression ...Expression) OngoingReadingAndReturn {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.ReturningDistinct(expression...)
+	return i.builderWithCall().ReturningDistinct(expression...)
 }
 
 func (i InQueryCallBuilder) Build() (Statement, error) {
@@ -112,8 +116,7 @@ func (i InQueryCallBuilder) WithByNamed(variables ...Named) OrderableOngoingRead
 }
 
 func (i InQueryCallBuilder) With(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.With(expressions...)
+	return i.builderWithCall().With(expressions...)
 }
 
 func (i InQueryCallBuilder) WithDistinctByString(variables ...string) OrderableOngoingReadingAndWithWithoutWhere {
@@ -125,13 +128,11 @@ func (i InQueryCallBuilder) WithDistinctByNamed(variables ...Named) OrderableOng
 }
 
 func (i InQueryCallBuilder) WithDistinct(expressions ...Expression) OrderableOngoingReadingAndWithWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.WithDistinct(expressions...)
+	return i.builderWithCall().WithDistinct(expressions...)
 }
 
 func (i InQueryCallBuilder) Call(statement Statement) OngoingReadingWithoutWhere {
-	i.defaultBuilder.currentOngoingCall = i
-	return i.defaultBuilder.Call(statement)
+	return i.builderWithCall().Call(statement)
 }
 
 func (i InQueryCallBuilder) isNotNil() bool {
-- 
2.43.0


From f2c771363ba3babb949775018a1ee7f4b0201e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 08/15] fix: adding a merge action no longer changes the
 statement builder it started from

---
 default_statement_builder.go | 8 ++++----
 updating_clause_builder.go   | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/default_statement_builder.go b/default_statement_builder.go
index 7173d3d..3036eec 100644
--- a/default_statement_builder.go
+++ b/default_statement_builder.go
@@ -721,11 +721,11 @@ func (o OngoingMergeActionInBuilder) Set(expressions ...Expression) OngoingMatch
 	newSupport, err := support.on(o.mergeType, expressions...)
 	newMergeBuilder, _ := newSupport.(MergeBuilder)
 	if err != nil {
-		o.defaultBuilder.err = err
-		return o.defaultBuilder
+		return DefaultStatementBuilderError(err)
 	}
-	o.defaultBuilder.currentOngoingUpdate.builder = newMergeBuilder
-	return o.defaultBuilder
+	builder := *o.defaultBuilder
+	builder.currentOngoingUpdate.builder = newMergeBuilder
+	return builder
 }
 
 func (o OngoingMergeActionInBuilder) SetWithNamed(variable Named, expression Expression) OngoingMatchAndUpdateAndBuildableStatementAndExposesMergeAction {
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index 814f336..c177ebb 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -25,7 +25,9 @@ func (c MergeBuilder) on(mergeType MERGE_TYPE, expressions ...Expression) (Suppo
 		return MergeBuilder{}, err
 	}
 	expressionList := ExpressionListCreate(expression)
-	c.mergeActions = append(c.mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
+	mergeActions := make([]MergeAction, len(c.mergeActions), len(c.mergeActions)+1)
+	copy(mergeActions, c.mergeActions)
+	c.mergeActions = append(mergeActions, MergeActionCreate(mergeType, SetCreate(expressionList)))
 	return c, nil
 }
 
-- 
2.43.0


From 41b63b67965f97e19f7c4a912ac5df8461173b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 09/15] fix: do not share lists of returned and sort items
 between continuations of one statement

---
 default_statement_with_return_builder.go |  4 +++-
 default_statement_with_update.go         |  4 +++-
 default_statement_with_with_builder.go   |  4 +++-
 order_builder.go                         | 11 +++++++----
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/default_statement_with_return_builder.go b/default_statement_with_return_builder.go
index 47b428b..cf394d6 100644
--- a/default_statement_with_return_builder.go
+++ b/default_statement_with_return_builder.go
@@ -13,7 +13,9 @@ func DefaultStatementWithReturnBuilderError(err error) DefaultStatementWithRetur
 }
 
 func (d *DefaultStatementWithReturnBuilder) AddExpression(expression ...Expression) {
-	d.returnList = append(d.returnList, expression...)
+	returnList := make([]Expression, len(d.returnList), len(d.returnList)+len(expression))
+	copy(returnList, d.returnList)
+	d.returnList = append(returnList, expression...)
 }
 
 func (d DefaultStatementWithReturnBuilder) Build() (Statement, error) {
diff --git a/default_statement_with_update.go b/default_statement_with_update.go
index 0bc65d7..21a3d62 100644
--- a/default_statement_with_update.go
+++ b/default_statement_with_update.go
@@ -133,7 +133,9 @@ func (d DefaultStatementWithUpdateBuilder) ReturningByNamed(variables ...Named)
 }
 
 func (d DefaultStatementWithUpdateBuilder) Returning(expression ...Expression) OngoingReadingAndReturn {
-	d.returnList = append(d.returnList, expression...)
+	returnList := make([]Expression, len(d.returnList), len(d.returnList)+len(expression))
+	copy(returnList, d.returnList)
+	d.returnList = append(returnList, expression...)
 	return d
 }
 
diff --git a/default_statement_with_with_builder.go b/default_statement_with_with_builder.go
index af51013..2625a49 100644
--- a/default_statement_with_with_builder.go
+++ b/default_statement_with_with_builder.go
@@ -44,7 +44,9 @@ func (d *DefaultStatementWithWithBuilder) buildWith() with {
 }
 
 func (d *DefaultStatementWithWithBuilder) addExpression(expressions ...Expression) {
-	d.returnList = append(d.returnList, expressions...)
+	returnList := make([]Expression, len(d.returnList), len(d.returnList)+len(expressions))
+	copy(returnList, d.returnList)
+	d.returnList = append(returnList, expressions...)
 }
 
 func (d DefaultStatementWithWithBuilder) Skip(number int) ExposesLimitAndOngoingReadingAndWith {
diff --git a/order_builder.go b/order_builder.go
index bbc40d4..d7fb14d 100644
--- a/order_builder.go
+++ b/order_builder.go
@@ -15,7 +15,10 @@ func OrderBuilderCreate() OrderBuilder {
 }
 
 func (o *OrderBuilder) OrderBySortItem(item ...SortItem) {
-	o.sortItemList = append(o.sortItemList, item...)
+	// the items are shared with the builders this one was copied from
+	items := make([]SortItem, len(o.sortItemList), len(o.sortItemList)+len(item))
+	copy(items, o.sortItemList)
+	o.sortItemList = append(items, item...)
 }
 
 func (o *OrderBuilder) OrderByExpression(expression Expression) {
@@ -27,12 +30,12 @@ func (o *OrderBuilder) And(expression Expression) {
 }
 
 func (o *OrderBuilder) Descending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Descending())
+	o.OrderBySortItem(o.lastSortItem.Descending())
 	o.lastSortItem = SortItem{}
 }
 
 func (o *OrderBuilder) Ascending() {
-	o.sortItemList = append(o.sortItemList, o.lastSortItem.Ascending())
+	o.OrderBySortItem(o.lastSortItem.Ascending())
 	o.lastSortItem = SortItem{}
 }
 
@@ -46,7 +49,7 @@ func (o *OrderBuilder) Limit(number int) {
 
 func (o *OrderBuilder) BuildOrder() Order {
 	if o.lastSortItem.isNotNil() {
-		o.sortItemList = append(o.sortItemList, o.lastSortItem)
+		o.OrderBySortItem(o.lastSortItem)
 	}
 	if o.sortItemList != nil && len(o.sortItemList) > 0 {
 		return OrderCreate(o.sortItemList)
-- 
2.43.0


From 8e6f0d3a9913dd9e75abb61905f9004574fc8bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 10/15] fix: deriving a relationship chain no longer changes
 the original chain

---
 relationship_chain.go | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/relationship_chain.go b/relationship_chain.go
index 6cb37c9..3c58656 100644
--- a/relationship_chain.go
+++ b/relationship_chain.go
@@ -31,22 +31,29 @@ func (r RelationshipChain) getKey() string {
 	return r.key
 }
 
+// with returns this chain made of a copy of the given relationships and one more.
+func (r RelationshipChain) with(relationships []Relationship, last Relationship) RelationshipChain {
+	r.relationships = append(append(make([]Relationship, 0, len(relationships)+1), relationships...), last)
+	return r
+}
+
+func (r RelationshipChain) replaceLast(last Relationship) RelationshipChain {
+	return r.with(r.relationships[:len(r.relationships)-1], last)
+}
+
 func (r RelationshipChain) RelationshipTo(node Node, types ...string) RelationshipChain {
 	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipTo(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.with(r.relationships, newRelation)
 }
 
 func (r RelationshipChain) RelationshipFrom(node Node, types ...string) RelationshipChain {
 	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipFrom(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.with(r.relationships, newRelation)
 }
 
 func (r RelationshipChain) RelationshipBetween(node Node, types ...string) RelationshipChain {
 	newRelation := r.relationships[len(r.relationships)-1].right.RelationshipBetween(node, types...)
-	r.relationships = append(r.relationships, newRelation)
-	return r
+	return r.with(r.relationships, newRelation)
 }
 
 func (r RelationshipChain) Named(name string) Relationship {
@@ -55,44 +62,37 @@ func (r RelationshipChain) Named(name string) Relationship {
 
 func (r RelationshipChain) NamedC(name string) RelationshipChain {
 	namedRelation := r.relationships[len(r.relationships)-1].Named(name)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(namedRelation)
 }
 
 func (r RelationshipChain) Unbounded() RelationshipChain {
 	namedRelation := r.relationships[len(r.relationships)-1].Unbounded()
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(namedRelation)
 }
 
 func (r RelationshipChain) Min(minimum int) RelationshipChain {
 	namedRelation := r.relationships[len(r.relationships)-1].Min(minimum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(namedRelation)
 }
 
 func (r RelationshipChain) Length(minimum int, maximum int) RelationshipChain {
 	namedRelation := r.relationships[len(r.relationships)-1].Length(minimum, maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(namedRelation)
 }
 
 func (r RelationshipChain) Max(maximum int) RelationshipChain {
 	namedRelation := r.relationships[len(r.relationships)-1].Max(maximum)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(namedRelation)
 }
 
 func (r RelationshipChain) Properties(newProperties MapExpression) RelationshipChain {
 	namedRelation := r.relationships[len(r.relationships)-1].WithProperties(newProperties)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(namedRelation)
 }
 
 func (r RelationshipChain) PropertiesRaw(keysAndValues ...interface{}) RelationshipChain {
 	namedRelation := r.relationships[len(r.relationships)-1].WithRawProperties(keysAndValues...)
-	r.relationships[len(r.relationships)-1] = namedRelation
-	return r
+	return r.replaceLast(namedRelation)
 }
 
 func (r RelationshipChain) accept(visitor *CypherRenderer) {
@@ -114,8 +114,7 @@ func (r RelationshipChain) leave(renderer *CypherRenderer) {
 }
 
 func (r RelationshipChain) Add(relationship Relationship) RelationshipChain {
-	r.relationships = append(r.relationships, relationship)
-	return r
+	return r.with(r.relationships, relationship)
 }
 
 func (r RelationshipChain) IsPatternElement() bool {
-- 
2.43.0


From d315a3ca2ba7adf95683e3d43ef8f1f4a85b6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 11/15] fix: deriving a compound condition no longer changes
 conditions derived before

---
 compound_condition.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/compound_condition.go b/compound_condition.go
index 6d24572..4661b1d 100644
--- a/compound_condition.go
+++ b/compound_condition.go
@@ -156,25 +156,30 @@ func (c *CompoundCondition) add(chainingOperator Operator, condition Condition)
 		}
 		if c.operator == chainingOperator && chainingOperator == compoundCondition.operator {
 			if compoundCondition.canBeFlattenedWith(chainingOperator) {
-				c.conditions = append(c.conditions, compoundCondition.conditions...)
+				c.conditions = appendConditions(c.conditions, compoundCondition.conditions...)
 			} else {
-				c.conditions = append(c.conditions, compoundCondition)
+				c.conditions = appendConditions(c.conditions, compoundCondition)
 			}
 		} else {
 			inner := CompoundConditionCreate1(chainingOperator)
 			inner.conditions = append(inner.conditions, compoundCondition)
-			c.conditions = append(c.conditions, inner)
+			c.conditions = appendConditions(c.conditions, inner)
 		}
 		return *c
 	}
 
 	if c.operator == chainingOperator {
-		c.conditions = append(c.conditions, condition)
+		c.conditions = appendConditions(c.conditions, condition)
 		return *c
 	}
 	return CompoundConditionCreate(*c, chainingOperator, condition)
 }
 
+// appendConditions copies the given conditions, they may be shared with other compound conditions.
+func appendConditions(conditions []Condition, additional ...Condition) []Condition {
+	return append(append(make([]Condition, 0, len(conditions)+len(additional)), conditions...), additional...)
+}
+
 func (c CompoundCondition) hasCondition() bool {
 	return !(c.GetExpressionType() == EMPTY_CONDITION_EXPRESSION ||
 		len(c.conditions) == 0)
-- 
2.43.0


From 31a34345209dd94156084621858363bc3aa348f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 12/15] fix: deriving a case expression no longer changes
 expressions derived before

---
 case.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/case.go b/case.go
index 0d82f1a..d4cd6ab 100644
--- a/case.go
+++ b/case.go
@@ -208,11 +208,13 @@ func OngoingWhenThenCreate(caseInstance *Case, whenExpression Expression) Ongoin
 
 func (o OngoingWhenThen) Then(expression Expression) CaseEnding {
 	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
-	o.caseInstance.caseWhenThens = append(o.caseInstance.caseWhenThens, caseWhenThen)
+	caseWhenThens := make([]CaseWhenThen, len(o.caseInstance.caseWhenThens), len(o.caseInstance.caseWhenThens)+1)
+	copy(caseWhenThens, o.caseInstance.caseWhenThens)
+	caseWhenThens = append(caseWhenThens, caseWhenThen)
 	if o.caseInstance.caseExpression != nil && o.caseInstance.caseExpression.isNotNil() {
-		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, o.caseInstance.caseWhenThens)
+		return EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)
 	} else {
-		return EndingGenericCaseCreate(o.caseInstance.caseWhenThens)
+		return EndingGenericCaseCreate(caseWhenThens)
 	}
 }
 
-- 
2.43.0


From 04a9687eab462ec0208822ad6c00726053d17629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 13/15] fix: error constructors of literals and multi part
 queries no longer recurse forever

---
 multi_part_query.go   | 4 +++-
 raw_string_literal.go | 4 +++-
 string_literal.go     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/multi_part_query.go b/multi_part_query.go
index c04645d..c979889 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -26,7 +26,9 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 }
 
 func MultiPartQueryError(err error) MultiPartQuery {
-	return MultiPartQueryError(err)
+	return MultiPartQuery{
+		err: err,
+	}
 }
 
 func (m MultiPartQuery) GetError() error {
diff --git a/raw_string_literal.go b/raw_string_literal.go
index 682fad6..8ef74c6 100644
--- a/raw_string_literal.go
+++ b/raw_string_literal.go
@@ -19,7 +19,9 @@ func RawStringLiteralCreate(content string) RawStringLiteral {
 }
 
 func RawStringLiteralError(err error) RawStringLiteral {
-	return RawStringLiteralError(err)
+	return RawStringLiteral{
+		err: err,
+	}
 }
 
 func (s RawStringLiteral) GetError() error {
diff --git a/string_literal.go b/string_literal.go
index 1322ef6..7268682 100644
--- a/string_literal.go
+++ b/string_literal.go
@@ -32,7 +32,9 @@ func StringLiteralCreate(content string) StringLiteral {
 }
 
 func StringLiteralError(err error) StringLiteral {
-	return StringLiteralError(err)
+	return StringLiteral{
+		err: err,
+	}
 }
 
 func (s StringLiteral) GetError() error {
-- 
2.43.0


From eaa6e4018b6edc845a4ec7eecaecdffaadaab9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 14/15] fix: fragments keep their own copy of the argument
 slices they are made of

Constructors kept the slice the caller passed, so a caller that reused it
afterwards changed fragments and statements made earlier.
---
 arguments.go               | 2 +-
 case.go                    | 8 ++++----
 expression_list.go         | 2 +-
 has_label_condition.go     | 2 +-
 in_query_call_builder.go   | 2 +-
 list_literal.go            | 2 +-
 map_expression.go          | 2 +-
 name_space.go              | 2 +-
 node_labels.go             | 2 +-
 order.go                   | 2 +-
 pattern.go                 | 2 +-
 procedure_call.go          | 2 +-
 relationship_type.go       | 2 +-
 updating_clause_builder.go | 4 ++--
 visitable_list.go          | 2 +-
 yield_items.go             | 2 +-
 16 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/arguments.go b/arguments.go
index 637b22d..e065fb6 100644
--- a/arguments.go
+++ b/arguments.go
@@ -14,7 +14,7 @@ func ArgumentsCreate(expression []Expression) Arguments {
 		}
 	}
 	a := Arguments{
-		expressions: expression,
+		expressions: append(expression[:0:0], expression...),
 		notNil:      true,
 	}
 	a.key = getAddress(&a)
diff --git a/case.go b/case.go
index d4cd6ab..bb00d22 100644
--- a/case.go
+++ b/case.go
@@ -27,7 +27,7 @@ func SimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenThen) C
 	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
-		caseWhenThens:  caseWhenThens,
+		caseWhenThens:  append(caseWhenThens[:0:0], caseWhenThens...),
 		caseType:       SIMPLE_CASE,
 		notNil:         true,
 	}
@@ -62,7 +62,7 @@ func EndingSimpleCaseCreate(caseExpression Expression, caseWhenThens []CaseWhenT
 	}
 	simpleCase := Case{
 		caseExpression: caseExpression,
-		caseWhenThens:  caseWhenThens,
+		caseWhenThens:  append(caseWhenThens[:0:0], caseWhenThens...),
 		caseType:       ENDING_SIMPLE_CASE,
 		notNil:         true,
 	}
@@ -89,7 +89,7 @@ func GenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 		}
 	}
 	genericCase := Case{
-		caseWhenThens: caseWhenThens,
+		caseWhenThens: append(caseWhenThens[:0:0], caseWhenThens...),
 		notNil:        true,
 		caseType:      GENERIC_CASE,
 	}
@@ -105,7 +105,7 @@ func EndingGenericCaseCreate(caseWhenThens []CaseWhenThen) Case {
 		}
 	}
 	genericCase := Case{
-		caseWhenThens: caseWhenThens,
+		caseWhenThens: append(caseWhenThens[:0:0], caseWhenThens...),
 		notNil:        true,
 		caseType:      ENDING_GENERIC_CASE,
 	}
diff --git a/expression_list.go b/expression_list.go
index c9a7596..77bfcdc 100644
--- a/expression_list.go
+++ b/expression_list.go
@@ -15,7 +15,7 @@ func ExpressionListCreate(expressions []Expression) ExpressionList {
 		}
 	}
 	e := ExpressionList{
-		expressions: expressions,
+		expressions: append(expressions[:0:0], expressions...),
 		notNil:      true,
 	}
 	e.key = getAddress(&e)
diff --git a/has_label_condition.go b/has_label_condition.go
index ed13d8a..a0a8069 100644
--- a/has_label_condition.go
+++ b/has_label_condition.go
@@ -47,7 +47,7 @@ func HasLabelConditionCreate1(nodeName SymbolicName, labels []NodeLabel) HasLabe
 	}
 	hasLabelCondition := HasLabelCondition{
 		nodeName:   nodeName,
-		nodeLabels: labels,
+		nodeLabels: append(labels[:0:0], labels...),
 		notNil:     true,
 	}
 	hasLabelCondition.key = getAddress(&hasLabelCondition)
diff --git a/in_query_call_builder.go b/in_query_call_builder.go
index b4e56cb..762110e 100644
--- a/in_query_call_builder.go
+++ b/in_query_call_builder.go
@@ -77,7 +77,7 @@ func (i InQueryCallBuilder) Build() (Statement, error) {
 }
 
 func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
-	i.arguments = arguments
+	i.arguments = append(arguments[:0:0], arguments...)
 	return i
 }
 
diff --git a/list_literal.go b/list_literal.go
index 7ada298..2443076 100644
--- a/list_literal.go
+++ b/list_literal.go
@@ -17,7 +17,7 @@ func ListLiteralCreate(contents []Literal) ListLiteral {
 		}
 	}
 	list := ListLiteral{
-		content: contents,
+		content: append(contents[:0:0], contents...),
 	}
 	list.key = getAddress(&list)
 	list.ExpressionContainer = ExpressionWrap(list)
diff --git a/map_expression.go b/map_expression.go
index 2ea7be0..dbffed7 100644
--- a/map_expression.go
+++ b/map_expression.go
@@ -19,7 +19,7 @@ func MapExpressionCreate(newContents []Expression) MapExpression {
 		}
 	}
 	m := MapExpression{
-		expressions: newContents,
+		expressions: append(newContents[:0:0], newContents...),
 		notNil:      true,
 	}
 	m.key = getAddress(&m)
diff --git a/name_space.go b/name_space.go
index cca9d3b..4ed91ae 100644
--- a/name_space.go
+++ b/name_space.go
@@ -14,7 +14,7 @@ type Namespace struct {
 
 func NameSpaceCreate(content []string) Namespace {
 	n := Namespace{
-		content: content,
+		content: append(content[:0:0], content...),
 		notNil:  true,
 	}
 	n.key = getAddress(&n)
diff --git a/node_labels.go b/node_labels.go
index 3fc7494..18b6d29 100644
--- a/node_labels.go
+++ b/node_labels.go
@@ -14,7 +14,7 @@ func NodeLabelsCreate(values []NodeLabel) NodeLabels {
 		}
 	}
 	n := NodeLabels{
-		values: values,
+		values: append(values[:0:0], values...),
 		notNil: true,
 	}
 	n.key = getAddress(&n)
diff --git a/order.go b/order.go
index 19cc6ea..ab546c3 100644
--- a/order.go
+++ b/order.go
@@ -13,7 +13,7 @@ func OrderCreate(sortItems []SortItem) Order {
 			return Order{err: item.GetError()}
 		}
 	}
-	o := Order{sortItems: sortItems, notNil: true}
+	o := Order{sortItems: append(sortItems[:0:0], sortItems...), notNil: true}
 	o.key = getAddress(&o)
 	return o
 }
diff --git a/pattern.go b/pattern.go
index dcc9396..72696e1 100644
--- a/pattern.go
+++ b/pattern.go
@@ -14,7 +14,7 @@ func PatternCreate(patternElements []PatternElement) Pattern {
 		}
 	}
 	p := Pattern{
-		patternElements: patternElements,
+		patternElements: append(patternElements[:0:0], patternElements...),
 		notNil:          true,
 	}
 	p.key = getAddress(&p)
diff --git a/procedure_call.go b/procedure_call.go
index fe8fa7e..fff1368 100644
--- a/procedure_call.go
+++ b/procedure_call.go
@@ -226,7 +226,7 @@ func (s StandaloneCallBuilder) AsFunction() Expression {
 }
 
 func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
-	s.arguments = arguments
+	s.arguments = append(arguments[:0:0], arguments...)
 	return s
 }
 
diff --git a/relationship_type.go b/relationship_type.go
index 6fb36f2..16d710d 100644
--- a/relationship_type.go
+++ b/relationship_type.go
@@ -11,7 +11,7 @@ type RelationshipTypes struct {
 
 func RelationshipTypesCreate(types []string) RelationshipTypes {
 	r := RelationshipTypes{
-		values: types,
+		values: append(types[:0:0], types...),
 		notNil: true,
 	}
 	r.key = getAddress(&r)
diff --git a/updating_clause_builder.go b/updating_clause_builder.go
index c177ebb..77ea77a 100644
--- a/updating_clause_builder.go
+++ b/updating_clause_builder.go
@@ -14,7 +14,7 @@ type MergeBuilder struct {
 
 func MergeBuilderCreate(patternElements []PatternElement) MergeBuilder {
 	return MergeBuilder{
-		patternElements: patternElements,
+		patternElements: append(patternElements[:0:0], patternElements...),
 		mergeActions:    make([]MergeAction, 0),
 	}
 }
@@ -41,7 +41,7 @@ type CreateBuilder struct {
 }
 
 func CreateBuilderCreate(patternElements []PatternElement) CreateBuilder {
-	return CreateBuilder{patternElements: patternElements}
+	return CreateBuilder{patternElements: append(patternElements[:0:0], patternElements...)}
 }
 
 func (c CreateBuilder) build() UpdatingClause {
diff --git a/visitable_list.go b/visitable_list.go
index aa56204..ac56ed3 100644
--- a/visitable_list.go
+++ b/visitable_list.go
@@ -8,7 +8,7 @@ type FunctionArgumentList struct {
 }
 
 func FunctionArgumentListCreate(visitables ...Visitable) FunctionArgumentList {
-	argumentList := FunctionArgumentList{expressions: visitables}
+	argumentList := FunctionArgumentList{expressions: append(visitables[:0:0], visitables...)}
 	argumentList.key = getAddress(&argumentList)
 	return argumentList
 }
diff --git a/yield_items.go b/yield_items.go
index 026a586..f8f888c 100644
--- a/yield_items.go
+++ b/yield_items.go
@@ -19,7 +19,7 @@ func YieldItemsCreate(expressions []Expression) YieldItems {
 		}
 	}
 	yieldItem := YieldItems{
-		expressions: expressions,
+		expressions: append(expressions[:0:0], expressions...),
 		notNil:      true,
 	}
 	yieldItem.key = getAddress(&yieldItem)
-- 
2.43.0


From a3b8fc03c01494c03dfd11129b44fb0dd54a04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:38 +0000
Subject: [PATCH 15/15] fix: queries keep their own copy of the slices of
 clauses and parts they are made of

---
 multi_part_query.go  | 2 +-
 single_part_query.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/multi_part_query.go b/multi_part_query.go
index c979889..cc27f2f 100644
--- a/multi_part_query.go
+++ b/multi_part_query.go
@@ -18,7 +18,7 @@ func MultiPartQueryCreate(parts []MultiPartElement, remainder SinglePartQuery) M
 		return MultiPartQueryError(remainder.GetError())
 	}
 	m := MultiPartQuery{
-		parts:     parts,
+		parts:     append(parts[:0:0], parts...),
 		remainder: remainder,
 	}
 	m.key = getAddress(&m)
diff --git a/single_part_query.go b/single_part_query.go
index 256f6b3..3ace354 100644
--- a/single_part_query.go
+++ b/single_part_query.go
@@ -30,7 +30,7 @@ func SinglePartQueryCreate(clauses []Visitable, aReturn Return) SinglePartQuery
 		return SinglePartQueryError(aReturn.GetError())
 	}
 	singlePartQuery := SinglePartQuery{
-		precedingClauses: clauses,
+		precedingClauses: append(clauses[:0:0], clauses...),
 		aReturn:          aReturn,
 		notNil:           true,
 	}
-- 
2.43.0

