From ec7c7ee4fb79fe8102e76860c1a1edad466c1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 01/54] fix: feeding the sorter stops when the query is
 cancelled

---
 vfilter.go       | 6 +++++-
 vfilter_group.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index f64a583..baba103 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -673,7 +673,11 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy.OrderBy = nil
 
 			for row := range self_copy.Eval(ctx, scope) {
-				sorter_input_chan <- row
+				select {
+				case <-ctx.Done():
+					return
+				case sorter_input_chan <- row:
+				}
 			}
 		}()
 
diff --git a/vfilter_group.go b/vfilter_group.go
index 4912d39..f096444 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -114,7 +114,11 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		self_copy.OrderBy = nil
 
 		for row := range grouper_output_chan {
-			sorter_input_chan <- row
+			select {
+			case <-ctx.Done():
+				return
+			case sorter_input_chan <- row:
+			}
 		}
 	}()
 
-- 
2.43.0


From f5e3b89f0107a9fdd59b6835ac87c74690655fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 02/54] fix: foreach does not block handing work to its workers
 after cancellation

---
 plugins/foreach.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 6122d7a..dfa2af6 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -90,7 +90,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 				// child_scope is closed in the pool worker.
 
 				child_scope.AppendVars(row_item)
-				pool.RunScope(child_scope)
+				pool.RunScope(ctx, child_scope)
 			}
 		}
 	}()
@@ -118,8 +118,15 @@ type workerPool struct {
 	output_chan chan types.Row
 }
 
-func (self *workerPool) RunScope(scope types.Scope) {
-	self.ch <- scope
+// Hand the scope to a worker which will close it. If the query is
+// cancelled there may be no workers left to take it.
+func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	select {
+	case <-ctx.Done():
+		scope.Close()
+
+	case self.ch <- scope:
+	}
 }
 
 func (self *workerPool) Close() {
-- 
2.43.0


From 26b5c80c4dee81a5db5ddd0a39b6c09d125786d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 03/54] fix: GetResponseChannel does not block forever when its
 reader cancelled

---
 api.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 97e737b..37515ab 100644
--- a/api.go
+++ b/api.go
@@ -56,7 +56,16 @@ func GetResponseChannel(
 				result.Columns = scope.GetMembers(rows[0])
 			}
 
-			result_chan <- result
+			// Always deliver to a reader who is waiting, but do
+			// not block once the query is cancelled.
+			select {
+			case result_chan <- result:
+			default:
+				select {
+				case <-ctx.Done():
+				case result_chan <- result:
+				}
+			}
 
 			rows = []Row{}
 			part += 1
-- 
2.43.0


From 5bddda36658d27e0ab4ac13e8a36a833632968ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 04/54] fix: the truth test of a stored query stops it after
 its first row

---
 protocols/stored_query.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 3d7c933..16de0a6 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -60,7 +60,10 @@ func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a type
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
-		from_chan := stored_query.Eval(ctx, new_scope)
+		sub_ctx, cancel := context.WithCancel(ctx)
+		defer cancel()
+
+		from_chan := stored_query.Eval(sub_ctx, new_scope)
 		for {
 			// As soon as a single result is returned we
 			// can cancel the query.
-- 
2.43.0


From 26faf5144a49586a8943675a69d8779b38410393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 05/54] fix: GROUP BY closes the scope of each row after the
 row is materialized, not before

---
 grouper/grouper.go | 7 ++++---
 vfilter_group.go   | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/grouper/grouper.go b/grouper/grouper.go
index 26cbafb..52f1ad8 100644
--- a/grouper/grouper.go
+++ b/grouper/grouper.go
@@ -44,7 +44,7 @@ func (self *DefaultGrouper) Group(
 		// Append this row to a bin based on a unique
 		// value of the group by column.
 		for {
-			row, _, bin_idx, new_scope, err := actor.GetNextRow(ctx, new_scope)
+			row, _, bin_idx, row_scope, err := actor.GetNextRow(ctx, new_scope)
 			if err != nil {
 				break
 			}
@@ -66,12 +66,13 @@ func (self *DefaultGrouper) Group(
 
 			// The transform function receives its own unique context
 			// for the specific aggregate group.
-			new_scope.SetAggregatorCtx(aggregate_ctx.context)
+			row_scope.SetAggregatorCtx(aggregate_ctx.context)
 
 			// Update the row with the transformed columns. Note we
 			// must materialize these rows because evaluating the row
 			// may have side effects (e.g. for aggregate functions).
-			new_row := actor.MaterializeRow(ctx, row, new_scope)
+			new_row := actor.MaterializeRow(ctx, row, row_scope)
+			row_scope.Close()
 
 			aggregate_ctx.row = new_row
 		}
diff --git a/vfilter_group.go b/vfilter_group.go
index f096444..d47db81 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -67,9 +67,9 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 		gb_element := types.ToString(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
-		closer()
-
-		// Emit a single row.
+		// Emit a single row. The row still evaluates in the scope which
+		// the transform opened below new_scope - it is closed with
+		// new_scope by our caller.
 		return transformed_row, row, gb_element, new_scope, nil
 	}
 
-- 
2.43.0


From 7200e785edaa80c2d7e74b0c9792321a4606358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 06/54] fix: indexing a stored query cancels it before closing
 its scope

---
 protocols/stored_query.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 16de0a6..0d7c617 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -20,12 +20,13 @@ func (self _StoredQueryAssociative) Associative(
 	var result []types.Any
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
+		// Cancel the query before its scope is closed.
+		ctx, cancel := context.WithCancel(context.Background())
+		defer cancel()
+
 		from_chan := stored_query.Eval(ctx, new_scope)
 		i := int64(0)
 		int_b, b_is_int := utils.ToInt64(b)
-- 
2.43.0


From 837a093ea3b99743500f14a579543a72e0196d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 07/54] fix: calling a stored query keeps its scope open until
 its last row

---
 stored.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index 8ac8c51..6708500 100644
--- a/stored.go
+++ b/stored.go
@@ -98,7 +98,6 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	// functions inside the stored query start fresh.
 	sub_scope := scope.Copy()
 	sub_scope.SetAggregatorCtx(nil)
-	defer sub_scope.Close()
 
 	self.checkCallingArgs(sub_scope, args)
 
@@ -120,7 +119,25 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	}
 
 	sub_scope.AppendVars(vars)
-	return self.Eval(ctx, sub_scope)
+
+	output_chan := make(chan Row)
+	go func() {
+		defer close(output_chan)
+
+		// The query runs in this scope so it must remain open until
+		// all the rows are produced.
+		defer sub_scope.Close()
+
+		for row := range self.Eval(ctx, sub_scope) {
+			select {
+			case <-ctx.Done():
+				return
+
+			case output_chan <- row:
+			}
+		}
+	}()
+	return output_chan
 }
 
 func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
-- 
2.43.0


From 0a3cca7246b232231488f5e1f8c8ba9a551ca138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 08/54] fix: a stored query called with arguments runs in a
 scope which is open until its last row

---
 stored.go  | 33 +++++++++++++++++++++++++++++++--
 vfilter.go | 26 +++++++++++---------------
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/stored.go b/stored.go
index 6708500..44a49b6 100644
--- a/stored.go
+++ b/stored.go
@@ -286,9 +286,38 @@ func (self *StoredExpression) checkCallingArgs(scope types.Scope, args *orderedd
 type StoredQueryCallSite struct {
 	query StoredQuery
 	scope Scope
+	vars  *ordereddict.Dict
+
+	// The state of aggregate functions belongs to the call site.
+	aggregator_ctx types.AggregatorCtx
 }
 
 func (self *StoredQueryCallSite) Eval(ctx context.Context, scope Scope) <-chan Row {
-	// Use our embedded scope instead.
-	return self.query.Eval(ctx, self.scope)
+	output_chan := make(chan Row)
+
+	go func() {
+		defer close(output_chan)
+
+		// Use our embedded scope instead. The new scope remains open
+		// until all the rows are produced.
+		subscope := self.scope.Copy()
+		defer subscope.Close()
+
+		if subscope.CheckForOverflow() {
+			return
+		}
+
+		subscope.SetAggregatorCtx(self.aggregator_ctx)
+		subscope.AppendVars(self.vars)
+
+		for row := range self.query.Eval(ctx, subscope) {
+			select {
+			case <-ctx.Done():
+				return
+
+			case output_chan <- row:
+			}
+		}
+	}()
+	return output_chan
 }
diff --git a/vfilter.go b/vfilter.go
index baba103..8da852c 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -139,6 +139,7 @@ import (
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
 	errors "github.com/pkg/errors"
+	"www.velocidex.com/golang/vfilter/aggregators"
 	"www.velocidex.com/golang/vfilter/scope"
 	scope_module "www.velocidex.com/golang/vfilter/scope"
 	"www.velocidex.com/golang/vfilter/types"
@@ -1871,31 +1872,26 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 			// through.
 			if self.Parameters != nil {
 
-				// When running a stored query as a function we need
-				// to use a brand new scope with its own aggregator
-				// context to make sure that aggregate functions
-				// inside the stored query start fresh.
-				subscope := scope.Copy()
-				subscope.SetAggregatorCtx(nil)
-
-				defer subscope.Close()
-
-				if subscope.CheckForOverflow() {
+				if scope.CheckForOverflow() {
 					return &Null{}
 				}
 
 				vars := self.buildArgsFromParameters(ctx, scope)
 				types.MaybeApplyDefaultArgs(t, ctx, scope, vars)
 
-				subscope.AppendVars(vars)
-
 				scope.GetStats().IncFunctionsCalled()
 
-				// Wrap the query with the captured scope.
+				// Wrap the query with the captured scope. When
+				// running a stored query as a function we need to
+				// use its own aggregator context to make sure that
+				// aggregate functions inside the stored query start
+				// fresh.
 				return self.maybeNegate(ctx, scope, negated,
 					&StoredQueryCallSite{
-						query: t,
-						scope: subscope,
+						query:          t,
+						scope:          scope,
+						vars:           vars,
+						aggregator_ctx: aggregators.NewAggregatorCtx(),
 					})
 			}
 		}
-- 
2.43.0


From 8b2e8cd1f6c37092483277f06010fe516360dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 09/54] fix: a stored expression called as a plugin gets its
 own aggregates and keeps its scope open

---
 stored.go  |  1 +
 vfilter.go | 23 +++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index 44a49b6..e65902d 100644
--- a/stored.go
+++ b/stored.go
@@ -230,6 +230,7 @@ func (self *StoredExpression) Call(ctx context.Context,
 	self.checkCallingArgs(scope, args)
 
 	sub_scope := scope.Copy()
+	sub_scope.SetAggregatorCtx(nil)
 	defer sub_scope.Close()
 
 	vars := ordereddict.NewDict()
diff --git a/vfilter.go b/vfilter.go
index 8da852c..c62c516 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1275,13 +1275,32 @@ func (self *Plugin) evalSymbolWithArgs(
 	// Stored Expression e.g. LET Foo(X) = X + 1
 	case types.StoredExpression:
 		subscope := scope.Copy()
-		defer subscope.Close()
+		subscope.SetAggregatorCtx(nil)
 
 		args := buildArgsFromParameters(ctx, scope, self.Args)
 		types.MaybeApplyDefaultArgs(t, ctx, scope, args)
 
 		subscope.AppendVars(args)
-		return self.evalSymbol(ctx, scope, t.Reduce(ctx, subscope), name)
+		value := t.Reduce(ctx, subscope)
+
+		output_chan := make(chan Row)
+		go func() {
+			defer close(output_chan)
+
+			// The value may still refer to this scope so it must
+			// remain open until all the rows are produced.
+			defer subscope.Close()
+
+			for row := range self.evalSymbol(ctx, scope, value, name) {
+				select {
+				case <-ctx.Done():
+					return
+
+				case output_chan <- row:
+				}
+			}
+		}()
+		return output_chan
 
 		// A plugin like item
 	case PluginGeneratorInterface:
-- 
2.43.0


From 0399be0ab4bd4db6dd670747c8ed80e049a7ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 10/54] fix: restoring a scope from bad data does not leak a
 nested scope

---
 scope/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scope/marshal.go b/scope/marshal.go
index 5140435..dfd9ba1 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -60,14 +60,14 @@ func (self ScopeUnmarshaller) Unmarshal(
 	unmarshaller types.Unmarshaller,
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
 
-	new_scope := scope.Copy()
-
 	scope_items := &ScopeItems{}
 	err := json.Unmarshal(item.Data, &scope_items)
 	if err != nil {
 		return nil, err
 	}
 
+	new_scope := scope.Copy()
+
 	env := ordereddict.NewDict()
 	for k, v := range scope_items.Vars {
 		if utils.InString(&self.IgnoreVars, k) {
-- 
2.43.0


From a47fe1ed31e2b6e137a642962c528b072dc90919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 11/54] fix: the cached value of a lazy expression is guarded
 by a lock

---
 lazy.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lazy.go b/lazy.go
index 88da892..6c38211 100644
--- a/lazy.go
+++ b/lazy.go
@@ -125,6 +125,7 @@ func MaterializedLazyRow(ctx context.Context, row Row, scope types.Scope) *order
 // to evaluate the expression - not the scope at the point of
 // reference!
 type LazyExprImpl struct {
+	mu    sync.Mutex
 	Value types.Any // Used to cache
 	Expr  *_AndExpression
 	ctx   context.Context
@@ -170,9 +171,23 @@ func (self *LazyExprImpl) ReduceWithScope(
 }
 
 func (self *LazyExprImpl) Reduce(ctx context.Context) types.Any {
-	if self.Value != nil {
-		return self.Value
+	self.mu.Lock()
+	value := self.Value
+	self.mu.Unlock()
+
+	if value != nil {
+		return value
+	}
+
+	// Do not hold the lock while evaluating the expression.
+	value = self.ReduceWithScope(ctx, self.scope)
+
+	self.mu.Lock()
+	defer self.mu.Unlock()
+
+	// The first evaluation wins so everyone sees the same value.
+	if self.Value == nil {
+		self.Value = value
 	}
-	self.Value = self.ReduceWithScope(ctx, self.scope)
 	return self.Value
 }
-- 
2.43.0


From eead6ba40e9c4be54d6c648c6166ba66a3c04b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 12/54] fix: formatting a query does not write in the parsed
 query

---
 vfilter.go |  2 --
 visitor.go | 12 +++++-------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index c62c516..3de6a81 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -823,8 +823,6 @@ type _AliasedExpression struct {
 
 	As string `[ AS @Ident ]`
 
-	// The position of this column in the SELECT
-	pos                int
 	mu                 sync.Mutex
 	cache, column_name *string
 }
diff --git a/visitor.go b/visitor.go
index 1fb0077..147e648 100644
--- a/visitor.go
+++ b/visitor.go
@@ -347,7 +347,7 @@ func (self *Visitor) Visit(node interface{}) {
 		self.visitParameterList(t)
 
 	case *_AliasedExpression:
-		self.visitAliasedExpression(t)
+		self.visitAliasedExpression(t, 0)
 
 	case *Lambda:
 		self.visitLambda(t)
@@ -443,7 +443,9 @@ func (self *Visitor) isCurrentLineSpace() bool {
 }
 
 // Aliased expressions are elements after the SELECT separated by ,
-func (self *Visitor) visitAliasedExpression(node *_AliasedExpression) {
+// pos is the position of this column in the SELECT
+func (self *Visitor) visitAliasedExpression(
+	node *_AliasedExpression, pos int) {
 	node.mu.Lock()
 	defer node.mu.Unlock()
 
@@ -454,8 +456,6 @@ func (self *Visitor) visitAliasedExpression(node *_AliasedExpression) {
 		return
 	}
 
-	pos := node.pos
-
 	if node.Expression != nil {
 		// We have two choices here - fit the expression on the
 		// current line, or break lines
@@ -1003,9 +1003,7 @@ func (self *Visitor) visitSelectExpression(node *_SelectExpression) {
 	}
 
 	for idx, item := range node.Expressions {
-		item.pos = idx
-
-		self.Visit(item)
+		self.visitAliasedExpression(item, idx)
 		// No trailing , in the last element.
 		if idx < len(node.Expressions)-1 {
 			self.push(",", " ")
-- 
2.43.0


From a2dc55a4d1dc5415569d661d918a711e748e4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 13/54] fix: registries, sorter, grouper, logger and variables
 of a scope are read under their lock

---
 scope/dispatcher.go | 122 ++++++++++++++++++++++++++++++++------------
 scope/marshal.go    |   2 +-
 scope/scope.go      |  35 ++++++++-----
 3 files changed, 114 insertions(+), 45 deletions(-)

diff --git a/scope/dispatcher.go b/scope/dispatcher.go
index 5c9785d..ef3f604 100644
--- a/scope/dispatcher.go
+++ b/scope/dispatcher.go
@@ -98,6 +98,39 @@ func (self *protocolDispatcher) Explainer() types.Explainer {
 	return res
 }
 
+func (self *protocolDispatcher) GetSorter() types.Sorter {
+	self.Lock()
+	defer self.Unlock()
+
+	return self.Sorter
+}
+
+func (self *protocolDispatcher) GetGrouper() types.Grouper {
+	self.Lock()
+	defer self.Unlock()
+
+	return self.Grouper
+}
+
+func (self *protocolDispatcher) GetMaterializer() types.ScopeMaterializer {
+	self.Lock()
+	defer self.Unlock()
+
+	return self.Materializer
+}
+
+func (self *protocolDispatcher) SetLogger(logger *log.Logger) {
+	self.Lock()
+	self.Logger = logger
+	self.Unlock()
+}
+
+func (self *protocolDispatcher) SetTracer(logger *log.Logger) {
+	self.Lock()
+	self.Tracer = logger
+	self.Unlock()
+}
+
 func (self *protocolDispatcher) SetContextValue(name string, value types.Any) {
 	self.context.Store(name, value)
 }
@@ -124,25 +157,48 @@ func (self *protocolDispatcher) GetStats() *types.Stats {
 
 func (self *protocolDispatcher) Describe(scope *Scope, type_map *types.TypeMap) *types.ScopeInformation {
 	self.Lock()
-	defer self.Unlock()
+	plugins := self.copyPlugins()
+	functions := self.copyFunctions()
+	self.Unlock()
 
 	result := &types.ScopeInformation{}
-	for _, item := range self.plugins {
+	for _, item := range plugins {
 		result.Plugins = append(result.Plugins, item.Info(scope, type_map))
 	}
 
-	for _, func_item := range self.functions {
+	for _, func_item := range functions {
 		result.Functions = append(result.Functions, func_item.Info(scope, type_map))
 	}
 
 	return result
 }
 
+// Copy the function registry - should be called with the lock held.
+func (self *protocolDispatcher) copyFunctions() map[string]types.FunctionInterface {
+	function_copy := make(map[string]types.FunctionInterface)
+	for k, v := range self.functions {
+		function_copy[k] = v
+	}
+	return function_copy
+}
+
+// Copy the plugin registry - should be called with the lock held.
+func (self *protocolDispatcher) copyPlugins() map[string]types.PluginGeneratorInterface {
+	plugins_copy := make(map[string]types.PluginGeneratorInterface)
+	for k, v := range self.plugins {
+		plugins_copy[k] = v
+	}
+	return plugins_copy
+}
+
 func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
+	self.Lock()
+	defer self.Unlock()
+
 	res := &protocolDispatcher{
 		Stats:        types.Stats{},
-		functions:    self.functions,
-		plugins:      self.plugins,
+		functions:    self.copyFunctions(),
+		plugins:      self.copyPlugins(),
 		bool:         self.bool,
 		eq:           self.eq,
 		lt:           self.lt,
@@ -158,6 +214,7 @@ func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
 		Sorter:       self.Sorter,
 		Grouper:      self.Grouper,
 		Materializer: self.Materializer,
+		explainer:    self.explainer,
 		Logger:       self.Logger,
 		Tracer:       self.Tracer,
 	}
@@ -167,20 +224,13 @@ func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
 }
 
 func (self *protocolDispatcher) Copy() *protocolDispatcher {
-	function_copy := make(map[string]types.FunctionInterface)
-	for k, v := range self.functions {
-		function_copy[k] = v
-	}
-
-	plugins_copy := make(map[string]types.PluginGeneratorInterface)
-	for k, v := range self.plugins {
-		plugins_copy[k] = v
-	}
+	self.Lock()
+	defer self.Unlock()
 
 	res := &protocolDispatcher{
 		Stats:        types.Stats{},
-		functions:    function_copy,
-		plugins:      plugins_copy,
+		functions:    self.copyFunctions(),
+		plugins:      self.copyPlugins(),
 		bool:         self.bool.Copy(),
 		eq:           self.eq.Copy(),
 		lt:           self.lt.Copy(),
@@ -207,44 +257,48 @@ func (self *protocolDispatcher) Copy() *protocolDispatcher {
 
 func (self *protocolDispatcher) AppendPlugins(
 	scope *Scope, plugins ...types.PluginGeneratorInterface) {
-	self.Lock()
-	defer self.Unlock()
-
-	result := self
 	for _, plugin := range plugins {
+		// Call into the plugin without holding the lock.
 		info := plugin.Info(scope, nil)
-		result.plugins[info.Name] = plugin
+
+		self.Lock()
+		self.plugins[info.Name] = plugin
+		self.Unlock()
 	}
 }
 
 func (self *protocolDispatcher) AppendFunctions(
 	scope *Scope, functions ...types.FunctionInterface) {
-	self.Lock()
-	defer self.Unlock()
-
-	result := self
 	for _, function := range functions {
+		// Call into the function without holding the lock.
 		info := function.Info(scope, nil)
-		result.functions[info.Name] = function
+
+		self.Lock()
+		self.functions[info.Name] = function
+		self.Unlock()
 	}
 }
 
 func (self *protocolDispatcher) GetFunction(name string) (types.FunctionInterface, bool) {
+	self.Lock()
+	defer self.Unlock()
+
 	res, pres := self.functions[name]
 	return res, pres
 }
 
 func (self *protocolDispatcher) GetPlugin(name string) (types.PluginGeneratorInterface, bool) {
+	self.Lock()
+	defer self.Unlock()
+
 	res, pres := self.plugins[name]
 	return res, pres
 }
 
 func (self *protocolDispatcher) Info(scope *Scope,
 	type_map *types.TypeMap, name string) (*types.PluginInfo, bool) {
-	self.Lock()
-	defer self.Unlock()
-
-	if plugin, pres := self.plugins[name]; pres {
+	plugin, pres := self.GetPlugin(name)
+	if pres {
 		return plugin.Info(scope, type_map), true
 	}
 
@@ -263,9 +317,13 @@ func (self *protocolDispatcher) Log(format string, a ...interface{}) {
 }
 
 func (self *protocolDispatcher) Trace(format string, a ...interface{}) {
-	if self.Tracer != nil {
+	self.Lock()
+	tracer := self.Tracer
+	self.Unlock()
+
+	if tracer != nil {
 		msg := fmt.Sprintf(format, a...)
-		self.Tracer.Print(msg)
+		tracer.Print(msg)
 	}
 }
 
diff --git a/scope/marshal.go b/scope/marshal.go
index dfd9ba1..9e72a10 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -21,7 +21,7 @@ func (self *Scope) Marshal(scope types.Scope) (*types.MarshalItem, error) {
 		Vars: make(map[string]*types.MarshalItem),
 	}
 
-	for _, var_item := range self.vars {
+	for _, var_item := range self.getVars() {
 		for _, k := range self.GetMembers(var_item) {
 			// Skip these vars
 			if strings.HasPrefix(k, "$") ||
diff --git a/scope/scope.go b/scope/scope.go
index 919f183..4a8b6b3 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -113,7 +113,7 @@ type Scope struct {
 }
 
 func (self *Scope) SetLogger(logger *log.Logger) {
-	self.dispatcher.Logger = logger
+	self.dispatcher.SetLogger(logger)
 }
 
 func (self *Scope) SetAggregatorCtx(ctx types.AggregatorCtx) {
@@ -143,7 +143,7 @@ func (self *Scope) GetAggregatorCtx() types.AggregatorCtx {
 }
 
 func (self *Scope) SetTracer(logger *log.Logger) {
-	self.dispatcher.Tracer = logger
+	self.dispatcher.SetTracer(logger)
 }
 
 func (self *Scope) GetLogger() *log.Logger {
@@ -196,12 +196,17 @@ func (self *Scope) SetContext(name string, value types.Any) {
 	self.dispatcher.SetContextValue(name, value)
 }
 
-func (self *Scope) PrintVars() string {
+// Snapshot the vars so callbacks into them run without the lock.
+func (self *Scope) getVars() []types.Row {
 	self.Lock()
 	defer self.Unlock()
 
+	return self.vars[:]
+}
+
+func (self *Scope) PrintVars() string {
 	my_vars := []string{}
-	for _, vars := range self.vars {
+	for _, vars := range self.getVars() {
 		keys := []string{}
 		for _, k := range self.GetMembers(vars) {
 			keys = append(keys, k)
@@ -243,17 +248,23 @@ func (self *Scope) SetThrottler(t types.Throttler) {
 }
 
 func (self *Scope) ChargeOp() {
-	if self.throttler != nil {
-		self.throttler.ChargeOp()
+	self.Lock()
+	throttler := self.throttler
+	self.Unlock()
+
+	// Charging may block so do not hold the lock.
+	if throttler != nil {
+		throttler.ChargeOp()
 	}
 }
 
 func (self *Scope) CheckForOverflow() bool {
 	self.Lock()
 	vars := self.vars[:]
+	stack_depth := self.stack_depth
 	self.Unlock()
 
-	if self.stack_depth < 1000 {
+	if stack_depth < 1000 {
 		return false
 	}
 
@@ -330,7 +341,7 @@ func (self *Scope) Iterate(ctx context.Context, a types.Any) <-chan types.Row {
 
 func (self *Scope) Materialize(ctx context.Context,
 	name string, query types.StoredQuery) types.StoredQuery {
-	return self.dispatcher.Materializer.Materialize(ctx, self, name, query)
+	return self.dispatcher.GetMaterializer().Materialize(ctx, self, name, query)
 }
 
 func (self *Scope) StackDepth() int {
@@ -452,12 +463,12 @@ func (self *Scope) Trace(format string, a ...interface{}) {
 func (self *Scope) Sort(
 	ctx context.Context, scope types.Scope, input <-chan types.Row,
 	key string, desc bool) <-chan types.Row {
-	return self.dispatcher.Sorter.Sort(ctx, scope, input, key, desc)
+	return self.dispatcher.GetSorter().Sort(ctx, scope, input, key, desc)
 }
 
 func (self *Scope) Group(
 	ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
-	return self.dispatcher.Grouper.Group(ctx, scope, actor)
+	return self.dispatcher.GetGrouper().Group(ctx, scope, actor)
 }
 
 // Adding a destructor to the current scope will call it when any
@@ -693,9 +704,9 @@ func (self _ScopeAssociative) GetMembers(
 	seen := make(map[string]bool)
 	var result []string
 
-	a_scope, ok := a.(Scope)
+	a_scope, ok := a.(*Scope)
 	if ok {
-		for _, vars := range scope.vars {
+		for _, vars := range a_scope.getVars() {
 			for _, member := range a_scope.GetMembers(vars) {
 				seen[member] = true
 			}
-- 
2.43.0


From e18a02684eb34fd60d8750891a599aef849b67b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 14/54] fix: a parsed value is not copied with its lock,
 throttler and argument parser registries are guarded

---
 arg_parser/parser.go | 10 +++++++++-
 throttle.go          |  5 +++++
 vfilter.go           |  8 ++++----
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 801b144..8d511af 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -427,7 +427,7 @@ func BuildParser(v reflect.Value) (*Parser, error) {
 		}
 
 		// Find a specialized parser for this type.
-		parser, pres := typeDispatcher[field_types_value.Type]
+		parser, pres := getTypeParser(field_types_value.Type)
 		if pres {
 			field_parser.Parser = parser
 			continue
@@ -499,6 +499,14 @@ func initDefaultTypeDispatcher() map[reflect.Type]ParserDipatcher {
 	return result
 }
 
+func getTypeParser(t reflect.Type) (ParserDipatcher, bool) {
+	parser_mu.Lock()
+	defer parser_mu.Unlock()
+
+	parser, pres := typeDispatcher[t]
+	return parser, pres
+}
+
 func RegisterParser(exemplar types.Any, parser ParserDipatcher) {
 	parser_mu.Lock()
 	defer parser_mu.Unlock()
diff --git a/throttle.go b/throttle.go
index 1ef6ef2..1e7e6a5 100644
--- a/throttle.go
+++ b/throttle.go
@@ -1,12 +1,14 @@
 package vfilter
 
 import (
+	"sync"
 	"time"
 
 	"www.velocidex.com/golang/vfilter/types"
 )
 
 type TimeThrottler struct {
+	mu      sync.Mutex
 	ticker  *time.Ticker
 	done    chan bool
 	running bool
@@ -20,6 +22,9 @@ func (self *TimeThrottler) ChargeOp() {
 }
 
 func (self *TimeThrottler) Close() {
+	self.mu.Lock()
+	defer self.mu.Unlock()
+
 	if self.running {
 		self.ticker.Stop()
 		self.running = false
diff --git a/vfilter.go b/vfilter.go
index 3de6a81..4953f1c 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1535,7 +1535,7 @@ func (self *_OrExpression) Reduce(ctx context.Context, scope types.Scope) Any {
 	return last
 }
 
-func (self _AdditionExpression) IsAggregate(scope types.Scope) bool {
+func (self *_AdditionExpression) IsAggregate(scope types.Scope) bool {
 	if self.Left != nil && self.Left.IsAggregate(scope) {
 		return true
 	}
@@ -1563,7 +1563,7 @@ func (self *_AdditionExpression) Reduce(ctx context.Context, scope types.Scope)
 	return result
 }
 
-func (self _ConditionOperand) IsAggregate(scope types.Scope) bool {
+func (self *_ConditionOperand) IsAggregate(scope types.Scope) bool {
 	if self.Not != nil && self.Not.IsAggregate(scope) {
 		return true
 	}
@@ -1620,7 +1620,7 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 	return result
 }
 
-func (self _MultiplicationExpression) IsAggregate(scope types.Scope) bool {
+func (self *_MultiplicationExpression) IsAggregate(scope types.Scope) bool {
 	if self.Left != nil && self.Left.IsAggregate(scope) {
 		return true
 	}
@@ -1648,7 +1648,7 @@ func (self *_MultiplicationExpression) Reduce(ctx context.Context, scope types.S
 	return result
 }
 
-func (self _Value) IsAggregate(scope types.Scope) bool {
+func (self *_Value) IsAggregate(scope types.Scope) bool {
 	if self.SymbolRef != nil && self.SymbolRef.IsAggregate(scope) {
 		return true
 	}
-- 
2.43.0


From 22717120278dc8341fbfa4e0c02dde037d57cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:40 +0000
Subject: [PATCH 15/54] fix: a negated symbol is negated each time it is
 evaluated, not only the first time

---
 vfilter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 4953f1c..ccc9422 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1758,12 +1758,14 @@ func (self *_SymbolRef) IsAggregate(scope types.Scope) bool {
 
 func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated, pres bool) {
 
+	// The symbol is parsed with its sign.
+	negated = strings.HasPrefix(self.Symbol, "-")
+
 	self.mu.Lock()
 	components := self.split_symbol
 	if components == nil {
 		components = utils.SplitIdent(self.Symbol)
-		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			negated = true
+		if negated && len(components) > 0 {
 			components[0] = strings.TrimPrefix(components[0], "-")
 		}
 		self.split_symbol = components
-- 
2.43.0


From 75ad37c7ea1972f348a93fc4448fb9fea0eb1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:42 +0000
Subject: [PATCH 16/54] fix: the <> operator, and any spelling of IN in a
 lambda, are evaluated

---
 lambda.go  | 3 ++-
 vfilter.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index fb18e22..3bedbe7 100644
--- a/lambda.go
+++ b/lambda.go
@@ -11,7 +11,8 @@ import (
 var (
 	lambdaParser = participle.MustBuild[Lambda](
 		participle.Lexer(vqlLexer),
-		participle.Elide("Comment", "MLineComment", "VQLComment"))
+		participle.Elide("Comment", "MLineComment", "VQLComment"),
+		participle.Upper("IN", "DESC"))
 )
 
 type Lambda struct {
diff --git a/vfilter.go b/vfilter.go
index ccc9422..8cf68b5 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1603,7 +1603,7 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 		result = scope.Lt(lhs, rhs)
 	case "=":
 		result = scope.Eq(lhs, rhs)
-	case "!=":
+	case "!=", "<>":
 		result = !scope.Eq(lhs, rhs)
 	case "<=":
 		result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
-- 
2.43.0


From f2b0883c1ff21681e7296762a7cbf208f98ed555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:45 +0000
Subject: [PATCH 17/54] fix: refuse repeated comparisons, array items and
 indexes, all but the last were dropped

---
 vfilter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 8cf68b5..d097ccd 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -935,9 +935,9 @@ type _MemberExpression struct {
 }
 
 type _OpMembershipTerm struct {
-	Index    *_Value ` ( "[" {@@} `
-	Range    *string ` { @":" }`
-	RangeEnd *_Value ` { @@ } "]" |`
+	Index    *_Value ` ( "[" [ @@ ] `
+	Range    *string ` [ @":" ]`
+	RangeEnd *_Value ` [ @@ ] "]" |`
 	Term     *string `  "." @Ident )`
 }
 
@@ -963,7 +963,7 @@ type _OpArrayTerm struct {
 	Comments []*_Comment     ` [ @@ ] `
 	Operator string          `@","`
 	Comment2 []*_Comment     ` [ @@ ] `
-	Term     *_AndExpression `{ @@ }`
+	Term     *_AndExpression `[ @@ ]`
 }
 
 // Expressions separated by AND.
@@ -999,7 +999,7 @@ type _ConditionOperand struct {
 	Comments []*_Comment          ` [ @@ ] `
 	Not      *_ConditionOperand   `(NOT @@ | `
 	Left     *_AdditionExpression `@@)`
-	Right    *_OpComparison       `{ @@ }`
+	Right    *_OpComparison       `[ @@ ]`
 }
 
 type _OpComparison struct {
-- 
2.43.0


From e6340e91127699969331eb36ec4851b30df12afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 18/54] fix: converting a nil pointer to a number or string
 does not crash

---
 utils/utils.go | 65 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index c3d8d4d..a381f4b 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -74,6 +74,9 @@ func ToString(x interface{}) (string, bool) {
 	case string:
 		return t, true
 	case *string:
+		if t == nil {
+			return "", false
+		}
 		return *t, true
 	case []byte:
 		return string(t), true
@@ -82,6 +85,26 @@ func ToString(x interface{}) (string, bool) {
 	}
 }
 
+type number interface {
+	~int | ~int8 | ~int16 | ~int32 | ~int64 |
+		~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 |
+		~float32 | ~float64
+}
+
+func derefFloat[T number](x *T) (float64, bool) {
+	if x == nil {
+		return 0, false
+	}
+	return float64(*x), true
+}
+
+func derefInt64[T number](x *T) (int64, bool) {
+	if x == nil {
+		return 0, false
+	}
+	return int64(*x), true
+}
+
 func ToFloat(x interface{}) (float64, bool) {
 	switch t := x.(type) {
 	case bool:
@@ -115,29 +138,29 @@ func ToFloat(x interface{}) (float64, bool) {
 	case int64:
 		return float64(t), true
 	case *float64:
-		return *t, true
+		return derefFloat(t)
 	case *int:
-		return float64(*t), true
+		return derefFloat(t)
 	case *uint:
-		return float64(*t), true
+		return derefFloat(t)
 
 	case *int8:
-		return float64(*t), true
+		return derefFloat(t)
 	case *int16:
-		return float64(*t), true
+		return derefFloat(t)
 	case *uint8:
-		return float64(*t), true
+		return derefFloat(t)
 	case *uint16:
-		return float64(*t), true
+		return derefFloat(t)
 
 	case *uint32:
-		return float64(*t), true
+		return derefFloat(t)
 	case *int32:
-		return float64(*t), true
+		return derefFloat(t)
 	case *uint64:
-		return float64(*t), true
+		return derefFloat(t)
 	case *int64:
-		return float64(*t), true
+		return derefFloat(t)
 
 	default:
 		return 0, false
@@ -185,25 +208,25 @@ func ToInt64(x interface{}) (int64, bool) {
 		return int64(t), true
 
 	case *int:
-		return int64(*t), true
+		return derefInt64(t)
 	case *uint8:
-		return int64(*t), true
+		return derefInt64(t)
 	case *int8:
-		return int64(*t), true
+		return derefInt64(t)
 	case *uint16:
-		return int64(*t), true
+		return derefInt64(t)
 	case *int16:
-		return int64(*t), true
+		return derefInt64(t)
 	case *uint32:
-		return int64(*t), true
+		return derefInt64(t)
 	case *int32:
-		return int64(*t), true
+		return derefInt64(t)
 	case *uint64:
-		return int64(*t), true
+		return derefInt64(t)
 	case *int64:
-		return int64(*t), true
+		return derefInt64(t)
 	case *float64:
-		return int64(*t), true
+		return derefInt64(t)
 
 	default:
 		return 0, false
-- 
2.43.0


From 7be1fad4ecb2597da3f99a48f1b926270d0712f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 19/54] fix: operators accept uint and float32 like the numbers
 of other widths

---
 protocols/protocol_add.go  |  9 +++++----
 protocols/protocol_bool.go |  4 ++++
 protocols/protocol_eq.go   |  7 ++++---
 protocols/protocol_gt.go   | 16 +++++++++-------
 protocols/protocol_lt.go   | 18 ++++++++++--------
 protocols/protocol_mul.go  | 10 ++++++----
 protocols/protocol_sub.go  | 10 ++++++----
 utils/utils.go             | 14 +++++++++++++-
 8 files changed, 57 insertions(+), 31 deletions(-)

diff --git a/protocols/protocol_add.go b/protocols/protocol_add.go
index 1936dab..062ecaa 100644
--- a/protocols/protocol_add.go
+++ b/protocols/protocol_add.go
@@ -34,7 +34,7 @@ func (self AddDispatcher) Copy() AddDispatcher {
 // We don't handle any other additions with ints here.
 func intAdd(lhs int64, b types.Any) (types.Any, bool) {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs + rhs, true
 
@@ -70,7 +70,7 @@ func (self AddDispatcher) Add(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(t)
 		if ok {
 			res, ok := intAdd(lhs, b)
@@ -79,10 +79,11 @@ func (self AddDispatcher) Add(scope types.Scope, a types.Any, b types.Any) types
 			}
 		}
 
-	case float64:
+	case float64, float32:
+		a_float, _ := utils.ToFloat(t)
 		b_float, ok := utils.ToFloat(b)
 		if ok {
-			return t + b_float
+			return a_float + b_float
 		}
 	}
 
diff --git a/protocols/protocol_bool.go b/protocols/protocol_bool.go
index e621c7e..6c88d63 100644
--- a/protocols/protocol_bool.go
+++ b/protocols/protocol_bool.go
@@ -36,6 +36,8 @@ func (self BoolDispatcher) Bool(ctx context.Context, scope types.Scope, a types.
 		return t > 0
 	case int64:
 		return t > 0
+	case uint:
+		return t > 0
 	case uint8:
 		return t > 0
 	case uint16:
@@ -46,6 +48,8 @@ func (self BoolDispatcher) Bool(ctx context.Context, scope types.Scope, a types.
 		return t > 0
 	case float64:
 		return t > 0
+	case float32:
+		return t > 0
 
 	case string:
 		return len(t) > 0
diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index c1b2625..8729a9e 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -37,7 +37,7 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 			return t == rhs
 		}
 
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(a)
 		if ok {
 			return intEq(lhs, b)
@@ -49,10 +49,11 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 			return t == rhs
 		}
 
-	case float64:
+	case float64, float32:
+		lhs, _ := utils.ToFloat(t)
 		rhs, ok := utils.ToFloat(b)
 		if ok {
-			return t == rhs
+			return lhs == rhs
 		}
 
 	case time.Time:
diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 3842304..8837ce9 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -24,7 +24,7 @@ func (self GtDispatcher) Copy() GtDispatcher {
 
 func intGt(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs > rhs
 	case float64, float32:
@@ -58,7 +58,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -74,10 +74,11 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 			return intGt(lhs, b)
 		}
 
-	case float64:
+	case float64, float32:
+		lhs, _ := utils.ToFloat(t)
 		rhs, ok := utils.ToFloat(b)
 		if ok {
-			return t > rhs
+			return lhs > rhs
 		}
 
 	case time.Time:
@@ -104,7 +105,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, ok := utils.ToInt64(t)
 		if ok {
 			if intLt(rhs, a) {
@@ -116,10 +117,11 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 			return true
 		}
 
-	case float64:
+	case float64, float32:
+		rhs, _ := utils.ToFloat(t)
 		lhs, ok := utils.ToFloat(a)
 		if ok {
-			return lhs > t
+			return lhs > rhs
 		}
 
 	case time.Time:
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index 5123161..c38a17d 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -32,7 +32,7 @@ func (self LtDispatcher) Copy() LtDispatcher {
 
 func intLt(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs < rhs
 	case float64, float32:
@@ -44,7 +44,7 @@ func intLt(lhs int64, b types.Any) bool {
 
 func intEq(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs == rhs
 	case float64, float32:
@@ -73,7 +73,7 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -88,10 +88,11 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 			return intLt(lhs, b)
 		}
 
-	case float64:
+	case float64, float32:
+		lhs, _ := utils.ToFloat(t)
 		rhs, ok := utils.ToFloat(b)
 		if ok {
-			return t < rhs
+			return lhs < rhs
 		}
 
 	case time.Time:
@@ -112,7 +113,7 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 		return false
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, ok := utils.ToInt64(t)
 		if ok {
 			if intGt(rhs, a) {
@@ -124,10 +125,11 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 			return true
 		}
 
-	case float64:
+	case float64, float32:
+		rhs, _ := utils.ToFloat(t)
 		lhs, ok := utils.ToFloat(a)
 		if ok {
-			return lhs < t
+			return lhs < rhs
 		}
 
 	case time.Time:
diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index be4d3f1..27786eb 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -43,10 +43,11 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 			return strings.Repeat(t, int(b_int))
 		}
 
-	case float64:
+	case float64, float32:
+		a_float, _ := utils.ToFloat(t)
 		b_float, ok := utils.ToFloat(b)
 		if ok {
-			return t * b_float
+			return a_float * b_float
 		}
 	}
 
@@ -54,10 +55,11 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case float64:
+	case float64, float32:
+		b_float, _ := utils.ToFloat(t)
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			return t * a_float
+			return b_float * a_float
 		}
 	}
 
diff --git a/protocols/protocol_sub.go b/protocols/protocol_sub.go
index 221fd27..987727f 100644
--- a/protocols/protocol_sub.go
+++ b/protocols/protocol_sub.go
@@ -28,10 +28,11 @@ func (self SubDispatcher) Sub(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case float64:
+	case float64, float32:
+		a_float, _ := utils.ToFloat(t)
 		b_float, ok := utils.ToFloat(b)
 		if ok {
-			return t - b_float
+			return a_float - b_float
 		}
 	}
 
@@ -39,10 +40,11 @@ func (self SubDispatcher) Sub(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case float64:
+	case float64, float32:
+		b_float, _ := utils.ToFloat(t)
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			return a_float - t
+			return a_float - b_float
 		}
 	}
 
diff --git a/utils/utils.go b/utils/utils.go
index a381f4b..d82916d 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -115,6 +115,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		}
 	case float64:
 		return t, true
+	case float32:
+		return float64(t), true
 	case int:
 		return float64(t), true
 	case uint:
@@ -139,6 +141,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		return float64(t), true
 	case *float64:
 		return derefFloat(t)
+	case *float32:
+		return derefFloat(t)
 	case *int:
 		return derefFloat(t)
 	case *uint:
@@ -171,7 +175,7 @@ func ToFloat(x interface{}) (float64, bool) {
 func IsInt(x interface{}) bool {
 	switch x.(type) {
 	case bool, int, int8, int16, int32, int64,
-		uint8, uint16, uint32, uint64:
+		uint, uint8, uint16, uint32, uint64:
 		return true
 	}
 
@@ -188,6 +192,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		}
 	case int:
 		return int64(t), true
+	case uint:
+		return int64(t), true
 	case uint8:
 		return int64(t), true
 	case int8:
@@ -206,9 +212,13 @@ func ToInt64(x interface{}) (int64, bool) {
 		return t, true
 	case float64:
 		return int64(t), true
+	case float32:
+		return int64(t), true
 
 	case *int:
 		return derefInt64(t)
+	case *uint:
+		return derefInt64(t)
 	case *uint8:
 		return derefInt64(t)
 	case *int8:
@@ -227,6 +237,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		return derefInt64(t)
 	case *float64:
 		return derefInt64(t)
+	case *float32:
+		return derefInt64(t)
 
 	default:
 		return 0, false
-- 
2.43.0


From e43b20ea523e8f392f5fa6dfde5121d085769313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 20/54] fix: dividing by a float zero gives NULL, dividing zero
 by a float does not

---
 protocols/protocol_div.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_div.go b/protocols/protocol_div.go
index 71c493c..9701164 100644
--- a/protocols/protocol_div.go
+++ b/protocols/protocol_div.go
@@ -44,7 +44,7 @@ func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types
 	case float64:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			if a_float == 0 {
+			if t == 0 {
 				return &types.Null{}
 			}
 			return a_float / t
-- 
2.43.0


From a2af3dfb6478857ba1443a90fc15e3e22e25c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 21/54] fix: multiplying a string by a negative or huge number
 does not crash

---
 protocols/protocol_mul.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index 27786eb..e20104c 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -33,11 +33,16 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 	case string:
 		b_int, ok := utils.ToInt64(b)
 		if ok {
+			if len(t) == 0 {
+				return t
+			}
+
 			// Estimate how much memory we will use when duplicating the string
-			memory := uint64(len(t)) * uint64(b_int)
-			if memory > 100000000 { // 100mb
-				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v = %v",
-					len(t), int(b_int), memory)
+			// (dividing so that the estimate can not overflow).
+			max_count := 100000000 / int64(len(t)) // 100mb
+			if b_int < 0 || b_int > max_count {
+				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v",
+					len(t), b_int)
 				return &types.Null{}
 			}
 			return strings.Repeat(t, int(b_int))
-- 
2.43.0


From 8a6d9f990902bab848e7e548864799958e825115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 22/54] fix: lazy operands are reduced before /, =~, [] and .
 inspect them

---
 protocols/protocol_associative.go |  5 +++++
 protocols/protocol_div.go         |  1 +
 protocols/protocol_regex.go       |  1 +
 vfilter.go                        | 13 +++++++++++--
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 9ee988d..b9cef86 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -46,6 +46,9 @@ func (self *AssociativeDispatcher) Associative(
 	scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
 	ctx := context.Background()
 
+	a = maybeReduce(a)
+	b = maybeReduce(b)
+
 	if types.IsNil(a) {
 		return types.Null{}, true
 	}
@@ -121,6 +124,8 @@ func (self *AssociativeDispatcher) Associative(
 func (self *AssociativeDispatcher) GetMembers(
 	scope types.Scope, a types.Any) []string {
 
+	a = maybeReduce(a)
+
 	switch t := a.(type) {
 	case types.Scope:
 		return []string{}
diff --git a/protocols/protocol_div.go b/protocols/protocol_div.go
index 9701164..69dcd84 100644
--- a/protocols/protocol_div.go
+++ b/protocols/protocol_div.go
@@ -22,6 +22,7 @@ func (self DivDispatcher) Copy() DivDispatcher {
 
 func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types.Any {
 	a = maybeReduce(a)
+	b = maybeReduce(b)
 
 	switch t := a.(type) {
 	case types.Null, *types.Null, nil:
diff --git a/protocols/protocol_regex.go b/protocols/protocol_regex.go
index 49524fd..cb24930 100644
--- a/protocols/protocol_regex.go
+++ b/protocols/protocol_regex.go
@@ -23,6 +23,7 @@ func (self RegexDispatcher) Copy() RegexDispatcher {
 }
 
 func (self RegexDispatcher) Match(scope types.Scope, pattern types.Any, target types.Any) bool {
+	pattern = maybeReduce(pattern)
 	target = maybeReduce(target)
 
 	pattern_str, ok := pattern.(string)
diff --git a/vfilter.go b/vfilter.go
index d097ccd..28a138f 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1385,7 +1385,7 @@ func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) An
 		if term.Range != nil {
 			var range_start *int64
 			if term.Index != nil {
-				start, ok := utils.ToInt64(term.Index.Reduce(ctx, scope))
+				start, ok := toInt64(ctx, term.Index.Reduce(ctx, scope))
 				if !ok {
 					return types.Null{}
 				}
@@ -1394,7 +1394,7 @@ func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) An
 
 			var range_end *int64
 			if term.RangeEnd != nil {
-				end, ok := utils.ToInt64(term.RangeEnd.Reduce(ctx, scope))
+				end, ok := toInt64(ctx, term.RangeEnd.Reduce(ctx, scope))
 				if !ok {
 					return types.Null{}
 				}
@@ -1419,6 +1419,15 @@ func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) An
 	return lhs
 }
 
+// Convert a value which may be lazy to an int.
+func toInt64(ctx context.Context, value Any) (int64, bool) {
+	lazy_expr, ok := value.(types.LazyExpr)
+	if ok {
+		value = lazy_expr.Reduce(ctx)
+	}
+	return utils.ToInt64(value)
+}
+
 func (self *_CommaExpression) IsAggregate(scope types.Scope) bool {
 	if self.Left != nil && self.Left.IsAggregate(scope) {
 		return true
-- 
2.43.0


From 161d7d467c54c32c7ca14845955e9bc67b8a8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 23/54] fix: comparing a whole number with a custom type
 consults its protocol

Any whole number operand made <, > and = answer before the registered
implementations were asked, with both "abc" < 5 and "abc" > 5 true.
---
 protocols/protocol_eq.go |  2 +-
 protocols/protocol_gt.go |  4 ++--
 protocols/protocol_lt.go | 14 ++++++++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index 8729a9e..b2738d6 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -39,7 +39,7 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 
 	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(a)
-		if ok {
+		if ok && isNumber(b) {
 			return intEq(lhs, b)
 		}
 
diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 8837ce9..36b46d3 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -70,7 +70,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(b) {
 			return intGt(lhs, b)
 		}
 
@@ -107,7 +107,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		// If it is integer like, coerce to int.
 	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(a) {
 			if intLt(rhs, a) {
 				return false
 			}
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index c38a17d..998d7c5 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -54,6 +54,16 @@ func intEq(lhs int64, b types.Any) bool {
 	return false
 }
 
+// Only numbers are compared with a number here - anything else is left
+// to the protocol implementations.
+func isNumber(a types.Any) bool {
+	switch a.(type) {
+	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float64, float32:
+		return true
+	}
+	return false
+}
+
 func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 	a = maybeReduce(a)
 	b = maybeReduce(b)
@@ -84,7 +94,7 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 			}
 		}
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(b) {
 			return intLt(lhs, b)
 		}
 
@@ -115,7 +125,7 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 		// If it is integer like, coerce to int.
 	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(a) {
 			if intGt(rhs, a) {
 				return false
 			}
-- 
2.43.0


From d291b2b02a2b03e948bc11e9d29e3ebd723848c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 24/54] fix: if() never evaluates the else branch when the
 condition is true

A then value which reduces to another lazy expression fell through to
the else branch.
---
 functions/if.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/functions/if.go b/functions/if.go
index e96510e..51b82ce 100644
--- a/functions/if.go
+++ b/functions/if.go
@@ -52,11 +52,7 @@ func (self _IfFunction) Call(
 			return t
 
 		case types.LazyExpr:
-			exp := t.ReduceWithScope(ctx, scope)
-			s, ok := exp.(types.StoredQuery)
-			if ok {
-				return s
-			}
+			return t.ReduceWithScope(ctx, scope)
 
 		default:
 			return t
-- 
2.43.0


From 65b5023748385fbfae5257b9eb4048fe8425387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 25/54] fix: a lazy value which is nil is evaluated only once

---
 lazy.go                   | 8 +++++---
 protocols/lazy_wrapper.go | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/lazy.go b/lazy.go
index 6c38211..82f04a5 100644
--- a/lazy.go
+++ b/lazy.go
@@ -127,6 +127,7 @@ func MaterializedLazyRow(ctx context.Context, row Row, scope types.Scope) *order
 type LazyExprImpl struct {
 	mu    sync.Mutex
 	Value types.Any // Used to cache
+	done  bool      // The value is cached, even if it is nil.
 	Expr  *_AndExpression
 	ctx   context.Context
 	scope types.Scope
@@ -172,10 +173,10 @@ func (self *LazyExprImpl) ReduceWithScope(
 
 func (self *LazyExprImpl) Reduce(ctx context.Context) types.Any {
 	self.mu.Lock()
-	value := self.Value
+	value, done := self.Value, self.done
 	self.mu.Unlock()
 
-	if value != nil {
+	if done {
 		return value
 	}
 
@@ -186,8 +187,9 @@ func (self *LazyExprImpl) Reduce(ctx context.Context) types.Any {
 	defer self.mu.Unlock()
 
 	// The first evaluation wins so everyone sees the same value.
-	if self.Value == nil {
+	if !self.done {
 		self.Value = value
+		self.done = true
 	}
 	return self.Value
 }
diff --git a/protocols/lazy_wrapper.go b/protocols/lazy_wrapper.go
index 59f2c1b..e6b5400 100644
--- a/protocols/lazy_wrapper.go
+++ b/protocols/lazy_wrapper.go
@@ -112,6 +112,7 @@ type LazyFunctionWrapper struct {
 	cb func() types.Any
 
 	cached types.Any
+	done   bool // The value is cached, even if it is nil.
 }
 
 func (self *LazyFunctionWrapper) MarshalJSON() ([]byte, error) {
@@ -122,8 +123,9 @@ func (self *LazyFunctionWrapper) Reduce(ctx context.Context) types.Any {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
-	if self.cached == nil {
+	if !self.done {
 		self.cached = self.cb()
+		self.done = true
 	}
 
 	return self.cached
@@ -134,8 +136,9 @@ func (self *LazyFunctionWrapper) ReduceWithScope(
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
-	if self.cached == nil {
+	if !self.done {
 		self.cached = self.cb()
+		self.done = true
 	}
 
 	return self.cached
-- 
2.43.0


From 0d7220abcf3611d292576f7112a293d0335d1d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 26/54] fix: a nil value, or one of another type of the same
 kind, passed for a declared argument is set or refused, it does not panic

---
 arg_parser/args.go     | 12 +++++++++++-
 arg_parser/parser.go   | 41 ++++++++++++++++++++++++++++++++++-------
 functions/functions.go |  4 ++++
 3 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 45d97cc..f25afd5 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -111,6 +111,11 @@ func _ExtractStringArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	// Reflection does not work on nil.
+	if arg == nil {
+		arg = types.Null{}
+	}
+
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -163,6 +168,11 @@ func _ExtractAnyArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	// Reflection does not work on nil.
+	if arg == nil {
+		arg = types.Null{}
+	}
+
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -202,7 +212,7 @@ func (self *StoredQueryWrapper) Eval(ctx context.Context, scope types.Scope) <-c
 		defer close(output_chan)
 
 		slice := reflect.ValueOf(self.Value)
-		if slice.Type().Kind() == reflect.Slice {
+		if slice.Kind() == reflect.Slice {
 			for i := 0; i < slice.Len(); i++ {
 				value := slice.Index(i).Interface()
 				if !types.IsNil(value) {
diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 8d511af..5fdf16b 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -76,8 +76,10 @@ func (self *Parser) Parse(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		err = setField(target.Field(parser.FieldIdx), new_value)
+		if err != nil {
+			return fmt.Errorf("Field %s %w", parser.Field, err)
+		}
 	}
 
 	// Something is wrong! We did not extract all the fields from
@@ -121,8 +123,10 @@ func (self *Parser) ParseAsFreeForm(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		err = setField(target.Field(parser.FieldIdx), new_value)
+		if err != nil {
+			return nil, fmt.Errorf("Field %s %w", parser.Field, err)
+		}
 	}
 
 	// Remaining fields are collected into the kwargs
@@ -137,6 +141,28 @@ func (self *Parser) ParseAsFreeForm(
 	return dict.RowToDict(ctx, scope, kwargs), nil
 }
 
+// Set the field to the value. The value may be nil or of another type
+// of the same kind (e.g. a float64 for a float32 field).
+func setField(field reflect.Value, value interface{}) error {
+	t := field.Type()
+	if value == nil {
+		field.Set(reflect.Zero(t))
+		return nil
+	}
+
+	v := reflect.ValueOf(value)
+	if v.Type().ConvertibleTo(t) &&
+		(v.Kind() == t.Kind() || v.CanFloat() && field.CanFloat()) {
+		v = v.Convert(t)
+	}
+
+	if !v.Type().AssignableTo(t) {
+		return fmt.Errorf("should be a %v not %T.", t, value)
+	}
+	field.Set(v)
+	return nil
+}
+
 // The plugin may specify the arg as being a LazyExpr, in which case
 // it is completely up to it to evaluate the expression (if at all).
 // Note: Reducing the lazy expression may yield a StoredQuery - it is
@@ -243,13 +269,14 @@ func stringParser(ctx context.Context, scope types.Scope,
 		}
 	}
 
+	if types.IsNil(arg) {
+		return "", nil
+	}
+
 	switch t := arg.(type) {
 	case string:
 		return t, nil
 
-	case types.Null, *types.Null, nil:
-		return "", nil
-
 	case fmt.Stringer:
 		return t.String(), nil
 
diff --git a/functions/functions.go b/functions/functions.go
index 951e48b..b002180 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -247,6 +247,10 @@ func (self LenFunction) Call(ctx context.Context,
 		return &types.Null{}
 	}
 
+	if types.IsNil(arg.List) {
+		return 0
+	}
+
 	slice := reflect.ValueOf(arg.List)
 	// A slice of strings. Only the following are supported
 	// https://golang.org/pkg/reflect/#Value.Len
-- 
2.43.0


From cfcf54aa66130af6a3131447c1b9294ba30b64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 27/54] fix: a dict with one member passed for a list of
 strings contributes one string

---
 arg_parser/args.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index f25afd5..0df75be 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -137,6 +137,7 @@ func _ExtractStringArray(
 					item, ok := utils.ToString(member)
 					if ok {
 						result = append(result, item)
+						continue
 					}
 				}
 			}
-- 
2.43.0


From 291aada3b0129c55bd4277b1c1784b220d419885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 28/54] fix: format() gives NULL, not false, when its arguments
 are wrong

---
 functions/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/format.go b/functions/format.go
index d7d4101..32fe7b0 100644
--- a/functions/format.go
+++ b/functions/format.go
@@ -24,7 +24,7 @@ func (self FormatFunction) Call(ctx context.Context,
 	err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
 	if err != nil {
 		scope.Log("format: %v", err)
-		return false
+		return types.Null{}
 	}
 
 	var format_args []interface{}
-- 
2.43.0


From 62cf8ddb2dca22ab4f1bb2b48932cb99c39db37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 29/54] fix: foreach() with a negative number of workers hung

---
 plugins/foreach.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index dfa2af6..ee01b31 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -39,7 +39,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 		}
 
 		// At least one worker
-		if arg.Workers == 0 {
+		if arg.Workers < 1 {
 			arg.Workers = 1
 		}
 
-- 
2.43.0


From 898f2a54bda065bbd7a152f3490406ccf5ac1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 30/54] fix: LIMIT 0 produced one row

---
 vfilter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index 28a138f..5c35e92 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -623,6 +623,10 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			limit := int(*self.Limit)
 			count := 1
 
+			if limit < count {
+				return
+			}
+
 			self_copy := *self
 			self_copy.Limit = nil
 
-- 
2.43.0


From e2569ae7fc32b1c81efb28e554941b3b49f64472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 31/54] fix: ORDER BY had no consistent order for rows with
 NULL or no value, or for equal rows with DESC

---
 sort/sort.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index b9ed8ee..1ef648a 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -78,22 +78,19 @@ func (self *DefaultSorterCtx) Less(i, j int) bool {
 	element2, pres2 := self.Scope.Associative(
 		self.Items[j], self.OrderBy)
 
-	if !pres1 || !pres2 {
-		return false
-	}
-
-	// Sort NULL like an empty string because normally NULL
-	// comparisons are not stable.
-	if types.IsNil(element1) {
-		element1 = ""
-	}
+	null1 := !pres1 || types.IsNil(element1)
+	null2 := !pres2 || types.IsNil(element2)
 
-	if types.IsNil(element2) {
-		element2 = ""
+	// Descending order is the reverse of ascending order.
+	if self.Desc {
+		element1, element2 = element2, element1
+		null1, null2 = null2, null1
 	}
 
-	if self.Desc {
-		return !self.Scope.Lt(element1, element2)
+	// Rows with no value sort before any value, because normally NULL
+	// comparisons are not stable.
+	if null1 || null2 {
+		return null1 && !null2
 	}
 
 	return self.Scope.Lt(element1, element2)
-- 
2.43.0


From 605ac90d157898acb57cd8fe323b7bf9c1bd4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 32/54] fix: stop unbounded recursion through default arguments

The defaults of a stored query or expression were evaluated in the
calling scope itself, so a default which calls its own definition
recursed without ever getting deeper and overflowed the stack.
---
 stored.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index e65902d..8639b44 100644
--- a/stored.go
+++ b/stored.go
@@ -204,6 +204,15 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict,
 	defaults map[string]*_Args) {
 
+	// A default may call its own definition again, so it evaluates in
+	// a nested scope to notice unbounded recursion.
+	subscope := scope.Copy()
+	defer subscope.Close()
+
+	if subscope.CheckForOverflow() {
+		return
+	}
+
 	for name, arg := range defaults {
 		_, pres := args.Get(name)
 
@@ -212,11 +221,11 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 		// evaluated at the calling scope.
 		if !pres {
 			if arg.Right != nil {
-				args.Set(name, arg.Right.Reduce(ctx, scope))
+				args.Set(name, arg.Right.Reduce(ctx, subscope))
 			} else if arg.SubSelect != nil {
 				args.Set(arg.Left, arg.SubSelect)
 			} else if arg.Array != nil {
-				args.Set(name, arg.Array.Reduce(ctx, scope))
+				args.Set(name, arg.Array.Reduce(ctx, subscope))
 			} else if arg.ArrayOpenBrace != "" {
 				args.Set(name, []Row{})
 			}
-- 
2.43.0


From dc42441aa705a57bcba3db1788b686f7e055db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 33/54] fix: stop unbounded recursion through a symbol used as
 a plugin

A stored expression in the FROM clause was evaluated in the scope of
the query itself, so an expression giving a query over itself recursed
without ever getting deeper, until memory ran out.
---
 vfilter.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 5c35e92..77754d1 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1336,7 +1336,28 @@ func (self *Plugin) evalSymbol(
 
 	switch t := symbol.(type) {
 	case types.StoredExpression:
-		return self.evalSymbol(ctx, scope, t.Reduce(ctx, scope), name)
+		// Nest the scope to notice unbounded recursion.
+		subscope := scope.Copy()
+		value := t.Reduce(ctx, subscope)
+
+		output_chan := make(chan Row)
+		go func() {
+			defer close(output_chan)
+
+			// The value may still refer to this scope so it must
+			// remain open until all the rows are produced.
+			defer subscope.Close()
+
+			for row := range self.evalSymbol(ctx, subscope, value, name) {
+				select {
+				case <-ctx.Done():
+					return
+
+				case output_chan <- row:
+				}
+			}
+		}()
+		return output_chan
 
 	case StoredQuery:
 		return t.Eval(ctx, scope)
-- 
2.43.0


From a79f61970d713ed3c04179e5bf22c707267d5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 34/54] fix: stop unbounded recursion through a sub-query
 passed as argument

A sub-query used as a value was evaluated in the very scope of whoever
evaluates it, so a sub-query that selects from the variable it was
bound to recursed without ever getting deeper. As a value it is now a
stored query, which evaluates in a nested scope. This also binds the
default of a quoted parameter name under the unquoted name.
---
 stored.go  | 2 +-
 vfilter.go | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/stored.go b/stored.go
index 8639b44..a2ee766 100644
--- a/stored.go
+++ b/stored.go
@@ -223,7 +223,7 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 			if arg.Right != nil {
 				args.Set(name, arg.Right.Reduce(ctx, subscope))
 			} else if arg.SubSelect != nil {
-				args.Set(arg.Left, arg.SubSelect)
+				args.Set(name, NewStoredQuery(arg.SubSelect, name))
 			} else if arg.Array != nil {
 				args.Set(name, arg.Array.Reduce(ctx, subscope))
 			} else if arg.ArrayOpenBrace != "" {
diff --git a/vfilter.go b/vfilter.go
index 77754d1..b99ddbd 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1998,7 +1998,7 @@ func buildArgsFromParameters(
 
 			// e.g. X={ SELECT * FROM ... }
 		} else if arg.SubSelect != nil {
-			args.Set(name, arg.SubSelect)
+			args.Set(name, NewStoredQuery(arg.SubSelect, name))
 
 			// e.g. X=[1,2,3,4]
 		} else if arg.Array != nil {
@@ -2039,7 +2039,8 @@ func (self *_SymbolRef) callFunction(
 			args.Set(utils.Unquote_ident(arg.Left), []Row{})
 
 		} else if arg.SubSelect != nil {
-			args.Set(utils.Unquote_ident(arg.Left), arg.SubSelect)
+			name := utils.Unquote_ident(arg.Left)
+			args.Set(name, NewStoredQuery(arg.SubSelect, name))
 		}
 	}
 
-- 
2.43.0


From 73871d098798e602f102c2a429f17b9e04bc78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 35/54] fix: parallel workers could each keep their own copy of
 a function

The first calls of a function in parallel workers each made their own
copy and called that one, so the state of an aggregate function was
split between the copies. Also a nil pointer returned by the function
was only replaced by NULL the first time.
---
 vfilter.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index b99ddbd..c979281 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -2046,28 +2046,26 @@ func (self *_SymbolRef) callFunction(
 
 	// If this AST node previously called a function, we use the
 	// same function copy to ensure it may store internal state.
-	if function != nil {
-		scope.GetStats().IncFunctionsCalled()
-		result := function.Call(ctx, scope, args)
-		if result == nil {
-			return &Null{}
+	if function == nil {
+		// Make a copy of the function and cache it for next time -
+		// this allows the function to store state since each
+		// reference in the AST is unique.
+		function = CopyFunction(func_obj)
+
+		// Another worker may have made a copy already - all the
+		// workers must use the same one.
+		self.mu.Lock()
+		if self.function == nil {
+			self.function = function
 		}
-		return result
+		function = self.function
+		self.mu.Unlock()
 	}
 
-	// Make a copy of the function and cache it for next time -
-	// this allows the function to store state since each
-	// reference in the AST is unique.
-	func_obj = CopyFunction(func_obj)
-
-	self.mu.Lock()
-	self.function = func_obj
-	self.mu.Unlock()
-
 	// Call the function now.
 	scope.GetStats().IncFunctionsCalled()
 
-	result := func_obj.Call(ctx, scope, args)
+	result := function.Call(ctx, scope, args)
 
 	// Do not allow nil in VQL since it is not compatible with
 	// reflect package. The VQL plugin might accidentally pass nil
-- 
2.43.0


From 0ce972b5e2df51dd36b994d75cd13d9a8049f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 36/54] fix: a destructor added while the scope finishes
 closing was accepted but never called

---
 scope/scope.go | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 4a8b6b3..29f2506 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -35,13 +35,6 @@ type _destructors struct {
 	wg           sync.WaitGroup
 }
 
-func (self *_destructors) SetDestroyed() {
-	self.mu.Lock()
-	defer self.mu.Unlock()
-
-	self.is_destroyed = true
-}
-
 func (self *_destructors) IsDestroyed() bool {
 	self.mu.Lock()
 	defer self.mu.Unlock()
@@ -49,19 +42,32 @@ func (self *_destructors) IsDestroyed() bool {
 	return self.is_destroyed
 }
 
-func (self *_destructors) AddDestructor(fn func()) {
+// Returns false if the destructor was not accepted because we are
+// already destroyed.
+func (self *_destructors) AddDestructor(fn func()) bool {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if self.is_destroyed {
+		return false
+	}
+
 	self.fn = append(self.fn, fn)
+	return true
 }
 
-func (self *_destructors) RemoveDestructors() []func() {
+// Removes the destructors so they can be called. If there are none
+// left, or this is the last attempt, we become destroyed under the
+// same lock so a destructor is never accepted but not called.
+func (self *_destructors) RemoveDestructors(last bool) []func() {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
 	result := append(self.fn[:0:0], self.fn...)
 	self.fn = nil
+	if last || len(result) == 0 {
+		self.is_destroyed = true
+	}
 	return result
 }
 
@@ -477,17 +483,15 @@ func (self *Scope) AddDestructor(fn func()) error {
 	self.Lock()
 	defer self.Unlock()
 
-	// Scope is already destroyed - call the destructor now.
-	if self.destructors.IsDestroyed() {
+	// Scope is already destroyed - the destructor is not accepted.
+	if !self.destructors.AddDestructor(fn) {
 		_, file, line, ok := runtime.Caller(1)
 		if ok {
 			self.Log("Scope already closed when adding destructor %v:%d", file, line)
 		}
 		return errors.New("Scope already closed")
-	} else {
-		self.destructors.AddDestructor(fn)
-		return nil
 	}
+	return nil
 }
 
 func (self *Scope) IsClosed() bool {
@@ -545,15 +549,12 @@ func (self *Scope) Close() {
 	// the end of this function we prevent new destructors from being
 	// added to this scope.
 
-	// Stop new destructors from appearing on this scope, once this
-	// function returns.
-	defer self.destructors.SetDestroyed()
-
 	// Destructors are called in reverse order to their
 	// declarations.
 	for try := 0; try < 10; try++ {
-		// Remove destructors from list so they are not run again.
-		ds := self.destructors.RemoveDestructors()
+		// Remove destructors from list so they are not run
+		// again. On the last try no new ones are accepted.
+		ds := self.destructors.RemoveDestructors(try == 9)
 		if len(ds) == 0 {
 			// No more destructors left - we are done.
 			break
-- 
2.43.0


From 0f5d18247c4b449261fbc70c75f259dca1e15d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 37/54] fix: a typed nil pointer crashed operators, truth tests
 and member access

---
 protocols/common.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/protocols/common.go b/protocols/common.go
index 2421e4b..015d410 100644
--- a/protocols/common.go
+++ b/protocols/common.go
@@ -2,6 +2,7 @@ package protocols
 
 import (
 	"context"
+	"reflect"
 
 	"www.velocidex.com/golang/vfilter/types"
 )
@@ -9,7 +10,13 @@ import (
 func maybeReduce(a types.Any) types.Any {
 	lazy_expr, ok := a.(types.LazyExpr)
 	if ok {
-		return lazy_expr.Reduce(context.Background())
+		a = lazy_expr.Reduce(context.Background())
+	}
+
+	// A nil pointer of any type is the same as NULL.
+	value := reflect.ValueOf(a)
+	if value.Kind() == reflect.Ptr && value.IsNil() {
+		return &types.Null{}
 	}
 	return a
 }
-- 
2.43.0


From b9df9f7d001d6e24b67a2241595b85c174044cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 38/54] fix: a nil dictionary, string or struct supplied by the
 host crashed evaluation

---
 arg_parser/args.go        | 2 +-
 plugins/flatten.go        | 4 ++--
 protocols/lazy_wrapper.go | 2 +-
 types/string.go           | 3 +++
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 0df75be..f843878 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -47,7 +47,7 @@ func NormalizeArgs(args *ordereddict.Dict) *ordereddict.Dict {
 		}
 
 		alt_args, ok := alt_args_any.(*ordereddict.Dict)
-		if ok {
+		if ok && alt_args != nil {
 			return alt_args
 		}
 	}
diff --git a/plugins/flatten.go b/plugins/flatten.go
index 5d6b43a..b826a18 100644
--- a/plugins/flatten.go
+++ b/plugins/flatten.go
@@ -55,7 +55,7 @@ func (self _FlattenPluginImpl) Call(ctx context.Context,
 
 func makeDict(scope types.Scope, item types.Any) *ordereddict.Dict {
 	result_dict, ok := item.(*ordereddict.Dict)
-	if ok {
+	if ok && result_dict != nil {
 		return result_dict
 	}
 
@@ -86,7 +86,7 @@ func flatten(ctx context.Context,
 	for member := range scope.Iterate(ctx, cell) {
 		count++
 		member_dict, ok := member.(*ordereddict.Dict)
-		if ok {
+		if ok && member_dict != nil {
 			real_member, ok := member_dict.Get("_value")
 			if ok {
 				member = real_member
diff --git a/protocols/lazy_wrapper.go b/protocols/lazy_wrapper.go
index e6b5400..2baa669 100644
--- a/protocols/lazy_wrapper.go
+++ b/protocols/lazy_wrapper.go
@@ -24,7 +24,7 @@ func (self LazyWrapper) Applicable(a types.Any, b types.Any) bool {
 	b = maybeReduce(b)
 
 	_, ok := b.(string)
-	if !ok {
+	if !ok || types.IsNil(a) {
 		return false
 	}
 
diff --git a/types/string.go b/types/string.go
index 602ba94..e2fa617 100644
--- a/types/string.go
+++ b/types/string.go
@@ -39,6 +39,9 @@ func ToString(ctx context.Context,
 		return t
 
 	case *string:
+		if t == nil {
+			return "Null"
+		}
 		return *t
 
 	case []byte:
-- 
2.43.0


From 66ecb10b0f1d761d95cd2e56fbbe5292e8a7563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 39/54] fix: unquoting text shorter than its quotes crashed,
 and an invalid hex escape copied the wrong character

---
 utils/unquote.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 2007877..0c4e2ec 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -10,13 +10,17 @@ import (
 func Unquote(s string) string {
 	// If we start with ''' this is a literal string - do not
 	// interfere at all.
-	if strings.HasPrefix(s, "'''") {
+	if len(s) >= 6 && strings.HasPrefix(s, "'''") {
 		if strings.HasSuffix(s, "'''") {
 			return s[3 : len(s)-3]
 		}
 	}
 
 	// This should not happen but in case it does do not interfere at all.
+	if len(s) < 2 {
+		return s
+	}
+
 	quote := s[0]
 	if quote != '"' && quote != '\'' {
 		return s
@@ -63,7 +67,7 @@ outer:
 				// ignore it and copy the output
 				// verbatim.
 				if err != nil {
-					out[j] = in[j]
+					out[j] = in[i]
 					i++
 					j++
 				} else {
@@ -108,8 +112,8 @@ outer:
 
 // Unquote a ` delimited string.
 func Unquote_ident(s string) string {
-	if s == "" {
-		return ""
+	if len(s) < 2 {
+		return s
 	}
 
 	quote := s[0]
-- 
2.43.0


From bc2612ac3843ff979d7d74c4496e39c62d0a7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 40/54] fix: the formatter dropped the quotes of LET parameter
 names

---
 visitor.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/visitor.go b/visitor.go
index 147e648..403f08e 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1170,18 +1170,18 @@ func (self *Visitor) visitVQL(node *VQL) {
 					self.Definitions = append(self.Definitions, defsite)
 				}
 
-				for idx, p := range parameters {
+				for idx, p := range node.LetParameters {
 					// Is it an arg with default?
-					def_value, pres := defaults[p.Name]
-					if pres {
-						self.Visit(def_value)
+					if p.DefaultArg != nil {
+						self.Visit(p.DefaultArg)
 
-					} else {
-						// Otherwise just emit the plain name
-						self.push(p.Name)
+					} else if p.Name != nil {
+						// Otherwise just emit the name as written (it
+						// may need to be quoted).
+						self.push(*p.Name)
 					}
 
-					if idx < len(parameters)-1 {
+					if idx < len(node.LetParameters)-1 {
 						self.push(",", " ")
 					}
 				}
-- 
2.43.0


From b7cb16de6323a3cc3a5d0c564c5ab26d2f05a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 41/54] fix: the formatter dropped the empty parameter list of
 LET X()

---
 visitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/visitor.go b/visitor.go
index 403f08e..30481e9 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1147,6 +1147,11 @@ func (self *Visitor) visitVQL(node *VQL) {
 			self.push("LET ", node.Let)
 			parameters, defaults := node.getParameters()
 
+			// LET X() is not the same as LET X
+			if node.Called != "" && len(node.LetParameters) == 0 {
+				self.push("()")
+			}
+
 			if defaults != nil {
 				self.push("(")
 				if self.opts.CollectDefinitionSites {
-- 
2.43.0


From e8c35e9fd009cfe89a15eaa4724e402313927b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 42/54] fix: the formatter dropped the alias of * AS X

---
 visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/visitor.go b/visitor.go
index 30481e9..144bbbd 100644
--- a/visitor.go
+++ b/visitor.go
@@ -453,6 +453,9 @@ func (self *Visitor) visitAliasedExpression(
 
 	if node.Star != nil {
 		self.push("*")
+		if node.As != "" {
+			self.push(" AS ", node.As)
+		}
 		return
 	}
 
-- 
2.43.0


From 539e7574d7561a5e0f20ecdc2ec36192ff82c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 43/54] fix: the formatter wrote FALSE for a number which is
 out of range

---
 visitor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/visitor.go b/visitor.go
index 144bbbd..584210f 100644
--- a/visitor.go
+++ b/visitor.go
@@ -780,6 +780,13 @@ func (self *Visitor) visitValue(node *_Value) {
 		return
 	}
 
+	// A number we can not represent.
+	if node.StrNumber != nil {
+		self.push(*node.StrNumber)
+		node.mu.Unlock()
+		return
+	}
+
 	node.mu.Unlock()
 	self.push("FALSE")
 }
-- 
2.43.0


From c3eb804880995831406d2096f171ba116571378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 44/54] fix: x[1 2] parsed with a part dropped and x[] was
 formatted as x.

---
 vfilter.go | 4 ++--
 visitor.go | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index c979281..8a7467a 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -940,8 +940,8 @@ type _MemberExpression struct {
 
 type _OpMembershipTerm struct {
 	Index    *_Value ` ( "[" [ @@ ] `
-	Range    *string ` [ @":" ]`
-	RangeEnd *_Value ` [ @@ ] "]" |`
+	Range    *string ` [ @":" `
+	RangeEnd *_Value ` [ @@ ] ] "]" |`
 	Term     *string `  "." @Ident )`
 }
 
diff --git a/visitor.go b/visitor.go
index 584210f..4e6f0d3 100644
--- a/visitor.go
+++ b/visitor.go
@@ -828,9 +828,12 @@ func (self *Visitor) visitMemberExpression(node *_MemberExpression) {
 			self.Visit(right.Index)
 			self.push("]")
 
-		} else {
+		} else if right.Term != nil {
 			self.push(".")
 			self.Visit(right.Term)
+
+		} else {
+			self.push("[]")
 		}
 	}
 }
-- 
2.43.0


From 006a96096e3c33a5573b6ebe10795ea9752125e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 45/54] fix: NOT a = b = c parsed but the last comparison was
 ignored

---
 vfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 8a7467a..ffa227d 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1002,8 +1002,8 @@ type _OpOrTerm struct {
 type _ConditionOperand struct {
 	Comments []*_Comment          ` [ @@ ] `
 	Not      *_ConditionOperand   `(NOT @@ | `
-	Left     *_AdditionExpression `@@)`
-	Right    *_OpComparison       `[ @@ ]`
+	Left     *_AdditionExpression `@@`
+	Right    *_OpComparison       `[ @@ ])`
 }
 
 type _OpComparison struct {
-- 
2.43.0


From 42132c0f6997a3efa01c3e4d4dd764a5436258d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 46/54] fix: the formatter dropped comments before a condition

---
 visitor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/visitor.go b/visitor.go
index 4e6f0d3..6f9229c 100644
--- a/visitor.go
+++ b/visitor.go
@@ -660,6 +660,7 @@ func (self *Visitor) visitSymbolRef(node *_SymbolRef) {
 }
 
 func (self *Visitor) visitAndExpression(node *_AndExpression) {
+	self.Visit(node.Comments)
 	self.Visit(node.Left)
 
 	for _, right := range node.Right {
@@ -678,12 +679,13 @@ func (self *Visitor) visitOrExpression(node *_OrExpression) {
 
 	for _, right := range node.Right {
 		self.push(" ", right.Operator, " ")
-		self.Visit(right.Term.Comments)
 		self.Visit(right.Term)
 	}
 }
 
 func (self *Visitor) visitConditionOperand(node *_ConditionOperand) {
+	self.Visit(node.Comments)
+
 	if node.Not != nil {
 		self.push("NOT ")
 		self.Visit(node.Not)
-- 
2.43.0


From 28cd693b7637aa0e0b05bc4938a54b12c9ca5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 47/54] fix: a line comment formatted on one line commented out
 what follows it

---
 visitor.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/visitor.go b/visitor.go
index 6f9229c..a436fdc 100644
--- a/visitor.go
+++ b/visitor.go
@@ -393,7 +393,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.Comment)
-		self.line_break()
+		self.end_line_comment()
 	}
 
 	// VQL Comments start with -- and generally follow the thing they
@@ -405,7 +405,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.VQLComment)
-		self.line_break()
+		self.end_line_comment()
 	}
 
 	// Multi line comments always start at column 0 and follow by a
@@ -423,6 +423,15 @@ func (self *Visitor) visitComment(node *_Comment) {
 	}
 }
 
+// These comments run to the end of the line, so whatever follows must
+// go on the next line - even when we do not break lines otherwise.
+func (self *Visitor) end_line_comment() {
+	break_lines := self.opts.BreakLines
+	self.opts.BreakLines = true
+	self.line_break()
+	self.opts.BreakLines = break_lines
+}
+
 func (self *Visitor) visitLambda(node *Lambda) {
 	self.Visit(node.Parameters)
 	self.push(" => ")
-- 
2.43.0


From fbf1440a688990b0af9d2e200079c5d8693b2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 48/54] fix: comments after the last statement were dropped

---
 vfilter.go | 4 ++++
 visitor.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index ffa227d..84ce3e7 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -339,6 +339,7 @@ func (self *MultiVQL) GetStatements() []*VQL {
 		self.VQL2.Comments = append(self.Comments2, self.VQL2.Comments...)
 		self.Comments2 = nil
 	}
+	self.VQL1.trailing_comments = self.Comments2
 
 	result := []*VQL{self.VQL1}
 	if self.VQL2 != nil {
@@ -377,6 +378,9 @@ type VQL struct {
 	Query         *_Select        ` @@  `
 	Comments      []*_Comment
 
+	// Comments after the last statement.
+	trailing_comments []*_Comment
+
 	// JIT Compile these for faster execution
 	mu              sync.Mutex
 	argsCache       map[string]*_Args
diff --git a/visitor.go b/visitor.go
index a436fdc..460194d 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1156,6 +1156,7 @@ func (self *Visitor) visitVQL(node *VQL) {
 	// start as each VQL statement is rendered independently.
 	defer func() {
 		self.line_break()
+		self.Visit(node.trailing_comments)
 		self.pos = 0
 		self.max_line = ""
 		self.max_width = 0
-- 
2.43.0


From 515d820040e4bb4370cb170b4cad511a11f85777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 49/54] fix: visiting lost comments and definitions in a trial
 format and repeated call sites

---
 visitor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/visitor.go b/visitor.go
index 460194d..8b94a38 100644
--- a/visitor.go
+++ b/visitor.go
@@ -157,6 +157,8 @@ func NewVisitor(scope types.Scope, options FormatOptions) *Visitor {
 func (self *Visitor) merge(in *Visitor) {
 	self.Fragments = append([]string{}, in.Fragments...)
 	self.CallSites = append(self.CallSites, in.CallSites...)
+	self.Definitions = append(self.Definitions, in.Definitions...)
+	self.Comments = append(self.Comments, in.Comments...)
 	self.line_breaks = in.line_breaks
 	self.indents = append([]int{}, in.indents...)
 	self.pos = in.pos
@@ -1291,7 +1293,7 @@ func (self *Visitor) abTest(
 			res = test_visitor
 
 		} else if res.is_better(test_visitor) {
-			res.merge(test_visitor)
+			res = test_visitor
 		}
 	}
 
-- 
2.43.0


From 0ef5b56778e546c7e7ccc80eb227f1a2fc137e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 50/54] fix: the formatter removed trailing spaces inside multi
 line strings

---
 reformat/visitor.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/reformat/visitor.go b/reformat/visitor.go
index e472ef4..7be5050 100644
--- a/reformat/visitor.go
+++ b/reformat/visitor.go
@@ -17,11 +17,15 @@ func ReFormatVQL(scope types.Scope, query string,
 	visitor := vfilter.NewVisitor(scope, options)
 	visitor.Visit(vql)
 
-	lines := strings.Split(visitor.ToString(), "\n")
-	result := make([]string, 0, len(lines))
-	for _, l := range lines {
-		result = append(result, strings.TrimRight(l, " "))
+	// Remove trailing spaces before each line break we added. Strings
+	// may contain line breaks as well and these must not be changed.
+	result := ""
+	for _, fragment := range visitor.Fragments {
+		if fragment == "\n" {
+			result = strings.TrimRight(result, " ")
+		}
+		result += fragment
 	}
 
-	return strings.Join(result, "\n"), nil
+	return strings.TrimRight(result, " "), nil
 }
-- 
2.43.0


From 282370e9d7e591a024d4bae8d7f264ee0731c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 51/54] fix: the formatter dropped comments before lambda
 parameters

---
 visitor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/visitor.go b/visitor.go
index 8b94a38..b3c97d8 100644
--- a/visitor.go
+++ b/visitor.go
@@ -441,6 +441,7 @@ func (self *Visitor) visitLambda(node *Lambda) {
 }
 
 func (self *Visitor) visitParameterList(node *_ParameterList) {
+	self.Visit(node.Comments)
 	self.push(node.Left)
 
 	if node.Right != nil {
-- 
2.43.0


From 3b76f825a8c597e4add5ac0d9fe8005249fea550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 52/54] fix: serializing a definition lost default values and
 the quotes of its parameters

---
 marshal.go | 69 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/marshal.go b/marshal.go
index 74b866d..f32d636 100644
--- a/marshal.go
+++ b/marshal.go
@@ -3,7 +3,6 @@ package vfilter
 import (
 	"context"
 	"encoding/json"
-	"fmt"
 	"strings"
 
 	"github.com/Velocidex/ordereddict"
@@ -20,15 +19,9 @@ type StoredQueryItem struct {
 func (self *_StoredQuery) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
 
-	var query string
-	if self.parameters == nil {
-		query = fmt.Sprintf("LET `%v` = %s", self.name,
-			FormatToString(scope, self.query))
-	} else {
-		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
-			FormatToString(scope, self.query))
-	}
+	query := "LET " + quoteIdent(self.name) +
+		formatParameters(scope, self.parameters, self.defaults) + " = " +
+		FormatToString(scope, self.query)
 
 	query_str, err := json.Marshal(query)
 	return &types.MarshalItem{
@@ -40,15 +33,9 @@ func (self *_StoredQuery) Marshal(
 func (self *StoredExpression) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
 
-	var query string
-	if self.parameters == nil {
-		query = fmt.Sprintf("LET `%v` = %s", self.name,
-			FormatToString(scope, self.Expr))
-	} else {
-		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
-			FormatToString(scope, self.Expr))
-	}
+	query := "LET " + quoteIdent(self.name) +
+		formatParameters(scope, self.parameters, self.defaults) + " = " +
+		FormatToString(scope, self.Expr)
 
 	query_str, err := json.Marshal(query)
 	return &types.MarshalItem{
@@ -57,6 +44,50 @@ func (self *StoredExpression) Marshal(
 	}, err
 }
 
+// Format the parameter list of a definition, including the default
+// values, in a way that can be parsed again.
+func formatParameters(scope types.Scope,
+	parameters []string, defaults map[string]*_Args) string {
+	if len(parameters) == 0 {
+		return ""
+	}
+
+	res := make([]string, 0, len(parameters))
+	for _, name := range parameters {
+		arg, pres := defaults[name]
+		if pres {
+			res = append(res, FormatToString(scope, arg))
+		} else if isPlainIdent(name) {
+			res = append(res, name)
+		} else {
+			res = append(res, quoteIdent(name))
+		}
+	}
+	return "(" + strings.Join(res, ", ") + ")"
+}
+
+// The reverse of utils.Unquote_ident()
+func quoteIdent(name string) string {
+	name = strings.ReplaceAll(name, "\\", "\\\\")
+	name = strings.ReplaceAll(name, "`", "\\x60")
+	return "`" + name + "`"
+}
+
+// Does the name parse as an identifier without quotes?
+func isPlainIdent(name string) bool {
+	if strings.HasPrefix(name, "`") {
+		return false
+	}
+
+	lex, err := vqlLexer.LexString("", name)
+	if err != nil {
+		return false
+	}
+	token, err := lex.Next()
+	return err == nil && token.Value == name &&
+		token.Type == vqlLexer.Symbols()["Ident"]
+}
+
 type ReplayUnmarshaller struct{}
 
 func (self ReplayUnmarshaller) Unmarshal(
-- 
2.43.0


From 53bbf17db7d2ac7a5e7866eda568249ecb1159f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 53/54] fix: rows of a serialized materialized query could not
 be read after restoring

---
 marshal/unmarshal.go | 58 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 974b25c..f25da33 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -1,9 +1,11 @@
 package marshal
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 
+	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
 )
 
@@ -21,9 +23,9 @@ func (self *Unmarshaller) Unmarshal(
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
 	switch item.Type {
 	case "JSON":
-		var value interface{}
-		err := json.Unmarshal(item.Data, &value)
-		return value, err
+		decoder := json.NewDecoder(bytes.NewReader(item.Data))
+		decoder.UseNumber()
+		return decode(decoder)
 
 	default:
 		handler, pres := self.Handlers[item.Type]
@@ -35,6 +37,56 @@ func (self *Unmarshaller) Unmarshal(
 	}
 }
 
+// Decode the next JSON value into types that VQL can use - objects
+// become dicts (e.g. the rows of a materialized query) and whole
+// numbers remain whole.
+func decode(decoder *json.Decoder) (interface{}, error) {
+	token, err := decoder.Token()
+	if err != nil {
+		return nil, err
+	}
+
+	switch t := token.(type) {
+	case json.Number:
+		value, err := t.Int64()
+		if err != nil {
+			return t.Float64()
+		}
+		return value, nil
+
+	case json.Delim:
+		if t == '[' {
+			result := []interface{}{}
+			for decoder.More() {
+				value, err := decode(decoder)
+				if err != nil {
+					return nil, err
+				}
+				result = append(result, value)
+			}
+			_, err = decoder.Token()
+			return result, err
+		}
+
+		result := ordereddict.NewDict()
+		for decoder.More() {
+			key, err := decoder.Token()
+			if err != nil {
+				return nil, err
+			}
+			value, err := decode(decoder)
+			if err != nil {
+				return nil, err
+			}
+			key_str, _ := key.(string)
+			result.Set(key_str, value)
+		}
+		_, err = decoder.Token()
+		return result, err
+	}
+	return token, nil
+}
+
 func NewUnmarshaller() *Unmarshaller {
 	return &Unmarshaller{
 		Handlers: make(map[string]types.Unmarshaller),
-- 
2.43.0


From 1120923fb362763bede71101c4f27f9ad70296dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 54/54] fix: failures to restore a variable were printed
 instead of returned

---
 scope/marshal.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/scope/marshal.go b/scope/marshal.go
index 9e72a10..8dff6aa 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -2,6 +2,7 @@ package scope
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"strings"
 
@@ -68,6 +69,7 @@ func (self ScopeUnmarshaller) Unmarshal(
 
 	new_scope := scope.Copy()
 
+	var errs []error
 	env := ordereddict.NewDict()
 	for k, v := range scope_items.Vars {
 		if utils.InString(&self.IgnoreVars, k) {
@@ -75,14 +77,16 @@ func (self ScopeUnmarshaller) Unmarshal(
 		}
 		unmarshalled, err := unmarshaller.Unmarshal(unmarshaller,
 			new_scope, v)
-		if err == nil {
-			if !types.IsNil(unmarshalled) {
-				env.Set(k, unmarshalled)
-			}
-		} else {
-			fmt.Printf("Can't decode %v: %v\n", k, err)
+		if err != nil {
+			errs = append(errs, fmt.Errorf("Can't decode %v: %w", k, err))
+			continue
+		}
+
+		if !types.IsNil(unmarshalled) {
+			env.Set(k, unmarshalled)
 		}
 	}
 
-	return new_scope.AppendVars(env), nil
+	// Restore as much as we can but tell the caller what is missing.
+	return new_scope.AppendVars(env), errors.Join(errs...)
 }
-- 
2.43.0

