#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single place the properties are worded."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}

ALL = [
P("C01", "Cancelling a query unblocks and stops everything it started",
  "Wherever the engine may have to wait for a reader to take a row, it also waits for the caller's cancellation, and once cancelled it gives up there instead of carrying on producing. "
  "Everything the engine starts on behalf of a query (sub-queries, plugins, functions, sorting, grouping, parallel workers) runs under the caller's cancellation, or one derived from it, whenever a cancellation is available to it.",
  ["schedules", "programs", "fault_sequences"],
  "for every query, every moment of cancellation and every pace of the reader",
  "Cancellation can arrive at any hand-over of any row of any query; the tests cancel nothing and always drain their results.",
  ["vfilter.go", "vfilter_group.go", "stored.go", "plugins/", "protocols/protocol_iterate.go", "sort/sort.go", "grouper/grouper.go", "arg_parser/args.go", "materializer/in_memory.go"],
  [("select on the context's Done next to every row hand-over", "all producers of row channels"), ("context threaded through every call", "all evaluation entry points")],
  ["goroutines left after cancel", "row channel closes after cancel"]),

P("C02", "Every row stream is closed exactly once, and nothing is sent after",
  "Every row stream the engine hands out is closed exactly once on every way its producer can end: end of data, bad arguments, unknown symbol, cancellation or a limit. "
  "No row is sent on a stream after it was closed, also when parallel workers feed it.",
  ["schedules", "programs", "inputs"],
  "for every producer, every exit path of it and every interleaving of its workers",
  "A missing close on one error path hangs the reader and a second close or late send crashes the process; the tests take only a few of the exit paths.",
  ["vfilter.go", "vfilter_group.go", "stored.go", "api.go", "plugins/", "protocols/protocol_iterate.go", "sort/sort.go", "grouper/grouper.go", "arg_parser/args.go", "materializer/in_memory.go"],
  [("deferred close in the one producing goroutine", "all producers"), ("workers are waited for before the close", "plugins/foreach.go")],
  ["reader of the stream", "process panic"]),

P("C03", "Reading only part of a stream stops its producer",
  "Whenever the engine itself stops reading a row stream before its end (a limit is reached, the wanted row was found, the truth value is known), it has by then cancelled what produces the stream, unless the caller's own cancellation is the reason for stopping. "
  "Nothing keeps running, or stays blocked, behind a stream nobody reads any more.",
  ["programs", "schedules", "inputs"],
  "for every place that consumes a stream and every way of leaving it early",
  "An abandoned producer is invisible in the result; tests compare only results.",
  ["vfilter.go", "protocols/stored_query.go", "plugins/"],
  [("derived cancellable context, cancelled on exit", "LIMIT stage, stored query indexing and truth test")],
  ["goroutines left after the query returned"]),

P("C04", "Every nested scope the engine opens is closed again",
  "Every nested scope the engine opens while evaluating a query is closed on every path by which that evaluation can end, including errors, rejected rows, empty results and cancellation, unless it is handed over to the caller or to the row or stream that then closes it. "
  "Long running queries therefore neither pile up scopes nor postpone the clean-up registered in them.",
  ["programs", "schedules", "histories"],
  "for every construct that opens a nested scope and every path out of it",
  "A scope that is not closed changes no row of a small test query; it only leaks memory and delays clean-up in long ones.",
  ["vfilter.go", "vfilter_group.go", "grouper/grouper.go", "stored.go", "lambda.go", "plugins/", "protocols/", "types/stored_query.go", "functions/functions.go", "scope/marshal.go"],
  [("deferred Close next to each Copy", "all evaluation code"), ("closer returned by the row transformer", "SELECT transform")],
  ["destructors run", "children of the root scope"]),

P("C05", "A scope stays open while anything still evaluates in it",
  "A nested scope is not closed before a stream that evaluates in it has ended or was cancelled, nor before a value that captured it is delivered to whoever evaluates it. "
  "Clean-up registered by a plugin while producing rows therefore runs after its last row, never before or not at all.",
  ["schedules", "programs"],
  "for every scope handed to a stream or captured in a lazily evaluated value, under every schedule",
  "Whether the close or the stream's start wins is decided by the scheduler; a test sees one outcome.",
  ["stored.go", "vfilter.go", "plugins/"],
  [("Close deferred inside the goroutine that drains the stream", "stored query, row pipeline, plugins")],
  ["order of destructors and rows", "log: scope already closed"]),

P("C06", "Registered clean-up runs exactly once, newest first, children first",
  "When a scope is closed, clean-up registered on its nested scopes runs before its own, its own runs newest first, and each registered clean-up runs exactly once however often or concurrently the scope is closed. "
  "Registering clean-up on a scope that finished closing is refused with an error; it is never accepted and then forgotten.",
  ["histories", "schedules"],
  "for every sequence and interleaving of registering and closing on a tree of scopes",
  "Losing or duplicating a clean-up needs a registration racing with a close; tests register first and close last.",
  ["scope/scope.go"],
  [("destructor list taken atomically under its lock", "destructor container"), ("closed flag checked under the same lock as the list", "destructor container"), ("children closed first", "scope close")],
  ["calls of the registered functions"]),

P("C07", "Engine state shared between goroutines is guarded by its lock",
  "Scopes, parsed queries, registries, argument and type caches, lazy values, aggregate state and the throttler may be used from several goroutines at once, also by parallel foreach workers: every access to a field that can change after construction holds the lock that guards it, or is atomic. "
  "No locked structure is copied by value together with its lock.",
  ["schedules", "programs"],
  "for every pair of accesses to shared engine state under every interleaving",
  "A data race shows only under particular interleavings; the tests run on one CPU without the race detector.",
  ["scope/scope.go", "scope/dispatcher.go", "vfilter.go", "aggregators/aggregators.go", "arg_parser/cache.go", "arg_parser/parser.go", "protocols/lazy_wrapper.go", "lazy.go", "throttle.go", "types/stats.go"],
  [("a mutex in each shared structure", "scope, dispatcher, AST nodes, aggregators, caches"), ("atomic counters", "stats, ids")],
  ["race detector", "concurrent map access crash"]),

P("C08", "Internal locks are always released and cannot deadlock",
  "Every internal lock that is taken is released on every path out of the code that took it. "
  "While holding one, the engine neither takes the same lock again nor waits on a row stream, and the locks are always nested in one consistent order.",
  ["schedules", "programs"],
  "for every lock operation, path and combination of goroutines",
  "A missing unlock on a rare path or an inverted order hangs only in particular schedules.",
  ["scope/scope.go", "scope/dispatcher.go", "vfilter.go", "aggregators/aggregators.go", "arg_parser/", "protocols/lazy_wrapper.go"],
  [("short critical sections, unlock before calling out", "scope, dispatcher, AST nodes")],
  ["query hangs"]),

P("C09", "Evaluating a parsed query never changes what it means",
  "Evaluating, formatting or inspecting a parsed query never modifies what was parsed, so it can be evaluated any number of times, also concurrently, and formats to the same text afterwards. "
  "What the engine remembers between evaluations to go faster gives the second and later evaluations the same outcome as the first.",
  ["histories", "schedules", "programs"],
  "for every query and every sequence of evaluations of the same parsed object",
  "Tests evaluate each parsed query once.",
  ["vfilter.go", "vfilter_group.go", "visitor.go", "lambda.go", "stored.go"],
  [("struct copies of the query node for the LIMIT and ORDER BY stages", "select evaluation"), ("caches in untagged fields", "AST nodes")],
  ["rows of a second evaluation", "formatted text after evaluation"]),

P("C10", "Every operator the language accepts is evaluated with its meaning",
  "Each comparison, arithmetic and logical operator the language accepts is evaluated by the operation it denotes, on its operands in the order written: != and <> negate =, <= and >= are the strict comparison or equality, =~ matches the left value against the pattern on the right, IN looks for the left value in the right one, NOT negates. "
  "No accepted spelling of an operator is silently ignored or evaluated as another one.",
  ["programs", "inputs"],
  "for every operator of the grammar, in every letter case it accepts, on all operands",
  "The golden tables miss some accepted spellings entirely, and use operands on which different operators agree.",
  ["vfilter.go", "lambda.go", "scope/scope.go"],
  [("grammar tags listing the operators", "grammar types"), ("switch on the operator", "expression evaluation"), ("scope methods forwarding to protocol dispatchers", "scope")],
  ["value of the expression"]),

P("C11", "Custom type protocols are consulted consistently by every operator",
  "For every operator, operands passed in lazily are reduced to their value before the operator inspects them, and a registered implementation is used only after it declared itself applicable to exactly those operands. "
  "Implementations registered later take precedence over earlier ones, all registered ones are consulted, and registering one in a new independent scope does not affect other scopes.",
  ["configurations", "inputs", "histories"],
  "for every operator, operand type and set of registered implementations",
  "Tests register one or two implementations for one or two operators.",
  ["protocols/", "scope/dispatcher.go", "scope/scope.go"],
  [("operands reduced at the head of each dispatcher", "protocol dispatchers"), ("Applicable guard before each implementation call", "protocol dispatchers"), ("prepending registration, copying Copy", "protocol dispatchers")],
  ["which implementation ran", "arguments it received"]),

P("C12", "Arithmetic cannot crash or exhaust memory",
  "Dividing any number by zero, whatever the types of the two numbers, gives NULL, and no other division does so merely because its dividend is zero. "
  "Multiplying a string by a number and adding strings never crashes, and is refused with NULL instead of building a string beyond the memory bound, for negative, zero and arbitrarily large counts alike.",
  ["inputs"],
  "for all numbers and strings of every supported type",
  "The tests use a handful of small operands.",
  ["protocols/protocol_div.go", "protocols/protocol_mul.go", "protocols/protocol_add.go"],
  [("zero test on the divisor before each division", "division"), ("size bound before building a string", "multiplication, addition")],
  ["value of the expression", "process panic"]),

P("C13", "Only what a query needs is evaluated",
  "AND evaluates no operand after the first false one and OR none after the first true one, and the if() function evaluates, and the if plugin runs, only the branch that the condition selects. "
  "An argument passed lazily to a function, or a lazily computed column, is evaluated at most once however often its value is asked for, whatever the value is, and not at all when nobody asks.",
  ["programs", "inputs"],
  "for every expression and every truth value of its operands",
  "An operand evaluated needlessly gives the same result unless it has side effects or fails.",
  ["vfilter.go", "functions/if.go", "plugins/if.go", "lazy.go", "protocols/lazy_wrapper.go", "arg_parser/parser.go"],
  [("early return on the deciding operand", "logical expressions"), ("lazy argument wrappers with a cached value", "function calls")],
  ["calls of functions in unused operands"]),

P("C14", "Only rows that pass the WHERE condition are emitted",
  "A SELECT with a WHERE condition emits a row, or counts it in a group, only after the condition was evaluated for that row and came out true; a row is not dropped when it did. "
  "A LIMIT is honoured for every value: at most that many rows are emitted, none for zero.",
  ["inputs", "programs"],
  "for every query, row and limit",
  "Tests sample a few conditions and limits; a path that emits without the test shows only on the right input.",
  ["vfilter.go", "vfilter_group.go"],
  [("truth test dominating the hand-over of the row", "row pipeline, group by"), ("row counter compared with the limit", "LIMIT stage")],
  ["emitted rows"]),

P("C15", "Unbounded recursion is stopped",
  "A stored query or expression that calls itself, directly or through others, is stopped with an error once it is nested too deep, instead of exhausting the process. "
  "Every evaluation step by which a query can re-enter a stored definition passes a depth check over a scope nested one level deeper.",
  ["programs", "inputs"],
  "for every set of mutually recursive definitions",
  "There are unboundedly many recursion shapes (expression, query, argument, default, plugin); tests try two.",
  ["vfilter.go", "stored.go", "scope/scope.go"],
  [("depth counter incremented by each nested scope", "scope copy"), ("overflow test before re-entering", "symbol and plugin evaluation")],
  ["error log", "process stack overflow"]),

P("C16", "Aggregate functions keep their state per group, call and call site",
  "Each occurrence of an aggregate function in a query keeps its own running state, separate for every group and for every call of a stored query or expression, and two occurrences never share it. "
  "One call updates the state in a single atomic step, so concurrent rows are never lost.",
  ["programs", "histories", "schedules"],
  "for every combination of aggregate occurrences, groups, calls and workers",
  "State sharing shows only when the same function occurs twice, or rows are processed in parallel.",
  ["functions/aggregates.go", "aggregators/aggregators.go", "grouper/grouper.go", "vfilter.go", "stored.go", "scope/scope.go"],
  [("unique id assigned per call site", "aggregate functions"), ("read-modify-write under one lock", "aggregator context"), ("fresh aggregator context per bin and per call", "grouper, stored query calls")],
  ["value of the aggregate"]),

P("C17", "Formatting a query reproduces every part of it",
  "Formatting a parsed query visits and prints every part that was parsed: clauses, arguments, operators, parameters, defaults, sub-queries, and in comment-preserving mode comments. "
  "No accepted construct is dropped, and whatever the visitor collects about a part of a query is also collected when that part is nested.",
  ["programs"],
  "for every construct of the grammar in every position",
  "Tests format a table of sample queries; a dropped clause on another construct is not noticed.",
  ["visitor.go", "outline.go", "reformat/visitor.go", "vfilter.go", "marshal.go"],
  [("one visit function per grammar node", "visitor"), ("merge of collected results of nested visitors", "visitor")],
  ["formatted text", "collected call sites, symbols and comments"]),

P("C18", "Declared arguments are enforced and assigned safely",
  "A call that omits a required argument or passes an undeclared one is refused with an error, for every function and plugin that declares its arguments. "
  "Whatever value a query passes for a declared argument, it is converted to the declared type or refused with an error; it never crashes the process.",
  ["inputs", "programs", "configurations"],
  "for every argument declaration and every value a query can pass",
  "There are many target types and unboundedly many values; tests cover a few pairs.",
  ["arg_parser/parser.go", "arg_parser/args.go"],
  [("per-type parser table", "argument parser"), ("required and unexpected checks", "argument parser")],
  ["error returned", "process panic"]),

P("C19", "Built-ins report bad arguments and then yield NULL or nothing",
  "Every built-in function and plugin that declares arguments checks whether extracting them succeeded before using any of them; if it did not, it logs an error and yields NULL, or no rows, and the query continues. "
  "What a built-in declares about its arguments is what it actually accepts.",
  ["inputs", "programs"],
  "for every built-in and every invalid call",
  "Tests call few built-ins wrongly.",
  ["functions/", "plugins/", "scope/version.go"],
  [("error check after argument extraction", "all built-ins"), ("argument description registered from the same struct", "Info of all built-ins")],
  ["log", "value of the call"]),

P("C20", "Whatever is serialized can be restored",
  "Every kind of item that serializing a scope can produce has a registered way of restoring it, and serializing a stored definition includes everything needed to call it again: name, parameters, default values and body. "
  "A failure to serialize or restore is returned, not swallowed.",
  ["programs", "configurations"],
  "for every variable that can be in a scope",
  "Tests serialize a handful of variables and never one with defaults or unusual names.",
  ["marshal.go", "scope/marshal.go", "marshal/marshaller.go", "marshal/unmarshal.go"],
  [("type tag written by each marshaler", "marshal"), ("handler registered per type tag", "unmarshal")],
  ["restored scope"]),

P("C21", "Operators accept numbers of every Go width on either side",
  "Arithmetic, comparison, equality and truth operators accept every Go integer and floating point type on either side: a whole number with a whole number gives the whole-number result, and if either side is a float the operation is done in floating point; division is always done in floating point. "
  "No pair of numeric types silently falls through to NULL or false, and NULL on either side of arithmetic gives NULL.",
  ["inputs"],
  "for all pairs of the numeric types and NULL",
  "There are over a hundred pairs per operator; tests use two or three types.",
  ["protocols/protocol_add.go", "protocols/protocol_sub.go", "protocols/protocol_mul.go", "protocols/protocol_div.go", "protocols/protocol_eq.go", "protocols/protocol_lt.go", "protocols/protocol_gt.go", "protocols/protocol_bool.go", "utils/utils.go"],
  [("type switches over the numeric types", "protocol dispatchers"), ("numeric conversion helpers", "utils")],
  ["value of the expression"]),

P("C22", "No value a query can produce crashes the engine",
  "Evaluation code never assumes the type or non-nilness of a value that a query, plugin or function supplies: it tests before it converts, indexes, dereferences or reflects on it. "
  "The only failures visible to the user are NULL, an empty result or a logged error.",
  ["inputs", "programs"],
  "for every value of every type reaching any evaluation step",
  "A crash needs the one value type some step does not expect.",
  ["protocols/", "arg_parser/", "functions/", "utils/", "vfilter.go", "types/"],
  [("comma-ok assertions, nil tests before reflection", "evaluation code")],
  ["process panic"]),

P("C23", "ORDER BY uses one consistent order and DESC is its exact reverse",
  "The comparison that sorts rows is a strict order on the sort column: a row never sorts before an equal one, two rows never each sort before the other, and DESC is the exact reverse of the default direction. "
  "NULL values and rows without the column take a fixed place.",
  ["inputs"],
  "for all pairs of rows",
  "Inconsistencies show only for ties, NULLs and missing columns in particular arrangements.",
  ["sort/sort.go", "vfilter.go", "vfilter_group.go"],
  [("less function over the less-than protocol", "sorter")],
  ["order of rows"]),

P("C24", "Derived scopes inherit what they must and isolate what they must",
  "A nested scope sees its parent's variables, registries, context, throttler and explain setting, and variables added to it are not visible in the parent. "
  "A new independent scope, or one with a fresh context, keeps every registered function, plugin, protocol, sorter, grouper, materializer, logger and explainer, and later registrations in an independent scope do not appear in the original.",
  ["configurations", "histories"],
  "for every configuration of the original scope and every later change of either",
  "Tests derive scopes from default configurations only.",
  ["scope/scope.go", "scope/dispatcher.go"],
  [("field by field copy", "scope copy, new scope, dispatcher copy, new context")],
  ["behaviour of queries in the derived scope"]),

P("C25", "Every stage of a query passes each of its rows on exactly once",
  "A row that a stage of a query (LIMIT, ORDER BY, WHERE, foreach, chain, a sub-query, a stored query, a materialized list, a symbol, the result channel or the JSON output) receives is handed to the next stage exactly once, unless the query was cancelled, a condition of the query refused the row, a LIMIT was reached or handing it on failed. "
  "A list of rows is gone through from its first to its last element, and no stage ends before it has seen the end of its rows.",
  ["inputs", "histories", "schedules"],
  "for every sequence of rows of any values and any length",
  "Tests use a few rows of ordinary values; a row lost for its value, its position or the number of rows before it is in none of them.",
  ["vfilter.go", "vfilter_group.go", "sort/sort.go", "grouper/grouper.go", "plugins/", "stored.go", "types/", "materializer/", "api.go"],
  [("receive and hand over of rows", "every loop over a stream or list of rows")],
  ["rows of a result"]),

P("C30", "Formatted queries parse back to the same query",
  "Parsing the text produced by formatting any parsed query gives a query with the same meaning.",
  ["programs"], "for every query", "Only sample queries are round-tripped.",
  ["visitor.go", "vfilter.go"], [("visitor output", "visitor")], ["parse of the formatted text"]),
P("C31", "Results have the documented values",
  "Arithmetic, string, date and conversion functions compute the mathematically or textually right value for all inputs.",
  ["inputs"], "for all operand values", "Only samples are compared.",
  ["protocols/", "functions/", "utils/unquote.go"], [("implementations", "protocols, functions")], ["value"]),
P("C32", "GROUP BY partitions and ORDER BY permutes the input rows",
  "Every input row contributes to exactly the group of its key, and sorting emits exactly the input rows, in order.",
  ["inputs"], "for all row multisets", "Only samples.",
  ["grouper/grouper.go", "sort/sort.go"], [("bins", "grouper")], ["rows"]),
P("C33", "Batched results respect their row and time limits",
  "Each batch holds at most the requested number of rows and is delivered no later than the requested time.",
  ["schedules", "inputs"], "for all row timings", "Timing dependent.",
  ["api.go"], [("deadline and row count", "batching API")], ["payloads"]),
P("C34", "Throttling limits the rate of evaluation",
  "With a throttler of rate r, no more than r operations per second are charged over any window.",
  ["schedules"], "for all workloads", "Timing dependent.",
  ["throttle.go"], [("ticker", "throttler")], ["rate"]),
]

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in ALL:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
