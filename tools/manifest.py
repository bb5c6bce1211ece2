#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
"C01": ("interprocedural context-provenance dataflow and blocking-operation rule over SSA", "every send, select and context argument of the module is an obligation; callers outside the module are assumed to keep to the context convention"),
"C02": ("path-sensitive interprocedural channel typestate over SSA", "every row channel made in the module, all exits, deferred calls and goroutine hand-overs; panics are not followed"),
"C03": ("path-sensitive typestate over SSA: every abandoned row stream was cancelled", "every row stream consumed in the module; abandonment is judged at the exit of the consuming loop"),
"C04": ("path-sensitive ownership typestate of nested scopes over SSA", "every Scope.Copy in the module, all exits and hand-overs; panics are not followed"),
"C05": ("path-sensitive ownership typestate of nested scopes over SSA: no close before the streams and lazy values that captured the scope are finished", "every close of a nested scope in the module"),
"C06": ("abstract interpretation of registering, taking and finishing over SSA with the shared state unknown again at every critical section; induction analysis of the loop that runs what was taken; path checks for waiting and for the list of nested scopes", "clean-up that exceeds the time-out is overtaken; of two goroutines closing the same scope one may return early"),
"C07": ("lock-set dataflow over SSA: guarded-by inference for fields and globals, escape of fresh objects, lock copies, goroutine-shared variables", "every field access of a shared structure in the module; set-up operations and reflection are assumptions"),
"C08": ("lock-set dataflow over SSA with call-graph summaries: release on all exits, no re-acquisition, no waiting or open call under a lock, acyclic lock order", "every lock operation of the module; custom protocol implementations are an assumption"),
"C09": ("effect analysis of assignments, list operations and map updates on parsed nodes; interprocedural backward dependence trace of remembered values; two-run abstract interpretation comparing an evaluation that remembers with the one that computed", "every field of every struct the grammar fills and every field of a stored definition; the function object of a call site is kept by design (C16)"),
"C10": ("interprocedural conditional constant propagation and value numbering over SSA, specialised per operator token of the grammar and per outcome of the primitive comparisons", "every operator spelling of the struct-tag grammar and lexer table; participle itself is an assumption"),
"C11": ("interprocedural abstract interpretation over SSA, specialised to operands of an unknown type and to lazy operands: path facts at every use of a protocol implementation, list-exhaustion facts at every other return", "every operator of every protocol dispatcher with custom operands on either side; what Applicable answers is an assumption"),
"C12": ("interprocedural abstract interpretation over SSA, specialised per pair of operand types: value facts at every division, repetition and string join, bounds discharged by interval and case reasoning", "every pair of the twelve numeric types and string; registered protocol implementations are an assumption"),
"C14": ("abstract interpretation of the row pipeline over SSA in the worlds of the WHERE condition; constant propagation with the loop unrolled for LIMIT; comparison of the query handed to the next stage", "conditions absent, true, false and nil with endless rows; limits -1 to 6; LIMIT, ORDER BY and GROUP BY stages; truth itself is C10/C11"),
"C13": ("interprocedural conditional constant propagation and value numbering over SSA, specialised to the truth of the deciding operand or condition; abstract two-run check of memoised values", "every AND/OR spelling, every built-in with condition/then/else, every lazily declared argument, every memoised lazy value; ReduceWithScope asks for a new computation"),
"C15": ("call-graph cycle analysis over SSA with the scope argument of every edge traced to its nested copy; abstract interpretation of the depth counter and the depth check", "every call of the module, interface calls resolved to the types that occur as query values; plugins of the embedder and running time below the limit are assumptions"),
"C16": ("abstract interpretation of the copy, the update, the scope and the grouper over SSA, with an effect check of what an update may touch; dominance and lockset checks of the copy kept with an occurrence", "what the new state is, beyond that it depends on the previous one; aggregates of other modules; that state outlives an evaluation in one scope is by design"),
"C17": ("abstract interpretation of the formatter over SSA, specialised to every form of every grammar node: each captured part must reach the emitted text on every live way through, text dependence, token-boundary and comment-placement checks against the struct-tag grammar", "every captured field of every node and every form of it; the parser engine and that emitted text re-parses to an equal meaning are not decided"),
"C20": ("static tracing over SSA of what is encoded and decoded: kind tables compared, dependence trace of the definition text in worlds of present parts, quoting checked against unquoting, must-execute loops, lost-error dataflow", "every kind, every stored definition form, every loop over variables and every fallible call; encoding/json and embedder types are trusted"),
"C18": ("interprocedural abstract interpretation over SSA of the argument extraction and of every parser, specialised to worlds (argument present, refused, undeclared, of a fitting or another type), against the parser table read from the dispatch code", "every declared argument type and parser in the module; converters registered by other modules are an assumption"),
"C19": ("interprocedural abstract interpretation over SSA of every built-in in the world where its arguments are refused, with goroutines; declared-against-extracted comparison", "every function and plugin of the module that extracts declared arguments"),
"C21": ("interprocedural conditional constant propagation and value numbering over SSA, specialised per pair of operand types", "every pair of the twelve numeric types and NULL for every arithmetic, comparison, equality and truth operator; no registered implementation claims the pair (C11)"),
"C22": ("demand-driven path-condition analysis over SSA: absence facts, grammar capture combinations, reflection-kind sets and difference constraints with loop induction, carried through joins, helper functions, callers and closures", "every crashing construct of the module outside functions that recover; values handed in by the embedder and variables changed by several functions are assumptions"),
"C23": ("interprocedural abstract interpretation over SSA: the comparison handed to the sort library is decided on the finite set of row classes and comparison outcomes; callers specialised to each form of the clause", "every sorter in the module and every caller; assumes the less-than operator is a strict order on the values of one column"),
"C24": ("interprocedural abstract interpretation with a heap over SSA: provenance of every configured field in each derived scope, freshness where memory is changed in place; lookup order", "every field the configuration methods of Scope set, in Copy, NewScope and ClearContext"),
"C25": ("path-sensitive interprocedural typestate over SSA: one row followed from where it is received to where it is handed over; order and bounds of loops over lists of rows", "every receive of a row in a function that hands rows on, every loop over a list of rows; not the group a row is put in, nor columns inside a row"),
}
exec(open(os.path.join(os.path.dirname(__file__), "tech.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "tech.py")) else None
NA = {
"C30": "equality of meaning between a query and its re-parsed text quantifies over the language of an external parser engine and runtime strings; only the structural half (no part dropped) is static, claimed as C17",
"C31": "the values computed depend on run-time inputs; a static argument would have to re-implement each function as its own oracle",
"C32": "the multiset of rows per group and the permutation property depend on run-time data structures (maps keyed by values, sort library); no static bound in reach (the comparator itself is C23)",
"C33": "batch sizes and delivery times depend on timers and run-time arrival of rows",
"C34": "rates are a quantity of wall-clock time",
}
checks = []
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = []
for p in props:
    if p in TECH:
        t, n = TECH[p]
        checks.append({"property": p, "quick_cmd": "bash check.sh " + p, "thorough_cmd": "bash check.sh " + p,
                       "technique": "static analysis: " + t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "not decided yet: its analysis is under construction")})
doc = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(doc, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
