#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Every placeholder resolves to the argument its reference designates",
 "Whenever a fragment tree builds successfully, each placeholder of the text, taken left to right, resolves through the argument list (by position for '?', by number for '$n') to exactly the argument value which the template reference at that place designates. No returned argument is left without a placeholder, and in the '?' style there are exactly as many arguments as placeholders. Valid trees always build.",
 ["inputs", "programs"], "all fragment trees (any nesting, sharing and repetition of fragments, direct references, #arg, #f and #join, custom builders committing arguments), both styles, all argument values",
 "The tests check 20 fixed trees; binding is a relation between every reference of an arbitrary tree and the argument list, and breaks only for particular combinations (repeated fragments, joins ending early, many arguments).",
 ["build.go", "context_args.go", "context_fragment.go", "func_builtin.go", "properties.go"],
 [("buildClause", "build.go"), ("argStore.CommitArg", "context_args.go"), ("funcJoin / checkpoint", "func_builtin.go")],
 ["Fragment.BuildQuery / BuildFragment results, Context.Args()"],
 [{"name": "args", "meaning": "arguments committed so far", "where": "context_args.go"}])

prop("C02", "Both placeholder styles build the same query",
 "For every fragment tree or query builder, building with the dollar style and with the question style either both fail or both succeed, and then give the same text except for the placeholders and the same sequence of argument values when each placeholder is resolved.",
 ["inputs", "configurations"], "all fragment trees and query builders, the two output styles, independent of the style used inside the templates",
 "Tests build a given tree in one style; only one example builds a query in both.",
 ["context_args.go", "context.go", "build.go", "sqlb/query_builder_build.go"],
 [("dollarArgStore / questionArgStore", "context_args.go"), ("clause building order", "sqlb/query_builder_build.go")],
 ["BuildQuery(Dollar) against BuildQuery(Question)"])

prop("C03", "Dollar numbers are dense, in first-use order, shared exactly by equals",
 "In the dollar style the placeholders of a query use the numbers 1..n of its n arguments, numbered in order of first appearance. Two references share a number exactly when their argument values are of the same type and equal; values of types which cannot be compared are never merged, and they never make a build fail.",
 ["inputs"], "all sequences of argument values of any types (ints of all sizes, strings, bools, nil, floats incl. NaN, byte slices, maps, structs), any number of them, referenced any number of times, within and across fragments and query builder clauses",
 "One test merges two equal ints; equality across types, non-comparable values and many arguments are not sampled.",
 ["context_args.go"], [("dollarArgStore.CommitArg", "context_args.go"), ("dollarArgStore.Truncate", "context_args.go")],
 ["placeholder numbers in the text, Context.Args()"])

prop("C04", "Text outside references is preserved verbatim",
 "Everything in a template that is not a placeholder or a preprocessing call appears in the built text exactly as written and in the same order, for every character including newlines, control characters, NUL, multi-byte and invalid UTF-8. Nothing inside single quotes, double quotes or backquotes is interpreted, and doubled '??' and '$$' are ordinary text.",
 ["inputs"], "all template strings, alone and nested through fragments, joins, prefixes and suffixes",
 "Tests use a few ASCII templates; fidelity quantifies over all strings and over the boundary between text and references.",
 ["syntax/scanner.go", "syntax/lexer.go", "syntax/parser.go", "build.go"],
 [("scanPlain / scanQuotedPlain", "syntax/scanner.go"), ("lexerHelper.Next", "syntax/lexer.go"), ("buildClause", "build.go")],
 ["built text with placeholders masked"])

prop("C05", "The template grammar: what is accepted, rejected and how it is read",
 "For every string, parsing either reports an error or returns the text, placeholders and calls of the template in order: '?' placeholders are numbered from 1, '$n' has index n without leading zero, calls carry their name and their number, string, bool and null arguments, and each reference carries the line and column where it begins. Templates mixing '?' and '$n' in either order, malformed placeholders, calls with malformed or unterminated arguments and '#' without a name are rejected.",
 ["inputs"], "all strings (exhaustively up to a bounded length over the characters that matter to the grammar, randomly beyond)",
 "The parser and scanner tests list 13 strings, and do not even check that the strings expected to fail do fail.",
 ["syntax/parser.go", "syntax/scanner.go", "syntax/lexer.go", "syntax/nodes.go", "syntax/pos.go"],
 [("scanner state functions", "syntax/scanner.go"), ("parser.Parse", "syntax/parser.go")],
 ["syntax.Parse result: expressions, argument values, Pos"])

prop("C06", "References are local to their own fragment",
 "A reference inside a fragment designates only the arguments and fragments of that very fragment: never those of an enclosing, nested or sibling fragment, whatever their number. What a fragment contributes to a query (its text and argument values) is therefore the same wherever it is placed and whatever surrounds it.",
 ["inputs", "programs"], "all fragment trees, positions of a fragment in a tree (direct, joined, shared by several parents, inside a query builder clause)",
 "Tests have a handful of two-level trees; locality is a relation between all placements of a fragment.",
 ["context_fragment.go", "contex_with.go", "build.go", "func_builtin.go"],
 [("contextWithFragment", "context_fragment.go"), ("Context.fragment / contextValue", "context_fragment.go, contex_with.go")],
 ["BuildFragment of the same fragment alone and nested"])

prop("C07", "#join expands every index of its range, in order, and only that",
 "#join builds its template once per index, from 1 or the given start up to the given end or the last index available to all of the template's functions, in order, and writes the separator only between non-empty items. An index given explicitly (range bounds, a call inside the template) which does not exist is an error, and an error inside a joined item is reported, never taken as the end of the list. The attempt which finds the end of the list leaves nothing behind: no argument, no text, no use.",
 ["inputs"], "all templates (several functions, text, calls and placeholders mixed), separators, ranges, list lengths including 0 and unequal ones, nested joins, custom functions",
 "Tests cover four joins; how the end of a list is found interacts with ranges, unequal lists, nested errors and argument commits.",
 ["func_builtin.go", "errors.go", "properties.go", "context_args.go", "func.go"],
 [("funcJoin", "func_builtin.go"), ("isIndexExhausted / contentError", "errors.go"), ("Context.checkpoint", "context_args.go"), ("joinCompatibility", "func.go")],
 ["built text, arguments and error of templates with #join"])

prop("C08", "Nothing is silently dropped: unused or unresolvable references fail",
 "A build fails if any fragment reached by the build has an argument or a sub-fragment which none of its references used, or has a reference (placeholder, #arg, #f, unknown function) which does not exist, at any depth and through any join or function. A failed BuildQuery returns neither text nor arguments.",
 ["inputs"], "all fragment trees with an extra, missing or dangling element at any position and depth",
 "One test expects an error at all; the place of the defect in the tree is quantified.",
 ["context_fragment.go", "properties.go", "property.go", "build.go", "func_exec.go"],
 [("FragmentContext.checkUsage", "context_fragment.go"), ("Properties.Build", "properties.go"), ("buildClause index check", "build.go")],
 ["error result of BuildQuery / BuildFragment"])

prop("C09", "Prefix and suffix appear exactly around non-empty fragments",
 "The text of a fragment is its body with surrounding white space trimmed; when that is empty the fragment contributes nothing, otherwise its prefix and a space precede it and a space and its suffix follow it, each only if set. Nil fragments contribute nothing.",
 ["inputs"], "all fragment trees with any combination of prefixes, suffixes, white space, empty and nil fragments at any depth and in joins",
 "Two tests with one level; emptiness propagates through nesting, joins and white space.",
 ["build.go", "fragment.go"], [("Fragment.BuildFragment", "build.go")], ["built text"])

prop("C10", "Building changes nothing it was given and can be repeated",
 "Building a fragment does not change it nor any fragment it refers to, so that building the same objects again, in any order, interleaved with other builds and in either style, gives the same result each time as if it were the first. After the user modifies a fragment, the next build reflects exactly the modified contents, including through every other fragment referring to it.",
 ["histories"], "all histories of creating, modifying (WithArgs, AppendArgs, WithFragments, AppendFragments, WithPrefix, WithSuffix), inspecting and building shared fragments",
 "Tests build every object once; repeatability quantifies over histories.",
 ["build.go", "fragment.go", "context_fragment.go", "property.go"],
 [("newFragmentContext: per-build usage state", "context_fragment.go"), ("Fragment setters", "fragment.go")],
 ["results of successive builds; exported fields of Fragment after builds"])

prop("C11", "Concurrent builds of shared fragments do not affect each other",
 "Builds running concurrently in different contexts, of the same fragments or query builders, give each the result it would give alone, under every interleaving, and without data races. The same goes for interpolating what they built.",
 ["schedules"], "all interleavings of two or more builds, down to the level of single references",
 "The tests never build anything concurrently.",
 ["build.go", "context.go", "context_args.go", "property.go", "sqlb/query_builder_build.go", "util/interpolate.go"],
 [("per-context argument store and usage", "context_args.go, context_fragment.go"), ("read-only use of Fragment and QueryBuilder in builds", "build.go, sqlb/query_builder_build.go")],
 ["results of builds interleaved by gates; race detector"])

prop("C12", "Builds never panic and always terminate",
 "Whatever the template text, arguments, argument types, call arguments, nil fragments or columns, and whatever a custom function does (return an error, panic with any value), Parse, building and interpolating return normally, with a result or an error.",
 ["inputs", "fault_sequences"], "all template strings, argument types, malformed calls, nil fragments and columns at any place, failing and panicking custom functions at any call",
 "Tests exercise almost no malformed input and no panicking function.",
 ["func_exec.go", "build.go", "context_args.go", "syntax/parser.go", "util/interpolate.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_join.go"],
 [("safeCall", "func_exec.go"), ("evalArg", "func_exec.go"), ("hashable", "context_args.go")],
 ["return or panic of every public entry point"])

prop("C13", "Custom functions: legal signatures are accepted and called as written",
 "Registering functions succeeds exactly for non-empty names of ASCII letters and underscores and for functions taking an optional leading context, then numbers, strings and bools (the last possibly variadic) and returning nothing, a string, or a string and an error. A call in a template runs the function exactly once with the arguments written, converted to the declared types, and inserts its result; a wrong number or kind of arguments, a returned error or a panic fails the build.",
 ["inputs", "programs"], "all function signatures over the Go types, all names, all argument lists",
 "One custom function is registered in the tests.",
 ["func.go", "func_exec.go", "context_func.go"],
 [("addValueFuncs / goodName / goodFunc", "func.go"), ("evalCall / evalArg / safeCall", "func_exec.go")],
 ["ContextWithFuncs error, recorded calls of registered functions, built text"])

prop("C14", "Function scopes: the innermost registration wins and stays local",
 "A function called in a template is the one registered in the nearest enclosing context, so that a context derived from another can add functions and replace inherited ones, the built-in ones included, while the context it derives from and other contexts are not affected.",
 ["programs", "histories"], "all trees of derived contexts, registrations overriding each other at any level, builds in any of the contexts in any order",
 "One test derives a single context.",
 ["context_func.go", "contex_with.go", "context.go", "func.go"],
 [("Context.fn / contextValue", "context_func.go, contex_with.go"), ("ContextWithFuncs", "context_func.go")],
 ["which function produced the text"])

prop("C15", "A context accumulates the arguments of all builds made in it",
 "All fragments, query builders and custom builders built in the same context, or in contexts derived from it, share one argument list which only grows: what was committed before keeps its place, later builds continue its numbering (merging equal values in the dollar style), and the placeholders of every text built so far keep resolving to the values they designated.",
 ["histories"], "all sequences of successful builds and direct commits in a context and contexts derived from it",
 "Tests build once per context.",
 ["context_args.go", "contex_with.go", "context.go"],
 [("Context.root / CommitArg / Args", "context_args.go, contex_with.go")],
 ["Context.Args() after each build, all texts built so far"])

prop("C16", "A query contains exactly the clauses requested, in SQL order",
 "The query of a builder is, as a function of the calls made on it: CTEs, SELECT list (replaced by the last non-empty selection) with DISTINCT if requested, FROM with the joins in order of first declaration (a join of an already joined name replaces it in place), the conditions joined with AND, GROUP BY, ORDER BY, positive LIMIT and OFFSET, and the unions, each present exactly when it is non-empty. Columns are written with the alias, or else the name, of their table, or bare when anonymous, and the arguments of the query are bound as written in any style.",
 ["histories"], "all sequences of builder calls with all kinds of joins, aliases, repeated and replacing calls, nested builders as subqueries, CTEs and unions",
 "Five examples of fixed queries.",
 ["sqlb/query_builder.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "sqlb/query_builder_where.go", "sqlb/table.go", "sqlb/table_aliased.go", "sqlb/table_column.go"],
 [("buildInternal", "sqlb/query_builder_build.go"), ("join replace", "sqlb/query_builder_join.go")],
 ["QueryBuilder.BuildQuery text and arguments"])

prop("C17", "Join elimination drops exactly the optional joins nothing needs",
 "Joins are omitted only from SELECT DISTINCT queries and only when declared optional. An optional join is kept if and only if its table is referenced by the select list, conditions, grouping, ordering, or the join condition of a kept table, so that no kept part of the query ever refers to an omitted table.",
 ["histories", "inputs"], "all sets of joins, reference graphs between their conditions (chains, cycles, sharing), and columns used in any clause, also inside expressions",
 "Two examples, without chained conditions.",
 ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go"],
 [("collectDependencies / collectDepsFromTable / extractTables", "sqlb/query_builder_dependecy.go"), ("buildFrom", "sqlb/query_builder_build.go")],
 ["FROM clause of the built query"])

prop("C18", "A query declares exactly the CTEs it needs, before their use",
 "The WITH clause contains exactly the declared CTEs which a table of the FROM clause names, plus those reachable from them through declared dependencies, each once and in declaration order; CTEs building to nothing are left out. Aliases, missing aliases, eliminated joins and dependency cycles do not change this. (CTEs have distinct names; declaring one name twice is not covered.)",
 ["histories", "inputs"], "all sets of CTEs, dependency graphs, and FROM/join tables naming them with or without alias",
 "Two examples with one used CTE without dependencies.",
 ["sqlb/query_builder_with.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go"],
 [("collectDepsFromCTE", "sqlb/query_builder_dependecy.go"), ("buildCTEs", "sqlb/query_builder_build.go")],
 ["WITH clause of the built query"])

prop("C19", "Misuse of a query builder fails every build, never yields broken SQL",
 "A builder without FROM table, without selected columns, with an empty table name, a FROM table and a join of the same name, an unknown ordering, or a column of a table which it does not select from or join (in any clause or kept join condition) returns an error, on the first and on every later build. A builder without such a defect builds.",
 ["histories"], "all builder call sequences containing any of the misuses at any point, followed by any number of builds",
 "No test expects an error from a query builder.",
 ["sqlb/query_builder_errors.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_order.go", "sqlb/query_builder_join.go", "sqlb/query_builder_build.go"],
 [("pushError / anyError", "sqlb/query_builder_errors.go"), ("from undefined check", "sqlb/query_builder_dependecy.go")],
 ["error of QueryBuilder.BuildQuery / BuildFragment"])

prop("C20", "Builds do not change a query builder nor what was given to it",
 "Building a query builder any number of times, in any style, standalone or as part of another query, never changes what it or the columns and fragments given to it build afterwards. Calls made between builds have exactly the effect they would have had without those builds.",
 ["histories"], "all interleavings of builder calls and builds, sharing columns, conditions and builders between several queries",
 "One example builds twice, without DISTINCT or ordering.",
 ["sqlb/query_builder_build.go", "sqlb/query_builder_order.go", "sqlb/query_builder_join.go"],
 [("prepareOrders: no state kept", "sqlb/query_builder_order.go"), ("join wraps the condition", "sqlb/query_builder_join.go")],
 ["results of successive builds; fields of shared fragments"])

prop("C21", "Ordering is by the requested columns, in both plain and DISTINCT queries",
 "ORDER BY lists the requested orderings in order, each with its direction and nulls placement. In DISTINCT queries each ordering column is appended after the user's columns in the select list under a unique alias by which it is ordered, so that the user's columns keep their position; otherwise the select list is not touched.",
 ["histories", "inputs"], "all lists of orderings (any number, repeated columns, expression columns with arguments, all six directions), with and without DISTINCT",
 "No test has an ordering at all.",
 ["sqlb/query_builder_order.go", "sqlb/query_builder_build.go"],
 [("prepareOrders", "sqlb/query_builder_order.go"), ("buildSelects", "sqlb/query_builder_build.go")],
 ["SELECT and ORDER BY clauses of the built query"])

prop("C22", "Flattening keeps every first-level element, once, in order",
 "ArgsFlatted returns the concatenation, in order, of the elements of each slice, array or non-nil pointer to one that it is given, and of every other value itself, with values and types unchanged and nested slices left alone. WhereIn and WhereNotIn bind exactly that list, one placeholder per element. What is returned or bound are the elements at the time of the call: modifying it or the slices given later does not affect the other.",
 ["inputs"], "all lists of values, slices, arrays, pointers to them, nil and empty ones, of all element types and lengths",
 "Eight fixed lists with three element types.",
 ["util/args.go", "sqlb/query_builder_where.go"],
 [("argsFrom / convertArrayReflect", "util/args.go"), ("WhereIn", "sqlb/query_builder_where.go")],
 ["ArgsFlatted result, WhereIn query"])

prop("C23", "Interpolation replaces placeholders by literals of the same values",
 "Interpolate returns the query text unchanged except that each placeholder outside of quotes is replaced by a literal of its argument: NULL, TRUE/FALSE, a number that reads back as the same value, a quoted time, or a quoted string, in both of which quotes are doubled so that no argument can end its literal early. A negative number after a minus is set apart by a space, so that no comment starts. Arguments which are missing or of unsupported type are an error, and a query built in either style interpolates to the same text.",
 ["inputs"], "all query texts and argument lists (strings with quotes and placeholders, numbers, nil, valuers, stringers, times)",
 "One example.",
 ["util/interpolate.go", "syntax/parser.go"],
 [("Interpolate / encodeValue / quoteStringValue", "util/interpolate.go")],
 ["Interpolate result"])

prop("C24", "Scanning returns all rows or an error, and releases the rows",
 "Scan returns one result per row of the query, in order, each filled from the leading columns while extra columns are dropped; if the query, the columns, scanning a row or advancing to any next row fails, it returns that error and no results. The rows are always closed before it returns, the builder variants run exactly the built query with its arguments or fail with the build error, and Count returns the number or the error.",
 ["fault_sequences", "inputs"], "all row counts, column counts, and a failure at any step of the row protocol",
 "The tests never run Scan or Count (their database is nil).",
 ["util/scan.go"], [("Scan / ScanRow / Count", "util/scan.go")],
 ["results, error, and the calls received by a database driver"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
