------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* The whole library as a state machine over the public calls: a world has  *)
(*   heap   the objects made by the user (fragments, columns, builders, ...) *)
(*   ctxs   contexts: their root and their scopes of functions              *)
(*   roots  root contexts: placeholder style, argument list, (ghost) texts   *)
(*          built so far with the values they designate                     *)
(*   given  the arguments handed out by builds so far; those of a query are   *)
(*          the caller's own, those of a context are only read               *)
(* Apply(w, e) is the world after call e, and the outcome expected.          *)
(***************************************************************************)
EXTENDS Build, Interp, Rows

World0 == [heap |-> <<>>, ctxs |-> <<>>, roots |-> <<>>, given |-> <<>>]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Env0 == <<BuiltIns>>
Done == [s |-> "ok"]

Mutate(n, e) ==
  CASE e.m = "raw" -> [n EXCEPT !.raw = e.raw]
    [] e.m = "prefix" -> [n EXCEPT !.prefix = e.raw]
    [] e.m = "suffix" -> [n EXCEPT !.suffix = e.raw]
    [] e.m = "args" -> [n EXCEPT !.args = e.args]
    [] e.m = "aargs" -> [n EXCEPT !.args = @ \o e.args]
    [] e.m = "frags" -> [n EXCEPT !.frags = e.frags]
    [] e.m = "afrags" -> [n EXCEPT !.frags = @ \o e.frags]

CallBuilder(q, e) ==
  CASE e.m = "from" -> QFrom(q, [name |-> e.t.name, alias |-> e.t.alias])
    [] e.m = "join" -> QJoin(q, e.kind, [name |-> e.t.name, alias |-> e.t.alias],
                             IF e.kind = "CROSS JOIN" \/ e.on.k = "none" THEN [k |-> "nilfrag"] ELSE e.on,
                             e.opt /\ e.kind = "LEFT JOIN")
    [] e.m = "select" -> QSelect(q, e.cols)
    [] e.m = "where" -> QWhere(q, e.n)
    [] e.m = "where2" -> QWhere(q, Where2Cond(e.col, e.cmp, e.v))
    [] e.m = "in" -> QWhere(q, InCond(e.col, e.not, Flat(e.list)))
    [] e.m = "group" -> QGroup(q, e.cols)
    [] e.m = "order" -> QOrder(q, e.col, e.dir)
    [] e.m = "limit" -> QLimit(q, e.num)
    [] e.m = "offset" -> QOffset(q, e.num)
    [] e.m = "union" -> QUnion(q, e.ns)
    [] e.m = "with" -> QWith(q, e.name, e.n, e.deps)
    [] e.m = "distinct" -> QDistinct(q)
    [] e.m = "debug" -> q

\* a new object
Object(n) == IF n.k = "qb" THEN EmptyQuery ELSE n

\* builds node n in a new context
Query(w, n, style) == Outcome(BuildNode(w.heap, n, style, <<>>, Env0))

\* ctx and node -> outcome of building in that context
InContext(w, e) ==
  LET c == w.ctxs[e.ctx] r == w.roots[c.root]
  IN  Outcome(BuildNode(w.heap, e.n, r.style, r.store, c.env))

\* which arguments a build which fails leaves behind is not specified; a recorded
\* call tells the arguments observed after the last success
Grown(w, root, x, e) ==
  LET seen(s) == IF "res" \in DOMAIN e /\ e.res.s = "ok" THEN e.res.args ELSE s
  IN  [w EXCEPT !.roots[root] =
         IF x.s = "ok" THEN [@ EXCEPT !.store = x.store, !.texts = Append(@, [t |-> x.t, r |-> x.r]), !.seen = seen(@)]
         ELSE [@ EXCEPT !.store = x.store, !.tainted = TRUE, !.seen = seen(@)]]

\* a recorded call tells what was handed out
HandedOut(w, x, e, own) ==
  LET o == IF "res" \in DOMAIN e THEN [s |-> e.res.s, a |-> e.res.args]
           ELSE [s |-> x.s, a |-> IF x.s = "ok" THEN x.store ELSE <<>>]
  IN  IF o.s = "ok" THEN [w EXCEPT !.given = Append(@, [own |-> own, args |-> o.a])] ELSE w

\* the caller overwrites the arguments which are its own
Scribble == [t |-> "string", v |-> "scribble"]
Scribbled(w) ==
  [w EXCEPT !.given = [i \in 1..Len(@) |-> IF @[i].own THEN [@[i] EXCEPT !.args = [j \in 1..Len(@) |-> Scribble]] ELSE @[i]]]


GateEnv == <<[gate |-> [kind |-> "func", id |-> "gate", in |-> <<>>, var |-> FALSE, out |-> <<>>,
                        beh |-> [k |-> "echo"]]]>> \o Env0

ScanOutcome(w, s) ==
  LET b == IF s.kind \in {"scanb", "countb"} THEN Query(w, s.n, s.style)
           ELSE [s |-> "ok", t |-> s.raw, store |-> s.args]
      r == RowsRun(s, RowsInit)
  IN  IF b.s # "ok" THEN [s |-> b.s, queries |-> 0, opened |-> 0, closed |-> 0, rows |-> <<>>, count |-> "0",
                          query |-> "", args |-> <<>>]
      ELSE [s |-> IF r.err THEN "err" ELSE "ok", queries |-> 1, opened |-> r.opened, closed |-> r.closed,
            rows |-> r.out, count |-> r.n,
            query |-> IF IsScan(s) THEN b.t ELSE CountQuery(b.t), args |-> b.store]

\* [w, x]: world after the call, outcome expected
Apply(w, e) ==
  CASE e.op = "def" -> [w |-> [w EXCEPT !.heap = Put(@, e.id, Object(e.node))], x |-> Done]
    [] e.op = "mut" -> [w |-> [w EXCEPT !.heap[e.id] = Mutate(@, e)], x |-> Done]
    [] e.op = "qb" -> [w |-> [w EXCEPT !.heap[e.id] = CallBuilder(@, e)], x |-> Done]
    [] e.op = "ctx" ->
         [w |-> [w EXCEPT !.ctxs = Put(@, e.id, [root |-> e.id, env |-> Env0]),
                          !.roots = Put(@, e.id, [style |-> e.style, store |-> <<>>, texts |-> <<>>, tainted |-> FALSE, seen |-> <<>>])],
          x |-> Done]
    [] e.op = "ctxf" ->
         IF LegalFuncs(e.funcs)
         THEN [w |-> [w EXCEPT !.ctxs = Put(@, e.id, [root |-> w.ctxs[e.parent].root,
                                                      env |-> <<Scope(e.funcs)>> \o w.ctxs[e.parent].env])],
               x |-> Done]
         ELSE [w |-> w, x |-> [s |-> "err"]]
    [] e.op = "build" -> LET x == InContext(w, e) IN [w |-> HandedOut(Grown(w, w.ctxs[e.ctx].root, x, e), x, e, FALSE), x |-> x]
    [] e.op = "commit" ->
         LET root == w.ctxs[e.ctx].root r == w.roots[root]
             x == [s |-> "ok", t |-> Placeholder(r.style, r.store, e.v), r |-> <<e.v>>,
                   store |-> Commit(r.style, r.store, e.v), style |-> r.style, log |-> <<>>]
         IN  [w |-> HandedOut(Grown(w, root, x, e), x, e, FALSE), x |-> x]
    [] e.op = "query" -> LET x == Query(w, e.n, e.style) IN [w |-> HandedOut(w, x, e, TRUE), x |-> x]
    [] e.op = "recall" -> [w |-> w, x |-> [s |-> "recall", lists |-> [i \in 1..Len(w.given) |-> w.given[i].args]]]
    [] e.op = "scribble" -> [w |-> Scribbled(w), x |-> Done]
    [] e.op = "both" -> [w |-> w, x |-> [s |-> "both", d |-> Query(w, e.n, "$"), q |-> Query(w, e.n, "?")]]
    [] e.op = "insp" -> [w |-> w, x |-> [s |-> "ok", n |-> w.heap[e.id]]]
    [] e.op = "parse" ->
         LET p == Parse(e.raw)
             big == \E i \in 1..Len(p.exprs) : BigIndex(p.exprs[i])
         IN [w |-> w, x |-> [s |-> IF p.unspec \/ big THEN "unspec" ELSE IF p.ok THEN "ok" ELSE "err", exprs |-> p.exprs]]
    [] e.op = "interp" -> [w |-> w, x |-> Interpolated(e.raw, e.args, e.fmt)]
    [] e.op = "interpq" ->
         LET d == Query(w, e.n, "$") q == Query(w, e.n, "?")
         IN [w |-> w, x |-> [s |-> "both", d |-> d, q |-> q,
                             di |-> IF d.s = "ok" THEN Interpolated(d.t, d.store, e.fmt) ELSE [s |-> d.s, t |-> ""],
                             qi |-> IF q.s = "ok" THEN Interpolated(q.t, q.store, e.fmt) ELSE [s |-> q.s, t |-> ""]]]
    [] e.op = "flat" -> [w |-> w, x |-> [s |-> "ok", store |-> Flat(e.list), lists |-> <<Flat(e.list)>>]]
    [] e.op = "scan" -> [w |-> w, x |-> ScanOutcome(w, e.scan)]
    [] e.op = "conc" ->
         [w |-> w, x |-> [s |-> "conc",
                          outs |-> [i \in 1..Len(e.conc.builds) |->
                                      Outcome(BuildNode(w.heap, e.conc.builds[i].n, e.conc.builds[i].style, <<>>, GateEnv))]]]
=============================================================================
