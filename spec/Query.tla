------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* The query builder: its state as a function of the calls made on it, the  *)
(* dependency analysis (join elimination, CTEs), and the plan of a build.   *)
(* Builders of all kinds are nodes (records with a field k); a heap H maps  *)
(* names of objects to nodes, [k |-> "ref", id] refers to an object.        *)
(***************************************************************************)
EXTENDS Funcs

NoTable == [name |-> "", alias |-> ""]
Applied(t) == IF t.alias # "" THEN t.alias ELSE t.name

EmptyQuery ==
  [ k |-> "qb", ctes |-> <<>>, main |-> NoTable, joins |-> <<>>, sels |-> <<>>,
    distinct |-> FALSE, wheres |-> <<>>, groups |-> <<>>, orders |-> <<>>,
    limit |-> "", offset |-> "", unions |-> <<>>, bad |-> FALSE ]

HasMain(q) == q.main.name # ""
JoinIx(q, applied) == SelectInSeq(q.joins, LAMBDA j : Applied(j.t) = applied)

---------------------------------------------------------------------------
(* The calls. Each is a function from the state of the builder to the next. *)

QFrom(q, t) ==
  IF t.name = "" \/ JoinIx(q, Applied(t)) # 0 THEN [q EXCEPT !.bad = TRUE]
  ELSE [q EXCEPT !.main = t]

QJoin(q, kind, t, on, opt) ==
  LET j == [kind |-> kind, t |-> t, on |-> on, opt |-> opt]
      i == JoinIx(q, Applied(t))
  IN  IF t.name = "" \/ (HasMain(q) /\ Applied(q.main) = Applied(t)) THEN [q EXCEPT !.bad = TRUE]
      ELSE IF i # 0 THEN [q EXCEPT !.joins[i] = j]
      ELSE [q EXCEPT !.joins = Append(@, j)]

QSelect(q, cols) == IF cols = <<>> THEN q ELSE [q EXCEPT !.sels = cols]
QWhere(q, n) == IF n.k = "nilfrag" THEN q ELSE [q EXCEPT !.wheres = Append(@, n)]
QGroup(q, cols) == [q EXCEPT !.groups = @ \o cols]
QOrder(q, col, dir) == [q EXCEPT !.orders = Append(@, [col |-> col, dir |-> dir])]
Positive(v) == v # "0" /\ ~HasPrefix(v, "-")
QLimit(q, v) == IF Positive(v) THEN [q EXCEPT !.limit = v] ELSE q
QOffset(q, v) == IF Positive(v) THEN [q EXCEPT !.offset = v] ELSE q
QUnion(q, ns) == [q EXCEPT !.unions = @ \o ns]
QWith(q, name, n, deps) == [q EXCEPT !.ctes = Append(@, [name |-> name, n |-> n, deps |-> ToSet(deps)])]
QDistinct(q) == [q EXCEPT !.distinct = TRUE]

\* conditions made by helpers
Cond(col, raw, args) ==
  [k |-> "frag", raw |-> raw, args |-> args, frags |-> <<col>>, prefix |-> "", suffix |-> ""]
Where2Cond(col, op, a) == Cond(col, "#f1" \o op \o "$1", <<a>>)
InCond(col, not, vals) ==
  Cond(col, "#f1" \o (IF not THEN " NOT" ELSE "") \o " IN (#join('#arg', ', '))", vals)

---------------------------------------------------------------------------
(* Flattening of values: a flat value is [k |-> "one", e |-> <<v>>], or      *)
(* [k |-> "many", e |-> the elements of a slice, an array or a pointer].     *)

Flat(list) == FoldLeft(LAMBDA a, x : a \o x.e, <<>>, list)

---------------------------------------------------------------------------
(* Dependency analysis.                                                     *)

\* a column of the table tn (with alias ta), written alone when anonymous
ColTable(n) == IF n.ta # "" THEN n.ta ELSE n.tn
ColText(n) ==
  IF n.anon \/ ColTable(n) = "" \/ n.name = "" THEN n.name ELSE ColTable(n) \o "." \o n.name

RECURSIVE Tables(_, _)
TablesOf(H, ns) == UNION {Tables(H, ns[i]) : i \in 1..Len(ns)}
\* tables which a node refers to
Tables(H, n) ==
  CASE n.k = "ref" -> Tables(H, H[n.id])
    [] n.k = "frag" -> TablesOf(H, n.frags)
    [] n.k = "col" -> IF ColTable(n) = "" THEN {} ELSE {ColTable(n)}
    [] n.k = "expr" -> Tables(H, n.frag)
    [] n.k = "table" -> {n.name}
    [] n.k = "tablea" -> {Applied(n)}
    [] OTHER -> {}

Joined(q) == {Applied(q.joins[i].t) : i \in 1..Len(q.joins)}
JoinOf(q, a) == q.joins[JoinIx(q, a)]
Sources(q) == Joined(q) \cup {Applied(q.main)}

\* tables referenced by the clauses other than FROM
Referenced(H, q) ==
  TablesOf(H, q.sels) \cup TablesOf(H, q.wheres) \cup TablesOf(H, q.groups)
    \cup TablesOf(H, [i \in 1..Len(q.orders) |-> q.orders[i].col])

Trimmable(q, j) == q.distinct /\ j.opt

OnTables(H, j) == Tables(H, j.on)

RECURSIVE NeedClosure(_, _, _)
NeedClosure(H, q, S) ==
  LET T == S \cup UNION {OnTables(H, JoinOf(q, a)) : a \in S \cap Joined(q)}
  IN  IF T = S THEN S ELSE NeedClosure(H, q, T)

\* all tables needed by the parts of the query which can't be omitted
Needed(H, q) ==
  NeedClosure(H, q, {Applied(q.main)} \cup Referenced(H, q)
                    \cup {Applied(q.joins[i].t) : i \in {i \in 1..Len(q.joins) : ~Trimmable(q, q.joins[i])}})

UndefinedTable(H, q) == ~(Needed(H, q) \subseteq Sources(q))
KeptJoins(H, q) == SelectSeq(q.joins, LAMBDA j : Applied(j.t) \in Needed(H, q))

CTENames(q) == {q.ctes[i].name : i \in 1..Len(q.ctes)}
RECURSIVE CTEClosure(_, _)
CTEClosure(q, S) ==
  LET T == S \cup (CTENames(q) \cap UNION {q.ctes[i].deps : i \in {i \in 1..Len(q.ctes) : q.ctes[i].name \in S}})
  IN  IF T = S THEN S ELSE CTEClosure(q, T)
NeededCTEs(H, q) ==
  CTEClosure(q, CTENames(q) \cap ({q.main.name} \cup {j.t.name : j \in ToSet(KeptJoins(H, q))}))
KeptCTEs(H, q) == SelectSeq(q.ctes, LAMBDA c : c.name \in NeededCTEs(H, q))

---------------------------------------------------------------------------
(* Misuse reported before anything is built.                                *)

QueryError(H, q) ==
  \/ q.bad \/ ~HasMain(q) \/ UndefinedTable(H, q)
  \/ \E i \in 1..Len(q.orders) : q.orders[i].dir \notin 0..5

Directions == <<"ASC", "ASC NULLS FIRST", "ASC NULLS LAST", "DESC", "DESC NULLS FIRST", "DESC NULLS LAST">>

\* nodes used by plans: a concatenation of parts, a list joined by a separator
T(s) == [p |-> "t", s |-> s]
N(n) == [p |-> "n", n |-> n]
Mix(parts) == [k |-> "mix", parts |-> parts]
List(pre, sep, items) == [k |-> "list", pre |-> pre, sep |-> sep, items |-> items]
OrderAlias(i) == "_order_" \o ToString(i)

TableText(t) == t.name \o (IF t.alias = "" THEN "" ELSE " AS " \o t.alias)
JoinNode(j) ==
  Mix(<<T(j.kind \o " " \o TableText(j.t) \o " "), N(List("ON", "", <<j.on>>))>>)

\* the parts of the query to build, in the order they are written
QueryPlan(H, q) ==
  LET ctes == KeptCTEs(H, q)
      joins == KeptJoins(H, q)
      orders == [i \in 1..Len(q.orders) |->
                   LET d == Directions[q.orders[i].dir + 1]
                   IN  IF q.distinct THEN Mix(<<T(OrderAlias(i) \o " " \o d)>>)
                       ELSE Mix(<<N(q.orders[i].col), T(" " \o d)>>)]
      touches == IF ~q.distinct THEN <<>>
                 ELSE [i \in 1..Len(q.orders) |-> Mix(<<N(q.orders[i].col), T(" AS " \o OrderAlias(i))>>)]
      step(tag, n) == [tag |-> tag, n |-> n]
  IN  [i \in 1..Len(ctes) |-> step("cte", ctes[i].n)]
      \o << step("select", List(IF q.distinct THEN "SELECT DISTINCT" ELSE "SELECT", ", ", q.sels)),
            step("touch", List("", ", ", touches)) >>
      \o [i \in 1..Len(joins) |-> step("join", JoinNode(joins[i]))]
      \o << step("where", List("WHERE", " AND ", q.wheres)),
            step("group", List("GROUP BY", ", ", q.groups)),
            step("order", List("ORDER BY", ", ", orders)) >>
      \o [i \in 1..Len(q.unions) |-> step("union", q.unions[i])]

\* the query from the texts built for the plan; "" with ok = FALSE if it's no query
Assemble(H, q, plan, texts) ==
  LET of(tag) == LET I == {i \in 1..Len(plan) : plan[i].tag = tag} IN
                 SetToSortSeq(I, <)
      txts(tag) == LET ix == of(tag) IN [j \in 1..Len(ix) |-> texts[ix[j]]]
      one(tag) == txts(tag)[1]
      ctes == KeptCTEs(H, q)
      cteIx == SelectSeq([i \in 1..Len(ctes) |-> i], LAMBDA i : texts[i] # "")
      with == IF cteIx = <<>> THEN ""
              ELSE "With " \o JoinTexts([j \in 1..Len(cteIx) |->
                                ctes[cteIx[j]].name \o " AS (" \o texts[cteIx[j]] \o ")"], ", ")
      sel == one("select") \o (IF one("touch") = "" THEN "" ELSE ", " \o one("touch"))
      from == "FROM " \o JoinTexts(<<TableText(q.main)>> \o txts("join"), " ")
      unions == NonEmpty(txts("union"))
      query == JoinTexts(NonEmpty(<<with, sel, from, one("where"), one("group"), one("order"),
                 IF q.limit = "" THEN "" ELSE "LIMIT " \o q.limit,
                 IF q.offset = "" THEN "" ELSE "OFFSET " \o q.offset>>), " ")
  IN  [ok |-> one("select") # "",
       text |-> Trim(Trim(query) \o (IF unions = <<>> THEN ""
                                    ELSE " UNION (" \o JoinTexts(unions, ") UNION (") \o ")"))]
=============================================================================
