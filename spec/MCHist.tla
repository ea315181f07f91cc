------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* Histories of the whole library: every sequence of public calls from a    *)
(* catalogue, up to a length. Domain picks the catalogue:                    *)
(*   ctx      contexts, derived contexts, builds and commits in them         *)
(*   frag     shared fragments: changed, built, inspected                    *)
(*   given    what builds hand out to the caller, who overwrites it            *)
(*   joins, ctes, order, clauses, misuse, builds   calls of query builders   *)
(***************************************************************************)
EXTENDS Model

CONSTANT Domain

VARIABLES w, h   \* the world, and the calls made so far (indexes in the catalogue)
vars == <<w, h>>

---------------------------------------------------------------------------
A == IntV("1")
B2 == StrV("b")

\* ctx
Say(id, in) == Fn(id, in, FALSE, <<"string">>, [k |-> "echo"])
GivesArg(id, v) == Fn(id, <<"ctx", "int">>, FALSE, StrErr, [k |-> "args", args |-> <<v>>])
Scoped == Fn("sc", <<"ctx">>, FALSE, StrErr,
             [k |-> "scope", n |-> Frag("#fn() #gn", <<>>, <<>>), funcs |-> <<Named("fn", Say("in", <<>>))>>])
CtxSetup ==
  << CtxOp("d", "$"), CtxOp("q", "?"), CtxfOp("e", "d", <<Named("fn", Say("e", <<>>))>>),
     CtxfOp("k", "q", <<Named("fn", Say("k", <<>>)), Named("gn", GivesArg("k", B2))>>) >>
CtxCalls ==
  << CtxfOp("g", "e", <<Named("gn", GivesArg("g", A)), Named("fn", Say("g", <<>>))>>),
     CtxfOp("s", "e", <<Named("gn", Say("s", <<>>)), Named("sn", Scoped)>>),
     CtxfOp("f", "d", <<Named("arg", Say("f", <<"int">>))>>),
     BuildOp("d", Frag("$1 $2", <<A, B2>>, <<>>)),
     BuildOp("d", Frag("#fn()", <<>>, <<>>)),
     BuildOp("e", Frag("#f1 $1", <<B2>>, <<Frag("#fn() #arg1", <<A>>, <<>>)>>)),
     BuildOp("g", Frag("#fn() #gn1 $1", <<B2>>, <<>>)),
     BuildOp("s", Frag("#fn() #sn() #gn()", <<>>, <<>>)),
     BuildOp("f", Frag("#arg1 $1 #f1", <<IntV("2")>>, <<Frag("#arg9", <<>>, <<>>)>>)),
     BuildOp("k", Frag("#fn() #join('#gn', ',') ?", <<A>>, <<>>)),
     BuildOp("e", Frag("$1 #join('#arg #fx', ',')", <<IntV("3")>>, <<>>)),
     BuildOp("q", Frag("?, ?", <<A, A>>, <<>>)),
     [op |-> "commit", ctx |-> "g", v |-> A],
     [op |-> "commit", ctx |-> "d", v |-> Val("[]int", "1")],
     [op |-> "commit", ctx |-> "k", v |-> A] >>

\* frag
Mut(id, m, raw) == [op |-> "mut", id |-> id, m |-> m, raw |-> raw]
MutArgs(id, m, args) == [op |-> "mut", id |-> id, m |-> m, args |-> args]
MutFrags(id, m, frags) == [op |-> "mut", id |-> id, m |-> m, frags |-> frags]
Insp(id) == [op |-> "insp", id |-> id]
FragSetup ==
  << Def("z", Full("", <<>>, <<>>, "E", "")), Def("a", Full("x = $1", <<A>>, <<>>, "", "")),
     Def("b", Full("#f1 AND #f2", <<>>, <<Ref("a"), Ref("a")>>, "P", "")),
     Def("c", Full("#join('#f', ';') $1", <<B2>>, <<Ref("b"), Ref("a"), Ref("z")>>, "", "S")) >>
FragCalls ==
  << Mut("a", "raw", "y = $1"), Mut("a", "prefix", "NOT"), Mut("a", "raw", "$2 $1"),
     MutArgs("a", "aargs", <<B2>>), MutArgs("a", "args", <<IntV("5"), A>>),
     Mut("b", "suffix", "T"), MutFrags("b", "afrags", <<Ref("z")>>), MutFrags("b", "frags", <<Ref("z"), Ref("a")>>),
     Mut("z", "raw", "z"), MutArgs("c", "args", <<A>>), Mut("b", "raw", "#join('#f', '+')"),
     QueryOp(Ref("a"), "$"), QueryOp(Ref("b"), "$"), QueryOp(Ref("c"), "$"), QueryOp(Ref("c"), "?"), [op |-> "scribble"],
     Insp("a"), Insp("b"), Insp("c") >>

\* query builders
T1(n) == [name |-> n, alias |-> ""]
TA(n, a) == [name |-> n, alias |-> a]
From(id, t) == [op |-> "qb", id |-> id, m |-> "from", t |-> t]
Join(id, kind, t, on, opt) == [op |-> "qb", id |-> id, m |-> "join", kind |-> kind, t |-> t, on |-> on, opt |-> opt]
Left(id, t, on, opt) == Join(id, "LEFT JOIN", t, on, opt)
Select(id, cols) == [op |-> "qb", id |-> id, m |-> "select", cols |-> cols]
Where(id, n) == [op |-> "qb", id |-> id, m |-> "where", n |-> n]
Where2(id, col, cmp, v) == [op |-> "qb", id |-> id, m |-> "where2", col |-> col, cmp |-> cmp, v |-> v]
Group(id, cols) == [op |-> "qb", id |-> id, m |-> "group", cols |-> cols]
Order(id, col, dir) == [op |-> "qb", id |-> id, m |-> "order", col |-> col, dir |-> dir]
Limit(id, n) == [op |-> "qb", id |-> id, m |-> "limit", num |-> n]
Offset(id, n) == [op |-> "qb", id |-> id, m |-> "offset", num |-> n]
Union(id, ns) == [op |-> "qb", id |-> id, m |-> "union", ns |-> ns]
With(id, name, n, deps) == [op |-> "qb", id |-> id, m |-> "with", name |-> name, n |-> n, deps |-> deps]
Distinct(id) == [op |-> "qb", id |-> id, m |-> "distinct"]

TabCol(name, alias, c) == [k |-> "col", tn |-> name, ta |-> alias, name |-> c, anon |-> FALSE]
Anon(name, alias, c) == [k |-> "col", tn |-> name, ta |-> alias, name |-> c, anon |-> TRUE]
Tab(name, alias) == [k |-> "tablea", name |-> name, alias |-> alias]
On(x, y) == Frag("#f1.id = #f2.id", <<>>, <<x, y>>)
ExprOf(raw, args, frags) == Expr(Frag(raw, args, frags))
QSetup == <<Def("q", QB)>>

JoinsSetup == QSetup \o <<From("q", TA("t", "m")), Select("q", <<TabCol("t", "m", "id")>>)>>
JoinsCalls ==
  << Distinct("q"),
     Left("q", T1("a"), On(Tab("a", ""), Tab("t", "m")), TRUE),
     Left("q", TA("a", "b"), On(Tab("a", "b"), Tab("a", "")), TRUE),
     Left("q", TA("a", "c"), Frag("#f1 = #f2 AND $1", <<A>>, <<TabCol("a", "c", "x"), TabCol("a", "b", "y")>>), TRUE),
     Left("q", T1("d"), On(Tab("a", "c"), Tab("a", "")), TRUE),
     Join("q", "INNER JOIN", T1("i"), On(Tab("i", ""), Tab("a", "b")), FALSE),
     Left("q", TA("a", "b"), On(Tab("a", "b"), Tab("t", "m")), FALSE),
     Join("q", "CROSS JOIN", T1("x"), NilFrag, FALSE),
     Select("q", <<TabCol("a", "", "n"), ExprOf("max(#f1)", <<>>, <<TabCol("a", "c", "n")>>)>>),
     Where("q", Frag("#f1 > $1", <<A>>, <<Anon("d", "", "n")>>)),
     Group("q", <<TabCol("a", "b", "n")>>),
     Order("q", TabCol("a", "c", "n"), 0),
     Where("q", Frag("#f1", <<>>, <<TabCol("zz", "", "n")>>)) >>

Cte(i) == Frag("SELECT " \o ToString(i) \o " $1", <<IntV(ToString(i))>>, <<>>)
CtesSetup == QSetup \o <<Select("q", <<TabCol("a", "", "id")>>)>>
CtesCalls ==
  << From("q", T1("a")), From("q", TA("b", "a")), From("q", TA("e", "a")),
     With("q", "a", Cte(1), <<"c">>), With("q", "b", Cte(2), <<"c", "x">>), With("q", "c", Cte(3), <<"d">>),
     With("q", "d", Cte(4), <<"c", "e">>), With("q", "e", NilFrag, <<"f">>), With("q", "f", Frag("SELECT #f1", <<>>, <<Ref("r")>>), <<>>),
     Left("q", T1("c"), On(Tab("a", ""), Tab("c", "")), TRUE), Left("q", TA("d", "y"), On(Tab("a", ""), Tab("d", "y")), TRUE),
     Distinct("q"), Where("q", Frag("#f1.k", <<>>, <<Tab("d", "y")>>)), Union("q", <<Ref("r")>>) >>
CtesAll == <<Def("r", Frag("0 $1", <<IntV("0")>>, <<>>))>> \o CtesSetup

OrderSetup == QSetup \o <<From("q", T1("a")), Left("q", T1("o"), On(Tab("a", ""), Tab("o", "")), TRUE), Select("q", <<TabCol("a", "", "id")>>)>>
OrderCalls ==
  << Distinct("q"), Order("q", TabCol("a", "", "x"), 0), Order("q", TabCol("o", "", "y"), 3), Order("q", ExprOf("f(#f1, $1)", <<A>>, <<TabCol("a", "", "x")>>), 5),
     Order("q", TabCol("a", "", "x"), 4), Order("q", Anon("a", "", "z"), 1), Order("q", TabCol("a", "", "id"), 2), Order("q", TabCol("a", "", "x"), 6), Order("q", TabCol("zz", "", "x"), 0),
     Select("q", <<TabCol("o", "", "id"), ExprOf("$1", <<B2>>, <<>>)>>), Where2("q", TabCol("a", "", "w"), "=", B2), Limit("q", "3"),
     QueryOp(Ref("q"), "$") >>

ClausesSetup == <<Def("r", QB), From("r", T1("r")), Select("r", <<ExprOf("$1", <<IntV("9")>>, <<>>)>>), Def("q", QB)>>
ClausesCalls ==
  << From("q", TA("a", "m")), From("q", T1("a")), Select("q", <<TabCol("a", "m", "id"), ExprOf("$2, $1", <<A, B2>>, <<>>)>>), Select("q", <<ExprOf("", <<>>, <<>>)>>),
     Where("q", Frag("x = $1", <<A>>, <<>>)), Where("q", NilFrag), Where("q", Frag("", <<>>, <<>>)), Where2("q", TabCol("a", "m", "w"), ">=", IntV("4")),
     [op |-> "qb", id |-> "q", m |-> "in", col |-> TabCol("a", "m", "i"), not |-> TRUE, list |-> <<[k |-> "many", e |-> <<A, B2>>, form |-> "slice", et |-> "any"]>>],
     Group("q", <<TabCol("a", "m", "g"), Anon("a", "m", "h")>>), Order("q", ExprOf("$1", <<B2>>, <<>>), 1), Limit("q", "5"), Limit("q", "0"), Offset("q", "7"), Offset("q", "-1"),
     Union("q", <<Ref("r"), Frag("", <<>>, <<>>)>>), Union("q", <<Frag("SELECT $1", <<A>>, <<>>)>>),
     Join("q", "FULL JOIN", T1("j"), Frag("$1", <<IntV("6")>>, <<>>), FALSE), Join("q", "RIGHT JOIN", T1("k"), Frag("", <<>>, <<>>), FALSE),
     With("q", "a", Ref("r"), <<>>), Distinct("q") >>

MisuseSetup == QSetup
MisuseCalls ==
  << From("q", T1("a")), From("q", T1("b")), From("q", TA("c", "b")), From("q", T1("")), From("q", TA("", "a")),
     Left("q", T1("b"), On(Tab("a", ""), Tab("b", "")), TRUE), Left("q", TA("b", "a"), On(Tab("a", ""), Tab("a", "")), FALSE),
     Join("q", "INNER JOIN", TA("x", "b"), On(Tab("x", "b"), Tab("c", "")), FALSE), Join("q", "CROSS JOIN", T1(""), NilFrag, FALSE),
     Select("q", <<TabCol("a", "", "x")>>), Select("q", <<TabCol("b", "", "x")>>), Select("q", <<>>), Distinct("q"),
     Where2("q", TabCol("c", "", "x"), "=", A), Order("q", TabCol("a", "", "x"), 6), Order("q", TabCol("b", "", "x"), 5) >>

BuildsSetup == <<Def("u", Frag("", <<>>, <<>>)), Def("w", Frag("#f1 = $1", <<A>>, <<TabCol("o", "", "x")>>)), Def("r", QB), From("r", T1("r")), Select("r", <<ExprOf("$1", <<B2>>, <<>>)>>),
                 Def("q", QB), From("q", T1("a")), Select("q", <<TabCol("a", "", "id")>>)>>
BuildsCalls ==
  << QueryOp(Ref("q"), "$"), QueryOp(Ref("q"), "?"), QueryOp(Ref("r"), "$"),
     Distinct("q"), Left("q", T1("o"), Ref("w"), TRUE), Order("q", TabCol("o", "", "y"), 3), Order("q", TabCol("a", "", "y"), 7), Where("q", Ref("w")),
     With("q", "a", Ref("r"), <<"r">>), With("q", "r", Cte(2), <<>>), Union("q", <<Ref("r")>>), Distinct("r"), Where("r", Ref("w")), From("q", T1("b")), Limit("r", "3"),
     Mut("w", "raw", "#f1 < $1"), Insp("w"), Union("q", <<Ref("u"), Ref("r")>>), With("q", "u", Ref("u"), <<>>), Mut("u", "raw", "u"), Where("q", Ref("u")), [op |-> "scribble"] >>

\* given
GivenSetup ==
  << CtxOp("d", "$"), CtxOp("k", "?"), CtxfOp("e", "d", <<Named("gn", GivesArg("g", B2))>>),
     Def("a", Frag("$1 = $2", <<A, B2>>, <<>>)), Def("b", Frag("#f1 #arg1", <<B2>>, <<Ref("a")>>)),
     Def("r", QB), From("r", T1("r")), Select("r", <<ExprOf("$1", <<A>>, <<>>)>>) >>
GivenCalls ==
  << BuildOp("d", Ref("a")), BuildOp("k", Ref("b")), BuildOp("e", Frag("#gn1 #f1", <<>>, <<Ref("b")>>)), BuildOp("d", Ref("r")), BuildOp("k", Ref("r")),
     BuildOp("k", Frag("?", <<>>, <<>>)),
     QueryOp(Ref("a"), "$"), QueryOp(Ref("b"), "?"), QueryOp(Ref("r"), "$"), QueryOp(Ref("r"), "?"),
     [op |-> "commit", ctx |-> "e", v |-> IntV("3")], [op |-> "commit", ctx |-> "k", v |-> A],
     [op |-> "recall"], [op |-> "scribble"],
     MutArgs("a", "args", <<IntV("5"), A>>), MutArgs("b", "aargs", <<A>>), Mut("b", "raw", "#f1 #arg1 #arg1"),
     Where("r", Ref("a")), Where2("r", TabCol("r", "", "w"), "=", IntV("4")) >>

Setup ==
  CASE Domain = "ctx" -> CtxSetup [] Domain = "frag" -> FragSetup [] Domain = "given" -> GivenSetup [] Domain = "joins" -> JoinsSetup [] Domain = "ctes" -> CtesAll
    [] Domain = "order" -> OrderSetup [] Domain = "clauses" -> ClausesSetup [] Domain = "misuse" -> MisuseSetup [] Domain = "builds" -> BuildsSetup
Calls0 ==
  CASE Domain = "ctx" -> CtxCalls [] Domain = "frag" -> FragCalls [] Domain = "given" -> GivenCalls [] Domain = "joins" -> JoinsCalls [] Domain = "ctes" -> CtesCalls
    [] Domain = "order" -> OrderCalls [] Domain = "clauses" -> ClausesCalls [] Domain = "misuse" -> MisuseCalls [] Domain = "builds" -> BuildsCalls
\* histories are this long at most: fewer calls of the catalogue in the quick tier
Bound == IF Deep THEN 5 ELSE 4
Thin ==
  IF Deep THEN 1
  ELSE CASE Domain = "clauses" -> 5 [] Domain = "frag" -> 9 [] Domain = "ctx" -> 1 [] Domain \in {"builds", "order", "given"} -> 4 [] OTHER -> 2
QueryDomain == Domain \in {"joins", "ctes", "order", "clauses", "misuse", "builds"}
\* a call which can be repeated to another effect
Repeats(e) ==
  \/ e.op \in {"build", "commit", "query", "mut", "scribble"}
  \/ e.op = "qb" /\ (e.m \in {"order", "union"} \/ (Domain \in {"builds", "misuse"} /\ e.m \in {"from", "where"}))

Past == [i \in 1..Len(h) |-> Calls0[h[i]]]

\* the objects a call needs are there, those it makes are not
Ready(e) ==
  CASE e.op = "ctxf" -> e.parent \in DOMAIN w.ctxs /\ e.id \notin DOMAIN w.ctxs
    [] e.op \in {"build", "commit"} -> e.ctx \in DOMAIN w.ctxs
    [] OTHER -> TRUE

\* what is built in the end
Finally ==
  IF QueryDomain THEN <<QueryOp(Ref("q"), "$"), QueryOp(Ref("q"), "?")>> \o (IF Domain = "builds" THEN <<[op |-> "recall"]>> ELSE <<>>)
  ELSE IF Domain = "frag" THEN <<[op |-> "recall"]>>
  ELSE IF Domain = "given" THEN <<QueryOp(Ref("b"), "$"), BuildOp("d", Ref("r")), [op |-> "recall"]>> ELSE <<>>
OutAt(n) == IF n = Bound THEN TRUE ELSE QueryDomain /\ n > 0
Replay(hist) ==
  IF OutAt(Len(hist)) THEN Out(Hash(hist), Setup \o [i \in 1..Len(hist) |-> Calls0[hist[i]]] \o Finally) ELSE TRUE

Init == w = FoldLeft(LAMBDA a, e : Apply(a, e).w, World0, Setup) /\ h = <<>>

Next ==
  /\ Len(h) < Bound
  /\ \E i \in 1..Len(Calls0) :
       /\ ~(~Repeats(Calls0[i]) /\ i \in ToSet(h))
       /\ Ready(Calls0[i])
       /\ LET hh == Append(h, i)
          IN /\ (Len(hh) = 2 => Mine(Hash(hh))) /\ (Len(hh) >= 3 => Picked(Hash(hh), Thin))
             /\ h' = hh
             /\ w' = Apply(w, Calls0[i]).w
             /\ Replay(hh)

---------------------------------------------------------------------------
(* Contexts.                                                                *)

\* C15: every text built in a context keeps designating its values
Resolved ==
  \A c \in DOMAIN w.roots :
    LET r == w.roots[c]
    IN r.style = "$" => \A i \in 1..Len(r.texts) : Values(Seen(r.texts[i].t), r.store) = r.texts[i].r
Accumulates == [][\A c \in DOMAIN w.roots : IsPrefix(w.roots[c].store, w'.roots[c].store)]_vars
\* builds in other contexts change nothing
Separate == [][\A c \in DOMAIN w.roots : w.roots[c] # w'.roots[c] =>
                 LET e == Calls0[h'[Len(h')]] IN e.op \in {"build", "commit"} /\ w.ctxs[e.ctx].root = c]_vars

\* what a context gave is a part of what it has, and nothing that is done later,
\* but by its owner, changes what was given
Handed ==
  \A i \in 1..Len(w.given) :
    w.given[i].own \/ \E c \in DOMAIN w.roots : IsPrefix(w.given[i].args, w.roots[c].store)
Keeps ==
  [][\A i \in 1..Len(w.given) :
       w'.given[i] = w.given[i] \/ (w.given[i].own /\ Calls0[h'[Len(h')]].op = "scribble" /\ Len(w'.given[i].args) = Len(w.given[i].args))]_vars
\* a caller who overwrites what is its own changes nothing else
Owned == [][Calls0[h'[Len(h')]].op = "scribble" => w'.heap = w.heap /\ w'.roots = w.roots /\ w'.ctxs = w.ctxs]_vars

\* C14: the nearest definition is found, by its own account of who derives from whom
Made(c) == SelectSeq(Setup \o Past, LAMBDA e : e.op \in {"ctx", "ctxf"} /\ e.id = c)[1]
RECURSIVE Nearest(_, _)
Nearest(c, name) ==
  LET e == Made(c)
  IN  IF e.op = "ctx" THEN IF name \in DOMAIN BuiltIns THEN BuiltIns[name] ELSE [id |-> "none"]
      ELSE LET I == {i \in 1..Len(e.funcs) : e.funcs[i].name = name}
           IN  IF I # {} THEN e.funcs[Max(I)].fn ELSE Nearest(e.parent, name)
Names == {"fn", "gn", "sn", "arg", "join", "zz"}
Scopes ==
  \A c \in DOMAIN w.ctxs : \A name \in Names :
    LET f == Nearest(c, name)
    IN  IF f.id = "none" THEN ~Defined(w.ctxs[c].env, name)
        ELSE Defined(w.ctxs[c].env, name) /\ Lookup(w.ctxs[c].env, name) = f
Derives == [][\A c \in DOMAIN w.ctxs : w'.ctxs[c] = w.ctxs[c]]_vars

---------------------------------------------------------------------------
(* Fragments and builders: a build changes nothing, sharing an object is as  *)
(* good as having copies of it.                                              *)

Pures == [][LET e == Calls0[h'[Len(h')]] IN e.op \in {"build", "query", "commit", "insp"} => w'.heap = w.heap]_vars

RECURSIVE Copy(_)
CopyAll(ns) == [i \in 1..Len(ns) |-> Copy(ns[i])]
Copy(n) ==
  CASE n.k = "ref" -> Copy(w.heap[n.id])
    [] n.k = "frag" -> [n EXCEPT !.frags = CopyAll(@)]
    [] OTHER -> n
Sharing ==
  Domain = "frag" => \A id \in DOMAIN w.heap : \A style \in {"$", "?"} :
    Outcome(BuildNode(<<>>, Copy(Ref(id)), style, <<>>, Env0)) = Query(w, Ref(id), style)

\* the world is what its calls make of it, however often it was built between
Calls1 == SelectSeq(Past, LAMBDA e : e.op \notin {"query", "insp", "build", "recall", "scribble", "commit"})
Unbuilt ==
  Domain \in {"builds", "frag", "given"} => w.heap = FoldLeft(LAMBDA a, e : Apply(a, e).w, World0, Setup \o Calls1).heap

---------------------------------------------------------------------------
(* Query builders, against direct definitions.                              *)

q == w.heap["q"]

\* C17: the joins kept are the least set which can be
Forced == {Applied(q.joins[i].t) : i \in {i \in 1..Len(q.joins) : ~(q.distinct /\ q.joins[i].opt)}}
Closed(S) ==
  /\ Forced \subseteq S
  /\ Referenced(w.heap, q) \cup UNION {Tables(w.heap, q.joins[i].on) : i \in {i \in 1..Len(q.joins) : Applied(q.joins[i].t) \in S}}
       \subseteq S \cup {Applied(q.main)}
Least ==
  QueryDomain /\ HasMain(q) =>
    LET F == {S \in SUBSET Joined(q) : Closed(S)}
        K == {Applied(j.t) : j \in ToSet(KeptJoins(w.heap, q))}
    IN  IF F = {} THEN UndefinedTable(w.heap, q)
        ELSE ~UndefinedTable(w.heap, q) /\ K \in F /\ \A S \in F : K \subseteq S

\* C18: likewise the CTEs
Deps(c) == UNION {q.ctes[i].deps : i \in {i \in 1..Len(q.ctes) : q.ctes[i].name = c}} \cap CTENames(q)
ClosedC(S) ==
  /\ CTENames(q) \cap ({q.main.name} \cup {j.t.name : j \in ToSet(KeptJoins(w.heap, q))}) \subseteq S
  /\ UNION {Deps(c) : c \in S} \subseteq S
LeastCTEs ==
  QueryDomain /\ HasMain(q) =>
    LET F == {S \in SUBSET CTENames(q) : ClosedC(S)}
    IN  NeededCTEs(w.heap, q) \in F /\ \A S \in F : NeededCTEs(w.heap, q) \subseteq S

\* C19: a misuse is one of the history
QCalls == SelectSeq(Setup \o Past, LAMBDA e : e.op = "qb" /\ e.id = "q")
LastFrom(i) == LET F == {j \in 1..i - 1 : QCalls[j].m = "from"} IN IF F = {} THEN NoTable ELSE QCalls[Max(F)].t
BadCall(i) ==
  LET e == QCalls[i]
  IN  CASE e.m = "from" -> e.t.name = "" \/ \E j \in 1..i - 1 : QCalls[j].m = "join" /\ Applied(QCalls[j].t) = Applied(e.t)
        [] e.m = "join" -> e.t.name = "" \/ Applied(LastFrom(i)) = Applied(e.t)
        [] OTHER -> FALSE
Misused == QueryDomain => q.bad = (\E i \in 1..Len(QCalls) : BadCall(i))

Res(style) == Query(w, Ref("q"), style)
Rejected ==   \* (the builders of "builds" use others, which can be wrong too)
  QueryDomain /\ Domain # "builds" =>
    (Res("$").s = "err") =
      \/ q.bad \/ ~HasMain(q) \/ (HasMain(q) /\ UndefinedTable(w.heap, q))
      \/ (\E i \in 1..Len(QCalls) : QCalls[i].m = "order" /\ QCalls[i].dir > 5)
      \/ LET sels == {i \in 1..Len(QCalls) : QCalls[i].m = "select" /\ QCalls[i].cols # <<>>}
             blank == sels = {} \/ QCalls[Max(sels)].cols = <<ExprOf("", <<>>, <<>>)>>
         IN  blank

\* C02
Styles ==
  QueryDomain => LET d == Res("$") n == Res("?")
                 IN d.s = n.s /\ (d.s = "ok" => Skeleton(d.t) = Skeleton(n.t) /\ d.r = n.r /\ n.store = n.r)

\* C16: the clauses come in this order, each when it was asked for
Marks == <<"With ", "SELECT ", " FROM ", " JOIN ", " WHERE ", " GROUP BY ", " ORDER BY ", " LIMIT ", " OFFSET ", " UNION (">>
\* the text outside of parentheses
Flatten(s) ==
  FoldLeft(LAMBDA a, c : IF c = "(" THEN [d |-> a.d + 1, s |-> IF a.d = 0 THEN a.s \o "(" ELSE a.s]
                         ELSE IF c = ")" THEN [d |-> a.d - 1, s |-> IF a.d = 1 THEN a.s \o ")" ELSE a.s]
                         ELSE IF a.d = 0 THEN [a EXCEPT !.s = @ \o c] ELSE a, [d |-> 0, s |-> ""], Chars(s)).s
LastOf(m, bad) == LET I == {i \in 1..Len(QCalls) : QCalls[i].m = m /\ QCalls[i].num \notin bad} IN IF I = {} THEN "" ELSE QCalls[Max(I)].num
Now(n) == IF n.k = "ref" THEN w.heap[n.id] ELSE n   \* as it has become
NonBlank(m) == \E i \in 1..Len(QCalls) : QCalls[i].m = m /\ LET n == Now(QCalls[i].n) IN n.k # "nilfrag" /\ (n.k = "frag" => n.raw # "")
Has(m) == \E i \in 1..Len(QCalls) : QCalls[i].m = m
Clauses ==
  QueryDomain => LET r == Res("$") IN r.s = "ok" =>
    LET f == Flatten(r.t)
        at == [i \in 1..Len(Marks) |-> Occurs(f, Marks[i])]
        present == {i \in 1..Len(Marks) : at[i] # {}}
        last(i) == IF i \in {4, 10} THEN Min(at[i]) ELSE Max(at[i])
    IN  /\ \A i, j \in present : i < j => last(i) < Min(at[j])
        /\ \A i \in present \ {4, 10} : Cardinality(at[i]) = 1
        /\ {2, 3} \subseteq present
        /\ (5 \in present) = (NonBlank("where") \/ Has("where2") \/ Has("in"))
        /\ (6 \in present) = Has("group") /\ (7 \in present) = Has("order")
        /\ (8 \in present) = (LastOf("limit", {"0"}) # "") /\ (9 \in present) = (LastOf("offset", {"-1"}) # "")
        /\ (10 \in present) = Has("union")
        /\ Cardinality(at[4]) = Len(KeptJoins(w.heap, q))

\* C21: with DISTINCT the orders are selected, once each
Ordered ==
  QueryDomain => LET r == Res("?") IN r.s = "ok" =>
    LET n == Len(q.orders)
    IN  \A i \in 1..n + 1 :
          Cardinality(Occurs(r.t, " AS " \o OrderAlias(i))) = IF q.distinct /\ i <= n THEN 1 ELSE 0
=============================================================================
