------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Concurrent builds, each in its own context, of objects which they share.  *)
(* Some are standalone builds, which call the gates of custom builders.       *)
(* Grain "step": the builds interleave at every step. Grain "gate": they      *)
(* interleave where templates call #gate(); these schedules can be forced on *)
(* the real code.                                                            *)
(***************************************************************************)
EXTENDS Model

CONSTANT Grain

A == IntV("1")
TabCol(name, c) == [k |-> "col", tn |-> name, ta |-> "", name |-> c, anon |-> FALSE]
Qb(m) == [op |-> "qb", id |-> "q", m |-> m]
Gate == [p |-> "gate"]
Gated(v) == Cust(<<PartText("g"), Gate, PartArg(StrV(v))>>)
Objects ==
  << Def("f", Frag("#gate() $1 #arg1 #gate()", <<A>>, <<>>)),
     Def("g", Full("#f1 #gate() #f2 $1", <<A>>, <<Ref("f"), Ref("f")>>, "P", "")),
     Def("j", Frag("#join('#arg #gate()', ',') #join('#f', '+')", <<A, A>>, <<Ref("f"), Frag("$1", <<StrV("z")>>, <<>>)>>)),
     Def("e", Frag("#gate() $1 #f1 $2", <<A>>, <<Ref("f")>>)),
     Def("r", QB), [op |-> "qb", id |-> "r", m |-> "from", t |-> [name |-> "r", alias |-> ""]],
     [op |-> "qb", id |-> "r", m |-> "select", cols |-> <<Expr(Frag("#gate() $1", <<StrV("b")>>, <<>>))>>],
     Def("q", QB), [op |-> "qb", id |-> "q", m |-> "distinct"], [op |-> "qb", id |-> "q", m |-> "from", t |-> [name |-> "t", alias |-> ""]],
     [op |-> "qb", id |-> "q", m |-> "join", kind |-> "LEFT JOIN", t |-> [name |-> "o", alias |-> ""], on |-> Frag("#f1 #gate()", <<>>, <<TabCol("o", "k")>>), opt |-> TRUE],
     [op |-> "qb", id |-> "q", m |-> "join", kind |-> "LEFT JOIN", t |-> [name |-> "u", alias |-> ""], on |-> Frag("#f1 #gate()", <<>>, <<TabCol("u", "k")>>), opt |-> TRUE],
     [op |-> "qb", id |-> "q", m |-> "select", cols |-> <<TabCol("t", "id")>>],
     [op |-> "qb", id |-> "q", m |-> "where", n |-> Frag("#gate() $1", <<A>>, <<>>)],
     [op |-> "qb", id |-> "q", m |-> "order", col |-> TabCol("o", "x"), dir |-> 3],
     [op |-> "qb", id |-> "q", m |-> "with", name |-> "t", n |-> Ref("r"), deps |-> <<>>],
     Def("h", Frag("#arg1 #join('#f', ', ') $2", <<A, StrV("h")>>, <<Gated("c"), Expr(Frag("max(#f1)", <<>>, <<Gated("d")>>))>>)),
     Def("v", QB), [op |-> "qb", id |-> "v", m |-> "from", t |-> [name |-> "v", alias |-> ""]],
     [op |-> "qb", id |-> "v", m |-> "select", cols |-> <<Expr(Frag("#f1", <<>>, <<Gated("s")>>))>>],
     [op |-> "qb", id |-> "v", m |-> "where", n |-> Ref("h")],
     [op |-> "qb", id |-> "v", m |-> "union", ns |-> <<Ref("h")>>] >>
W0 == FoldLeft(LAMBDA a, e : Apply(a, e).w, World0, Objects)
H0 == W0.heap
\* nodes built
Nodes == <<Ref("f"), Ref("g"), Ref("j"), Ref("e"), Ref("r"), Ref("q"), Frag("(#f1) #gate() #f2", <<>>, <<Ref("q"), Ref("r")>>)>>
\* and those built standalone
Standalone == <<Ref("h"), Ref("v"), Frag("(#f1) #f2 #join('#arg', ',')", <<A, A>>, <<Ref("v"), Ref("h")>>)>>
All == Nodes \o Standalone
Style(i) == IF i % 2 = 0 THEN "$" ELSE "?"

VARIABLES bs, ms, sched
vars == <<bs, ms, sched>>

Nb == Len(bs)
Start(b) == Enter(H0, Machine(b.style, <<>>), b.n, IF b.query THEN Env0 ELSE GateEnv)
Built(c) == [n |-> All[(c + 1) \div 2], style |-> Style(c), query |-> (c + 1) \div 2 > Len(Nodes)]
\* how many gates there are in a build
GatesOf == [c \in 1..2 * Len(All) |-> Len(RunToEnd(H0, Start(Built(c))).log)]
\* shard by what is built
Combos == IF Deep /\ Grain = "gate" THEN {2, 3} ELSE {2}
Init ==
  \E n \in Combos : \E c \in [1..n -> 1..2 * Len(All)] :
    /\ \A i \in 1..n - 1 : c[i] <= c[i + 1]
    /\ Mine(Hash(c)) /\ Picked(Sum(c), IF Grain = "gate" THEN 19 ELSE 3)
    /\ (Grain = "gate" => Sum([i \in 1..n |-> GatesOf[c[i]]]) <= (IF n = 2 THEN 12 ELSE 7))
    /\ (Grain = "step" => \A i \in 1..n : (c[i] + 1) \div 2 \notin (IF Deep THEN {} ELSE {3, 7, 9, 10}))
    /\ bs = [i \in 1..n |-> Built(c[i])]
    /\ ms = [i \in 1..n |-> Start(bs[i])] /\ sched = <<>>

\* runs to the next call of the gate
Gates(m) == Len(m.log)
ToGate(m) ==
  LET run(a, i) == IF a.mode = "done" \/ Gates(a) > Gates(m) THEN a ELSE Step(H0, a)
      run12(a, i) == FoldLeft(run, a, Dozen)
      run144(a, i) == FoldLeft(run12, a, Dozen)
  IN  FoldLeft(run144, m, Dozen)

Next ==
  \E i \in 1..Nb :
    /\ ms[i].mode # "done"
    /\ ms' = [ms EXCEPT ![i] = IF Grain = "step" THEN Step(H0, @) ELSE ToGate(@)]
    /\ UNCHANGED bs
    /\ sched' = IF Grain = "step" THEN <<>> ELSE Append(sched, i - 1)
    /\ IF Grain = "gate" /\ \A j \in 1..Nb : ms'[j].mode = "done"
       THEN Out(Hash(sched'), Objects \o <<[op |-> "conc", conc |-> [builds |-> bs, sched |-> sched', rounds |-> 1]]>>) ELSE TRUE

---------------------------------------------------------------------------
\* no build is affected by what the others do
AllDone == \A i \in 1..Nb : ms[i].mode = "done"
Alone == (Grain = "step" \/ AllDone) => \A i \in 1..Nb : ms[i].mode = "done" => ms[i] = RunToEnd(H0, Start(bs[i]))
\* steps of different builds commute
Commute ==
  Grain = "step" => \A i, j \in 1..Nb : i < j /\ ms[i].mode # "done" /\ ms[j].mode # "done" =>
    LET a == [ms EXCEPT ![i] = Step(H0, @)] b == [ms EXCEPT ![j] = Step(H0, @)]
    IN  [a EXCEPT ![j] = Step(H0, @)] = [b EXCEPT ![i] = Step(H0, @)]
Progress == \A i \in 1..Nb : ms[i].mode = "done" \/ ms[i].stk # <<>> \/ ms[i].mode \in {"ret", "err"}
=============================================================================
