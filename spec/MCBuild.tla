------------------------------ MODULE MCBuild ------------------------------
(***************************************************************************)
(* Builds of every tree of a domain, one step of the machine at a time, in   *)
(* both styles.                                                              *)
(***************************************************************************)
EXTENDS Model

CONSTANT Domain

A == IntV("1")
B2 == StrV("b")
VARIABLES t, m
vars == <<t, m>>

---------------------------------------------------------------------------
(* Domains: sets of [n, fs], a node and the custom functions of its context. *)

Glue(pieces, w) == JoinTexts([i \in 1..Len(w) |-> pieces[w[i]]], " ")

\* every way to put references together, the number of properties right or not
Core == <<"$1", "$2", "?", "#arg1", "#arg2", "#f1", "#f2", "#join('#arg', ',')", "#join('#f', '+')", "x">>
Leaf1 == Frag("$1", <<IntV("3")>>, <<>>)
Leaf2 == Full("?", <<A>>, <<>>, "P", "S")
CoreArgs == <<<<>>, <<A>>, <<A, B2>>, <<A, A>>>>
CoreFrags == <<<<>>, <<Leaf1>>, <<Leaf2, Leaf1>>, <<NilFrag, Leaf2>>>>
CoreWords == {w \in Words(Len(Core), 3) : Mine(Hash(w)) /\ (Len(w) < 3 \/ Picked(Sum(w), 7))}
CoreTrees == {[n |-> Frag(Glue(Core, w), CoreArgs[i], CoreFrags[j]), fs |-> <<>>] : w \in CoreWords, i \in 1..4, j \in 1..4}

\* values which are equal or not
DupValues == <<A, IntV("2"), Val("int64", "1"), Val("float64", "NaN"), Val("[]int", "1"), StrV("1"), Val("nil", "")>>
DupTemplates == <<"$1 $2 $3", "$3 $1 $1", "#f1 $3 $2 $1", "$2 #f1 $1 $3", "#join('#arg', ' ') #f1", "? ? ?">>
DupFrags(tm, a) == IF Occurs(tm, "#f1") = {} THEN <<>> ELSE <<Frag("$2 $1", <<a[1], a[2]>>, <<>>)>>
DupTrees ==
  UNION {LET a == [k \in 1..3 |-> DupValues[w[k]]]
         IN {[n |-> Frag(DupTemplates[i], IF i = 2 THEN <<a[1], a[3], a[2]>> ELSE a, DupFrags(DupTemplates[i], a)), fs |-> <<>>]
             : i \in {i \in 1..Len(DupTemplates) : Picked(i + Sum(w), 3)}}
         : w \in {w \in [1..3 -> 1..Len(DupValues)] : Mine(Hash(w))}}

\* a fragment within another, each with all combinations of properties
NestOuter == <<"$1", "#arg1", "#f1", "#f2", "#arg2", "#join('#arg #f', ',')">>
NestInner == <<"$1", "#arg2", "#f1", "#fragment2", "x", "#join('#arg', ',')", "#join('#f', ',')">>
NestArgs == <<<<>>, <<A>>, <<B2, A>>>>
NestTrees ==
  UNION {{[n |-> Frag(Glue(NestOuter, o) , NestArgs[i],
                   <<Frag(Glue(NestInner, w), IF j = 3 THEN <<IntV("8"), IntV("9")>> ELSE IF j = 2 THEN <<IntV("8")>> ELSE <<>>, IF k = 1 THEN <<>> ELSE <<Frag("y", <<>>, <<>>)>>)>>
                   \o (IF i = 2 THEN <<Frag("z", <<>>, <<>>)>> ELSE <<>>)), fs |-> <<>>]
             : i \in 1..3, j \in 1..3, k \in 1..2}
         : o \in {o \in Words(Len(NestOuter), 2) : Mine(Hash(o))},
           w \in {w \in Words(Len(NestInner), 2) : Picked(Sum(w), 5)}}

\* #join: templates, ranges, numbers of properties
JoinFns ==
  << Named("li", Fn("li", <<"int">>, FALSE, StrErr, [k |-> "list", items |-> <<"u", "", "w">>])),
     Named("ai", Fn("ai", <<"ctx", "int">>, FALSE, StrErr, [k |-> "args", args |-> <<IntV("7"), A>>])),
     Named("er", Fn("er", <<"int">>, FALSE, StrErr, [k |-> "err"])),
     Named("ns", Fn("ns", <<"int">>, FALSE, <<"string">>, [k |-> "echo"])) >>
JoinTemplates ==
  <<"#arg", "#f", "(#arg)", "#f #arg", "#arg #f", "#arg=#arg", "#li", "#li #arg", "#arg #ai", "#arg #arg1", "#f #li2", "x", "#nope", "#er", "#ns", " #f ", "#f $1">>
JoinRanges == <<"", ", 1", ", 2", ", 0", ", 1, 2", ", 2, 2", ", 0, 1", ", 2, 1", ", 3", ", 1, 3", ", -1, 2", ", 1, 1, 1">>
JoinRests == <<"", " #join('#arg', ',') #join('#f', ',')">>
Bad1 == Frag("$2", <<A>>, <<>>)
JoinFrags == <<<<>>, <<Leaf1>>, <<Leaf1, Frag("", <<>>, <<>>), Leaf2>>, <<Leaf1, Bad1>>>>
JoinTrees ==
  UNION {{[n |-> Frag("#join('" \o JoinTemplates[w[1]] \o "', ', '" \o JoinRanges[w[2]] \o ")" \o JoinRests[i], SubSeq(<<A, B2, A>>, 1, j), JoinFrags[k]), fs |-> JoinFns]
          : i \in 1..2, j \in 0..3, k \in 1..4}
         : w \in {w \in (1..Len(JoinTemplates)) \X (1..Len(JoinRanges)) : Mine(Hash(w)) /\ Picked(Sum(w), 4)}}

\* prefixes, suffixes, white space and nothing
Affixes == <<"", "P", " ">>
DressLeaf == {Full(r, <<>>, <<>>, Affixes[i], Affixes[j]) : r \in {"", " ", "x", "\ty "}, i \in 1..3, j \in 1..2} \cup {NilFrag, Cust(<<PartText(" ")>>)}
DressRaws == <<"#f1", " #f1 ", "#f1 x", "#join('#f', ',')", "#join(' #f', '')", "#f1#f1">>
DressOne == {Full(DressRaws[w[1]], <<>>, <<l>>, Affixes[w[2]], Affixes[w[3]]) :
               l \in DressLeaf, w \in {w \in (1..6) \X (1..3) \X (1..3) : Mine(Hash(w)) /\ Picked(Sum(w), 3)}}
DressTrees == {[n |-> f, fs |-> <<>>] : f \in DressOne}
  \cup {[n |-> Full("#f1#f2", <<>>, <<Frag("#f1", <<>>, <<f>>), f>>, "O", "Q"), fs |-> <<>>] : f \in DressOne}

\* calls of custom functions: signatures and literals
CallTypes == <<"int", "uint8", "float64", "string", "mystring", "bool", "mybool">>
CallLits == <<"1", "-2", "2.5", "'a'", "true", "null">>
CallSigs == {<<>>} \cup [1..1 -> 1..Len(CallTypes)] \cup {s \in [1..2 -> 1..Len(CallTypes)] : Picked(Sum(s), 3)}
CallTrees ==
  UNION {{[n |-> Frag("#fn(" \o JoinTexts([i \in 1..Len(l) |-> CallLits[l[i]]], ", ") \o ")", <<>>, <<>>),
           fs |-> <<Named("fn", Fn("fn", (IF c THEN <<"ctx">> ELSE <<>>) \o [i \in 1..Len(s) |-> CallTypes[s[i]]], v, o, [k |-> "echo"]))>>]
          : c \in {Hash(s) % 2 = 0}, o \in {<<"string">>, StrErr}, v \in {FALSE, s # <<>>},
            l \in {l \in Words(Len(CallLits), 3) : Len(l) <= Len(s) + 1 /\ Picked(Hash(l \o s), 5)}}
         : s \in {s \in CallSigs : Mine(Hash(s))}}

\* anything that may go wrong
TrapFns ==
  << Named("pa", Fn("p0", <<>>, FALSE, <<"string">>, [k |-> "panic"])), Named("pb", Fn("p1", <<"int">>, FALSE, StrErr, [k |-> "panic"])),
     Named("pc", Fn("p2", <<"ctx", "int">>, FALSE, StrErr, [k |-> "panic"])), Named("pd", Fn("p3", <<"string">>, FALSE, <<>>, [k |-> "panic"])),
     Named("pi", Fn("pi", <<"int">>, FALSE, StrErr, [k |-> "panicidx"])), Named("nf", Fn("nf", <<"int">>, FALSE, StrErr, [k |-> "nilfunc"])) >>
Traps == <<"#pa()", "#pb1", "#pc(1)", "#pd('x')", "#pb(true)", "#pd(1)", "#nf1", "#join('#pb', ',')", "#join('#pi', ',')", "#join('#nf', ',', 1, 2)", "#f0", "#arg(-1)", "#f(1, 2)",
           "#join('#f', ',', -2, -1)", "#nope()", "#f", "#f9", "$9", "#arg(1.9)", "#f1", "$1", "#join('')", "#join('', '')", "#join(1, 2)", "#arg(null)", "#f('1')", "??", "#join('#join', ',')">>
TrapFrags == <<<<>>, <<NilFrag>>, <<[k |-> "nil"]>>, <<[k |-> "nilcol"]>>, <<[k |-> "nilqb"]>>, <<Expr(NilFrag)>>, <<Cust(<<[p |-> "panic"]>>)>>>>
TrapTrees == {[n |-> Frag(Glue(Traps, w), SubSeq(<<Val("[]int", "1")>>, 1, i), TrapFrags[j]), fs |-> TrapFns]
              : w \in {w \in Words(Len(Traps), 2) : Mine(Hash(w)) /\ (Len(w) < 2 \/ Picked(Sum(w), 6))}, i \in 0..1, j \in {j \in 1..Len(TrapFrags) : Deep \/ j % 3 = Seed % 3}}

Trees ==
  CASE Domain = "core" -> CoreTrees [] Domain = "dup" -> DupTrees [] Domain = "nest" -> NestTrees [] Domain = "join" -> JoinTrees
    [] Domain = "dress" -> DressTrees [] Domain = "call" -> CallTrees [] Domain = "trap" -> TrapTrees

---------------------------------------------------------------------------
EnvOf(fs) == IF fs = <<>> THEN Env0 ELSE <<Scope(fs)>> \o Env0
Start(x, style) == Enter(<<>>, Machine(style, <<>>), x.n, EnvOf(x.fs))

Builds(x) ==
  IF x.fs = <<>>
  THEN IF P = "C02" THEN <<[op |-> "both", n |-> x.n]>> ELSE <<QueryOp(x.n, "$"), QueryOp(x.n, "?")>>
  ELSE << CtxOp("d", "$"), CtxfOp("e", "d", x.fs), BuildOp("e", x.n), CtxOp("q", "?"), CtxfOp("r", "q", x.fs), BuildOp("r", x.n) >>

Init == \E x \in Trees : /\ t = x /\ Out(Len(x.n.raw) * 31 + Len(ToString(x)), Builds(x))
                         /\ \E style \in {"$", "?"} : m = Start(x, style)
Next == m.mode # "done" /\ m' = Step(<<>>, m) /\ UNCHANGED t

---------------------------------------------------------------------------
Shape == m.mode \in {"run", "ret", "err", "done"} /\ (m.mode = "run" => m.stk # <<>>) /\ (m.mode = "done" => m.stk = <<>>)

\* C01: what is built so far designates the values it should
Designates(text, refs) ==
  IF m.style = "$" THEN Values(Seen(text), m.store) = refs ELSE Len(Holes(text)) = Len(refs)
FrameOk(f) ==
  CASE f.k \in {"F", "C", "L"} -> Designates(f.acc, f.refs)
    [] f.k = "J" -> Designates(f.acc, f.refs) /\ Designates(f.item, f.irefs)
    [] OTHER -> TRUE
Bound == /\ m.mode = "ret" => Designates(m.t, m.r)
         /\ m.mode # "err" => \A i \in 1..Len(m.stk) : FrameOk(m.stk[i])

Built == m.mode = "done" /\ m.ek = "" /\ ~m.un
\* C01, C03: no argument without placeholder, numbered by first use
Dense ==
  Built => LET ix == Seen(m.t).ix
               first == FoldLeft(LAMBDA a, i : IF i \in ToSet(a) THEN a ELSE Append(a, i), <<>>, ix)
           IN  IF m.style = "$" THEN first = [i \in 1..Len(m.store) |-> i] ELSE m.store = m.r
Distinct == m.style = "$" => DollarDistinct(m.store)

\* C02
Equivalent ==
  Built /\ m.style = "$" =>
    LET q == Outcome(BuildNode(<<>>, t.n, "?", <<>>, EnvOf(t.fs)))
    IN  q.s = "ok" /\ Skeleton(q.t) = Skeleton(m.t) /\ q.r = m.r

\* C06: only values of the tree, in a fragment only its own ones
RECURSIVE ValuesIn(_)
ValuesIn(n) == IF n.k = "frag" THEN ToSet(n.args) \cup UNION {ValuesIn(n.frags[i]) : i \in 1..Len(n.frags)} ELSE {}
Own == \A i \in 1..Len(m.stk) :
         m.stk[i].k = "F" => /\ m.stk[i].usedA \subseteq 1..Len(m.stk[i].n.args)
                             /\ m.stk[i].usedF \subseteq 1..Len(m.stk[i].n.frags)
                             /\ t.fs = <<>> => ToSet(m.stk[i].refs) \subseteq ValuesIn(m.stk[i].n)

\* C08: a text was only built of a fragment when all its properties were used
Complete ==
  [][\A i \in 1..Len(m.stk) :
       m.stk[i].k = "F" /\ Len(m'.stk) < i /\ m'.mode = "ret"
         => m.stk[i].usedA = 1..Len(m.stk[i].n.args) /\ m.stk[i].usedF = 1..Len(m.stk[i].n.frags)]_vars

\* C09: white space around a fragment is never kept, nor does an empty one leave any
Trimmed == Built /\ t.n.prefix # " " => (m.t = "" \/ CharAt(m.t, 1) \notin Space)

\* arguments are only added, or taken back by the attempt which ends a #join
Grows == [][IsPrefix(m.store, m'.store)
            \/ (m.mode = "err" /\ Len(m.stk) > 0 /\ Top(m).k = "J" /\ m'.store = SubSeq(m.store, 1, Top(m).sStore))]_vars
=============================================================================
