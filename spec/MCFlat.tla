------------------------------- MODULE MCFlat -------------------------------
(***************************************************************************)
(* Flattening lists of values, one item at a time, and conditions on them.   *)
(***************************************************************************)
EXTENDS Model

One(v) == [k |-> "one", e |-> <<v>>, form |-> "", et |-> ""]
Many(form, et, e) == [k |-> "many", e |-> e, form |-> form, et |-> et]
I(n) == [i \in 1..n |-> IntV(ToString(i))]
Items ==
  << One(IntV("7")), One(StrV("")), One(Val("nil", "")), One(Val("nilptr:int", "")), One(Val("*int", "p")), One(Val("time", "0")),
     One(Val("point", "1,2")), One(Val("map", "a")), One(Val("func", "a")),
     Many("slice", "int", I(0)), Many("slice", "int", I(2)), Many("slice", "int", I(3)), Many("array", "int", I(2)), Many("array", "int", I(0)),
     Many("ptrslice", "int", I(1)), Many("ptrarray", "int", I(2)), Many("nilslice", "int", I(0)), Many("ptrnilslice", "int", I(0)),
     Many("slice", "string", <<StrV("b"), StrV("b")>>), Many("slice", "*int", <<Val("*int", "p"), Val("*int", "q")>>),
     Many("slice", "bool", <<Val("bool", "false")>>), Many("slice", "point", <<Val("point", "1,2"), Val("point", "1,2")>>),
     Many("slice", "any", <<Val("[]int", "1,2")>>), Many("slice", "any", <<Val("nil", ""), Val("[]any", "1"), IntV("3")>>),
     Many("slice", "[]int", <<Val("[]int", "1,2")>>), Many("array", "*int", <<Val("nilptr:int", ""), Val("*int", "p")>>) >>

VARIABLES h, list, acc
vars == <<h, list, acc>>

Bound == IF Deep THEN 4 ELSE 3
Column == Col("a", "c")
\* the condition takes one value or list: the last
Replay(hist, l) ==
  LET in(not) == [op |-> "qb", id |-> "q", m |-> "in", col |-> Column, not |-> not, list |-> <<l[Len(l)]>>]
  IN  Out(Hash(hist), IF l = <<>> THEN <<[op |-> "flat", list |-> l]>> ELSE
        << [op |-> "flat", list |-> l], Def("q", QB), [op |-> "qb", id |-> "q", m |-> "from", t |-> [name |-> "ta", alias |-> "a"]],
           [op |-> "qb", id |-> "q", m |-> "select", cols |-> <<Column>>], in(Len(hist) % 2 = 0),
           QueryOp(Ref("q"), "$"), QueryOp(Ref("q"), "?") >>)

Init == h = <<>> /\ list = <<>> /\ acc = <<>> /\ Replay(h, list)
Next ==
  /\ Len(h) < Bound
  /\ \E i \in 1..Len(Items) :
       LET hh == Append(h, i)
       IN /\ (Len(hh) = 2 => Mine(Hash(hh))) /\ (Len(hh) > 2 => Picked(Hash(hh), 3))
          /\ h' = hh /\ list' = Append(list, Items[i])
          /\ acc' = IF Items[i].k = "one" THEN Append(acc, Items[i].e[1]) ELSE acc \o Items[i].e
          /\ Replay(hh, list')

---------------------------------------------------------------------------
Flattened == Flat(list) = acc
Total == Len(acc) = Sum([i \in 1..Len(list) |-> Len(list[i].e)])
Build(not, style) == Outcome(BuildNode(<<>>, InCond(Column, not, acc), style, <<>>, Env0))
\* a placeholder for each value, in order
Conditions ==
  \A style \in {"$", "?"} : \A not \in {TRUE, FALSE} :
    LET x == Build(not, style)
    IN  /\ x.s = "ok" /\ x.r = acc
        /\ Skeleton(x.t) = "a.c" \o (IF not THEN " NOT" ELSE "") \o " IN (" \o JoinTexts([i \in 1..Len(acc) |-> Hole], ", ") \o ")"
Extends == [][IsPrefix(acc, acc')]_vars
=============================================================================
