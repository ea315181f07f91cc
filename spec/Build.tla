------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* Building: a machine which builds a node in a context, one reference at a *)
(* time. Its state:                                                         *)
(*   stk    stack of frames, the top one is being built                     *)
(*   style  placeholder style of the context ("$" or "?")                   *)
(*   store  argument list of the context                                    *)
(*   mode   "run"; "ret" when a frame returned the text t; "err" when an     *)
(*          error is being reported; "done"                                 *)
(*   t, r   text returned, and (ghost) the values its placeholders designate *)
(*   ek     kind of error: "idx" (the index called does not exist), "e"      *)
(*   log    calls of custom functions so far                                *)
(*   un     TRUE once something unspecified happened                        *)
(* Frames: F fragment, J #join, P content of a property, G custom function,  *)
(* C concatenation of parts (custom builders), L list, Q query builder.      *)
(***************************************************************************)
EXTENDS Query

Machine(style, store) ==
  [ stk |-> <<>>, style |-> style, store |-> store, mode |-> "run",
    t |-> "", r |-> <<>>, ek |-> "", log |-> <<>>, un |-> FALSE ]

Top(m) == m.stk[Len(m.stk)]
SetTop(m, f) == [m EXCEPT !.stk[Len(m.stk)] = f]
Push(m, f) == [m EXCEPT !.stk = Append(@, f), !.mode = "run"]
Pop(m) == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Ret(m, t, r) == [m EXCEPT !.mode = "ret", !.t = t, !.r = r, !.ek = ""]
Fail(m, ek) == [m EXCEPT !.mode = "err", !.ek = ek]
Unspec(m) == [Fail(m, "e") EXCEPT !.un = TRUE]

\* the fragment whose template is being built
Host(m) == Max({i \in 1..Len(m.stk) : m.stk[i].k = "F"})

CommitTo(m, v) ==
  Ret([m EXCEPT !.store = Commit(m.style, m.store, v)], Placeholder(m.style, m.store, v), <<v>>)

---------------------------------------------------------------------------
FragFrame(n, p, env) ==
  [ k |-> "F", n |-> n, env |-> env, exprs |-> p.exprs, pc |-> 1, acc |-> "", refs |-> <<>>,
    usedA |-> {}, usedF |-> {} ]

RECURSIVE Enter(_, _, _, _)
\* starts building node n
Enter(H, m, n, env) ==
  CASE n.k = "ref" -> Enter(H, m, H[n.id], env)
    [] n.k = "frag" -> LET p == Parse(n.raw)
                       IN  IF p.unspec THEN Unspec(m)
                           ELSE IF ~p.ok THEN Fail(m, "e")
                           ELSE Push(m, FragFrame(n, p, env))
    [] n.k \in {"nilfrag", "nilqb"} -> Ret(m, "", <<>>)
    [] n.k \in {"nilcol", "nil"} -> Fail(m, "e")
    [] n.k = "table" -> Ret(m, n.name, <<>>)
    [] n.k = "tablea" -> Ret(m, Applied(n), <<>>)
    [] n.k = "col" -> Ret(m, Trim(ColText(n)), <<>>)
    [] n.k = "expr" -> Enter(H, m, n.frag, env)
    [] n.k \in {"cust", "mix"} ->
         Push(m, [k |-> "C", parts |-> n.parts, pc |-> 1, acc |-> "", refs |-> <<>>, env |-> env,
                  own |-> n.k = "mix"])
    [] n.k = "list" ->
         Push(m, [k |-> "L", pre |-> n.pre, sep |-> n.sep, items |-> n.items, pc |-> 1, acc |-> "",
                  refs |-> <<>>, env |-> env])
    [] n.k = "qb" ->
         IF QueryError(H, n) THEN Fail(m, "e")
         ELSE Push(m, [k |-> "Q", q |-> n, plan |-> QueryPlan(H, n), texts |-> <<>>, refs |-> <<>>, env |-> env])

---------------------------------------------------------------------------
(* Calls.                                                                   *)

PropFrame == [k |-> "P"]

JoinFrame(env, exprs, sep, from, to, m) ==
  [ k |-> "J", env |-> env, exprs |-> exprs, sep |-> sep, from |-> from, to |-> to,
    i |-> IF from <= 0 THEN 1 ELSE from, pc |-> 1, item |-> "", irefs |-> <<>>, acc |-> "", refs |-> <<>>,
    \* what is to be restored when the item turns out not to exist
    sStore |-> Len(m.store), sA |-> m.stk[Host(m)].usedA, sF |-> m.stk[Host(m)].usedF ]

StartJoin(m, env, tmpl, sep, ixs) ==
  LET from == IF Len(ixs) >= 1 THEN ixs[1] ELSE 0
      to == IF Len(ixs) >= 2 THEN ixs[2] ELSE 0
      p == Parse(tmpl)
      vals == {i \in 1..Len(p.exprs) : p.exprs[i].k = "f"}
  IN  IF Len(ixs) > 2 \/ (to > 0 /\ from > to) THEN Fail(m, "e")
      ELSE IF p.unspec THEN Unspec(m)
      ELSE IF ~p.ok \/ vals = {} THEN Fail(m, "e")
      ELSE IF \E i \in vals : ~Defined(env, p.exprs[i].name) THEN Fail(m, "e")
      ELSE IF \E i \in vals : ~JoinCompatible(Lookup(env, p.exprs[i].name)) THEN Fail(m, "e")
      ELSE Push(m, JoinFrame(env, p.exprs, sep, from, to, m))

\* index i of the properties of the fragment being built
UseArg(m, i) ==
  LET h == Host(m) n == m.stk[h].n
  IN  IF i \notin 1..Len(n.args) THEN Fail(m, "idx")
      ELSE CommitTo([m EXCEPT !.stk[h].usedA = @ \cup {i}], n.args[i])

UseFragment(H, m, i, env) ==
  LET h == Host(m) n == m.stk[h].n
  IN  IF i \notin 1..Len(n.frags) THEN Fail(m, "idx")
      ELSE Enter(H, Push([m EXCEPT !.stk[h].usedF = @ \cup {i}], PropFrame), n.frags[i], env)

\* JSON lists of [name, fn] as a scope
Scope(fs) == [x \in {fs[i].name : i \in 1..Len(fs)} |-> fs[Max({i \in 1..Len(fs) : fs[i].name = x})].fn]

EchoText(f, vals) == "<" \o f.id \o ":" \o JoinTexts(vals, "|") \o ">"
FuncFrame(f) == [k |-> "G", f |-> f]

\* vals: the arguments as the function gets them
RunCustom(H, m0, f, vals, env) ==
  LET m == [m0 EXCEPT !.log = Append(@, [id |-> f.id, args |-> vals])]
      b == f.beh
      g == Push(m, FuncFrame(f))
      i == IF vals = <<>> THEN 0 ELSE atoi(vals[1])
  IN CASE b.k = "echo" -> Ret(g, EchoText(f, vals), <<>>)
       [] b.k \in {"err", "panic", "nilfunc"} -> Fail(g, "e")
       [] b.k \in {"idx", "panicidx"} -> Fail(g, "idx")
       [] b.k = "list" -> IF i \in 1..Len(b.items) THEN Ret(g, b.items[i], <<>>) ELSE Fail(g, "idx")
       [] b.k = "args" -> IF i \in 1..Len(b.args) THEN CommitTo(g, b.args[i]) ELSE Fail(g, "idx")
       [] b.k = "frags" -> IF i \in 1..Len(b.frags) THEN Enter(H, Push(g, PropFrame), b.frags[i], env)
                           ELSE Fail(g, "idx")
       [] b.k = "parts" -> Enter(H, g, [k |-> "cust", parts |-> b.parts], env)
       [] b.k = "scope" -> IF LegalFuncs(b.funcs) THEN Enter(H, g, b.n, <<Scope(b.funcs)>> \o env) ELSE Fail(g, "e")

Call(H, m, name, args, env) ==
  IF ~Defined(env, name) THEN Fail(m, "e")
  ELSE LET f == Lookup(env, name) vals == Passed(f, args)
           nums(k) == [i \in 1..Len(vals) - k |-> atoi(vals[i + k])]
       IN  IF ~ArgsOk(f, args) THEN Fail(m, "e")
           ELSE IF ArgsUnspecified(f, args) THEN Unspec(m)
           ELSE IF f.beh.k # "builtin" THEN RunCustom(H, m, f, vals, env)
           ELSE CASE f.beh.name = "arg" -> UseArg(m, nums(0)[1])
                  [] f.beh.name = "f" -> UseFragment(H, m, nums(0)[1], env)
                  [] f.beh.name = "join" -> StartJoin(m, env, vals[1], vals[2], nums(2))

\* evaluates expression e of the template at the top of the stack; ix is the
\* index of the item when it's a #join template, "" otherwise
EvalExpr(H, m, e, env, ix) ==
  CASE e.k = "t" -> Ret(m, e.s, <<>>)
    [] e.k = "b" -> LET n == m.stk[Host(m)].n i == IF Len(e.i) > 6 THEN 0 ELSE atoi(e.i)
                    IN  IF i \notin 1..Len(n.args) THEN Fail(m, "e") ELSE UseArg(m, i)
    [] e.k = "c" -> Call(H, m, e.name, e.args, env)
    [] e.k = "f" -> IF ix = "" THEN Fail(m, "e")
                    ELSE Call(H, m, e.name, <<[k |-> "num", v |-> ix]>>, env)

---------------------------------------------------------------------------
(* Advance the top frame.                                                   *)

Unused(f) == f.usedA # 1..Len(f.n.args) \/ f.usedF # 1..Len(f.n.frags)

Dress(n, body) ==
  LET t == Trim(body)
  IN  IF t = "" THEN ""
      ELSE (IF n.prefix = "" THEN "" ELSE n.prefix \o " ") \o t \o (IF n.suffix = "" THEN "" ELSE " " \o n.suffix)

RunF(H, m, f) ==
  IF f.pc <= Len(f.exprs) THEN EvalExpr(H, m, f.exprs[f.pc], f.env, "")
  ELSE IF Unused(f) THEN Fail(Pop(m), "e")
  ELSE Ret(Pop(m), Dress(f.n, f.acc), f.refs)

RunJ(H, m, j) ==
  IF j.pc <= Len(j.exprs) THEN EvalExpr(H, m, j.exprs[j.pc], j.env, ToString(j.i))
  ELSE LET acc == IF j.item = "" THEN j.acc ELSE IF j.acc = "" THEN j.item ELSE j.acc \o j.sep \o j.item
           refs == j.refs \o j.irefs
           h == m.stk[Host(m)]
       IN  IF j.to > 0 /\ j.i >= j.to THEN Ret(Pop(m), acc, refs)
           ELSE SetTop(m, [j EXCEPT !.i = @ + 1, !.pc = 1, !.item = "", !.irefs = <<>>, !.acc = acc, !.refs = refs,
                                    !.sStore = Len(m.store), !.sA = h.usedA, !.sF = h.usedF])

RunC(H, m, c) ==
  IF c.pc > Len(c.parts) THEN Ret(Pop(m), IF c.own THEN Trim(c.acc) ELSE c.acc, c.refs)
  ELSE LET p == c.parts[c.pc]
       IN CASE p.p = "t" -> Ret(m, p.s, <<>>)
            [] p.p = "a" -> CommitTo(m, p.v)
            [] p.p = "n" -> Enter(H, m, p.n, c.env)
            [] p.p \in {"err", "panic"} -> Fail(m, "e")
            [] p.p = "idx" -> Fail(m, "idx")
            [] p.p = "gate" -> Ret([m EXCEPT !.log = Append(@, [id |-> "gate", args |-> <<>>])], "", <<>>)

RunL(H, m, l) ==
  IF l.pc > Len(l.items)
  THEN LET t == Trim(l.acc)
       IN  Ret(Pop(m), IF t = "" \/ l.pre = "" THEN t ELSE l.pre \o " " \o t, l.refs)
  ELSE Enter(H, m, l.items[l.pc], l.env)

RunQ(H, m, q) ==
  IF Len(q.texts) < Len(q.plan) THEN Enter(H, m, q.plan[Len(q.texts) + 1].n, q.env)
  ELSE LET a == Assemble(H, q.q, q.plan, q.texts)
       IN  IF a.ok THEN Ret(Pop(m), a.text, q.refs) ELSE Fail(Pop(m), "e")

Run1(H, m) ==
  LET f == Top(m)
  IN CASE f.k = "F" -> RunF(H, m, f)
       [] f.k = "J" -> RunJ(H, m, f)
       [] f.k = "C" -> RunC(H, m, f)
       [] f.k = "L" -> RunL(H, m, f)
       [] f.k = "Q" -> RunQ(H, m, f)

\* a text was returned to the top frame
Deliver(m) ==
  IF m.stk = <<>> THEN [m EXCEPT !.mode = "done"]
  ELSE LET f == Top(m) run == [m EXCEPT !.mode = "run"]
       IN CASE f.k \in {"F", "C"} ->
                 SetTop(run, [f EXCEPT !.acc = @ \o m.t, !.refs = @ \o m.r, !.pc = @ + 1])
            [] f.k = "J" -> SetTop(run, [f EXCEPT !.item = @ \o m.t, !.irefs = @ \o m.r, !.pc = @ + 1])
            [] f.k = "L" -> SetTop(run, [f EXCEPT !.acc = IF m.t = "" THEN @ ELSE IF @ = "" THEN m.t ELSE @ \o f.sep \o m.t,
                                                  !.refs = @ \o m.r, !.pc = @ + 1])
            [] f.k = "Q" -> SetTop(run, [f EXCEPT !.texts = Append(@, m.t), !.refs = @ \o m.r])
            [] f.k = "P" -> Ret(Pop(m), m.t, m.r)
            [] f.k = "G" -> Ret(Pop(m), IF f.f.out = <<>> THEN "" ELSE m.t, IF f.f.out = <<>> THEN <<>> ELSE m.r)

\* an error is reported to the top frame
Unwind(m) ==
  IF m.stk = <<>> THEN [m EXCEPT !.mode = "done"]
  ELSE LET f == Top(m)
       IN CASE f.k \in {"F", "P", "L"} -> Fail(Pop(m), "e")
            [] f.k = "C" /\ f.own -> Fail(Pop(m), "e")
            [] f.k = "J" /\ m.ek = "idx" /\ f.exprs[f.pc].k = "f" ->
                 IF (f.from > 0 /\ f.i = f.from) \/ (f.to > 0 /\ f.i <= f.to) THEN Fail(Pop(m), "idx")
                 ELSE LET h == Host(m)
                      IN  Ret(Pop([m EXCEPT !.store = SubSeq(@, 1, f.sStore),
                                            !.stk[h].usedA = f.sA, !.stk[h].usedF = f.sF]),
                              f.acc, f.refs)
            [] OTHER -> Fail(Pop(m), m.ek)

Step(H, m) ==
  CASE m.mode = "run" -> Run1(H, m)
    [] m.mode = "ret" -> Deliver(m)
    [] m.mode = "err" -> Unwind(m)

\* runs to the end; nested folds rather than a recursion, which TLC evaluates
\* in a time that grows with its depth (20736 steps are far more than any run)
Dozen == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>
Run12(H, m) == FoldLeft(LAMBDA a, i : IF a.mode = "done" THEN a ELSE Step(H, a), m, Dozen)
Run144(H, m) == FoldLeft(LAMBDA a, i : IF a.mode = "done" THEN a ELSE Run12(H, a), m, Dozen)
Run1728(H, m) == FoldLeft(LAMBDA a, i : IF a.mode = "done" THEN a ELSE Run144(H, a), m, Dozen)
RunToEnd(H, m) ==
  LET e == FoldLeft(LAMBDA a, i : IF a.mode = "done" THEN a ELSE Run1728(H, a), m, Dozen)
  IN  IF e.mode = "done" THEN e ELSE Assert(FALSE, "a build which does not end")

\* the outcome of building node n in a context
BuildNode(H, n, style, store, env) ==
  RunToEnd(H, Enter(H, Machine(style, store), n, env))

Outcome(m) ==
  [ s |-> IF m.un THEN "unspec" ELSE IF m.ek # "" THEN "err" ELSE "ok",
    t |-> m.t, r |-> m.r, store |-> m.store, style |-> m.style, log |-> m.log ]
=============================================================================
