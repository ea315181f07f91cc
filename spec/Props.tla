------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, as predicates over one observed call: e the call with    *)
(* what the real code returned (e.res), w the world before, x the outcome    *)
(* expected by the specification. Verdict(P, e, w, x) is "ok", "bad", or     *)
(* "vac" when the property says nothing about the call.                      *)
(* Each looks only at the part of the result its property is about.          *)
(***************************************************************************)
EXTENDS World

B(p) == IF p THEN "ok" ELSE "bad"
Returned(o) == o.s \in {"ok", "err"}

\* a text with its placeholders: its skeleton, and the args they designate
Seen(text) == LET h == HoleScan(text) IN [skel |-> h.skel, holes |-> h.holes, ix |-> HoleIndexes(h.holes)]
SeenAs(text, other, seen) == IF text = other THEN seen ELSE Seen(text)
Values(seen, args) == [i \in 1..Len(seen.ix) |-> IF seen.ix[i] \in 1..Len(args) THEN args[seen.ix[i]] ELSE Unbound]

StyleOk(style, seen) == \A i \in 1..Len(seen.holes) : (style = "?") = (seen.holes[i] = "0")
\* the placeholders of the expected text can be told from its other text
LexableAs(seen, x) == StyleOk(x.style, seen) /\ Values(seen, x.store) = x.r
Lexable(x) == LexableAs(Seen(x.t), x)
\* (a ? next to a ?? can't: the texts of the two styles are compared where
\* they read the same)
LexableBoth(d, q) ==
  LET sd == Seen(d.t) sq == Seen(q.t) IN LexableAs(sd, d) /\ LexableAs(sq, q) /\ sd.skel = sq.skel
\* the same text but for the placeholders, the same values designated
SameText(x, o) == o.t = x.t
SameSkeleton(x, o) ==
  o.t = x.t \/ LET sx == Seen(x.t) IN LexableAs(sx, x) /\ Seen(o.t).skel = sx.skel
SameBinding(x, o) ==
  IF o.t = x.t /\ o.args = x.store THEN Lexable(x) ELSE Values(Seen(o.t), o.args) = x.r
SameArgs(x, o) == o.args = x.store
Whole(x, o) == SameText(x, o) /\ SameArgs(x, o)

AllUsed(seen, args) == 1..Len(args) \subseteq ToSet(seen.ix)

IsQuery(e) == e.op = "query"
IsBuild(e) == e.op \in {"query", "build"}

\* after a failure in its context the numbers of a build are not specified: its
\* text can be compared if its placeholders can be told
Blurred(e, w, x) == e.op = "build" /\ w.roots[w.ctxs[e.ctx].root].tainted /\ ~Lexable(x)
Tainted(e, w) == e.op = "build" /\ w.roots[w.ctxs[e.ctx].root].tainted

\* C01: every placeholder resolves to the argument its reference designates
Binding(style, x, o) ==
  IF x.s # "ok" THEN "vac"
  ELSE LET sx == Seen(x.t) so == SeenAs(o.t, x.t, sx)
       IN  IF ~LexableAs(sx, x) THEN "vac"
           ELSE B(/\ o.s = "ok" /\ Values(so, o.args) = x.r /\ StyleOk(style, so)
                  /\ (AllUsed(sx, x.store) => AllUsed(so, o.args))
                  /\ (style = "?" /\ Len(x.r) = Len(x.store) => Len(o.args) = Len(so.holes)))
C01(e, w, x) == IF IsQuery(e) THEN Binding(e.style, x, e.res) ELSE "vac"

\* C02: both styles
Both(e, x) ==
  LET d == e.res.d q == e.res.q
  IN  IF "unspec" \in {x.d.s, x.q.s} THEN "vac"
      ELSE IF d.s # "ok" \/ q.s # "ok" THEN B(d.s = q.s)
      ELSE IF x.d.s # "ok" \/ ~LexableBoth(x.d, x.q) THEN "vac"
      ELSE LET sd == Seen(d.t) sq == Seen(q.t)
           IN  B(sd.skel = sq.skel /\ Values(sd, d.args) = Values(sq, q.args))
C02(e, w, x) == IF e.op = "both" THEN Both(e, x) ELSE "vac"

\* C03: numbers of the dollar style
C03(e, w, x) ==
  IF ~(IsQuery(e) /\ e.style = "$" /\ x.s = "ok") THEN "vac"
  ELSE IF e.res.s # "ok"
       THEN IF \E i \in 1..Len(x.r) : ~Mergeable(x.r[i]) THEN "bad" ELSE "vac"
  ELSE LET sx == Seen(x.t) so == SeenAs(e.res.t, x.t, sx)
       IN IF ~LexableAs(sx, x) THEN "vac" ELSE B(so.ix = sx.ix /\ SameArgs(x, e.res))

\* C04: text is preserved
C04(e, w, x) ==
  IF IsBuild(e) /\ x.s = "ok" THEN B(e.res.s = "ok" /\ (Blurred(e, w, x) \/ SameSkeleton(x, e.res))) ELSE "vac"

\* C05: the grammar
C05(e, w, x) ==
  IF e.op # "parse" \/ x.s = "unspec" THEN "vac"
  ELSE IF x.s = "err" THEN B(e.res.s = "err")
  ELSE B(e.res.s = "ok" /\ Normal(e.res.exprs) = x.exprs)

\* C06: references are local
C06(e, w, x) ==
  IF ~IsBuild(e) \/ x.s = "unspec" THEN "vac"
  ELSE IF x.s = "err" THEN B(e.res.s = "err")
  ELSE IF ~Lexable(x) THEN "vac"
  ELSE B(e.res.s = "ok" /\ SameSkeleton(x, e.res) /\ SameBinding(x, e.res))

\* C07: #join
C07(e, w, x) ==
  IF ~IsBuild(e) \/ x.s = "unspec" THEN "vac"
  ELSE IF x.s = "err" THEN B(e.res.s = "err")
  ELSE IF Tainted(e, w) THEN B(e.res.s = "ok" /\ (Lexable(x) => SameSkeleton(x, e.res) /\ SameBinding(x, e.res)))
  ELSE B(e.res.s = "ok" /\ Whole(x, e.res))

\* C08: unused and unresolvable references fail
C08(e, w, x) ==
  IF ~IsBuild(e) \/ x.s # "err" THEN "vac"
  ELSE B(e.res.s = "err" /\ (IsQuery(e) => e.res.t = "" /\ e.res.args = <<>>))

\* C09: prefix and suffix
C09(e, w, x) ==
  IF IsBuild(e) /\ x.s = "ok" THEN B(e.res.s = "ok" /\ (Blurred(e, w, x) \/ SameSkeleton(x, e.res))) ELSE "vac"

\* C10, C20: builds change nothing
SameResult(a, b) == a.s = b.s /\ a.t = b.t /\ a.args = b.args
IdOf(n) == IF n.k = "ref" THEN n.id ELSE "?"
Unchanged(e, x) ==
  /\ e.res.frag.raw = x.n.raw /\ e.res.frag.args = x.n.args
  /\ e.res.frag.prefix = x.n.prefix /\ e.res.frag.suffix = x.n.suffix
  /\ e.res.frag.frags = [i \in 1..Len(x.n.frags) |-> IdOf(x.n.frags[i])]
\* what was handed out stays as it is
Recalled(e, x) == B(e.res.s = "ok" /\ e.res.lists = x.lists)
Pure(e, x) ==
  IF e.op = "insp" THEN B(e.res.s = "ok" /\ Unchanged(e, x))
  ELSE IF e.op = "recall" THEN Recalled(e, x)
  ELSE IF IsBuild(e) /\ x.s # "unspec" THEN B(SameResult(e.res, e.fresh))
  ELSE "vac"
C10(e, w, x) == Pure(e, x)
C20(e, w, x) == Pure(e, x)

\* C11: concurrent builds
C11(e, w, x) ==
  IF e.op # "conc" THEN "vac"
  ELSE B(e.res.s = "ok" /\ \A i \in 1..Len(e.res.rs) : SameResult(e.res.rs[i], e.res.alone[i]))

\* C12: builds return
C12(e, w, x) ==
  IF ~Returned(e.res) THEN "bad"
  ELSE IF e.op \in {"both", "interpq"} THEN B(Returned(e.res.d) /\ Returned(e.res.q)) ELSE "ok"

\* C13: custom functions
Calls(log) == SelectSeq(log, LAMBDA c : c.args # <<"0">>)
C13(e, w, x) ==
  IF e.op = "ctxf" THEN B(e.res.s = x.s)
  ELSE IF ~IsBuild(e) \/ x.s = "unspec" THEN "vac"
  ELSE IF x.s = "err" THEN B(e.res.s = "err")
  ELSE B(e.res.s = "ok" /\ (Blurred(e, w, x) \/ SameSkeleton(x, e.res)) /\ Calls(e.res.log) = Calls(x.log))

\* C14: scopes of functions
C14(e, w, x) ==
  IF e.op = "ctxf" THEN IF x.s = "ok" THEN B(e.res.s = "ok") ELSE "vac"
  ELSE IF ~IsBuild(e) \/ x.s = "unspec" THEN "vac"
  ELSE IF x.s = "err" THEN B(e.res.s = "err")
  ELSE B(e.res.s = "ok" /\ (Blurred(e, w, x) \/ SameSkeleton(x, e.res)))

\* C15: a context accumulates arguments
C15(e, w, x) ==
  IF e.op = "recall" THEN Recalled(e, x)
  ELSE IF e.op \notin {"build", "commit"} THEN "vac"
  ELSE LET r == w.roots[w.ctxs[e.ctx].root]
           sx == Seen(x.t)
           keeps(y) == LET sy == Seen(y.t) IN LexableAs(sy, [store |-> x.store, r |-> y.r, style |-> r.style]) => Values(sy, e.res.args) = y.r
           own == LexableAs(sx, x) => Values(SeenAs(e.res.t, x.t, sx), e.res.args) = x.r
       IN  IF ~IsPrefix(r.seen, e.res.args) THEN "bad"
           ELSE IF x.s # "ok" THEN "ok"
           \* after a failure, what it left behind is still there
           ELSE IF r.tainted THEN B(e.res.s = "ok" /\ (r.style = "$" => own))
           ELSE B(/\ e.res.s = "ok" /\ SameArgs(x, e.res)
                  /\ (r.style = "$" => \A i \in 1..Len(r.texts) : keeps(r.texts[i]))
                  \* a ? of this text designates the args committed by it
                  /\ IF r.style = "$" THEN own
                     ELSE Len(SeenAs(e.res.t, x.t, sx).holes) = Len(sx.holes))

\* C16: the query
C16(e, w, x) ==
  IF IsBuild(e) /\ x.s = "ok" THEN B(e.res.s = "ok" /\ Whole(x, e.res)) ELSE "vac"

\* C17: joins kept
Root(w, n) == IF n.k = "ref" THEN w.heap[n.id] ELSE n
C17(e, w, x) ==
  IF ~IsBuild(e) \/ x.s # "ok" THEN "vac"
  ELSE LET q == Root(w, e.n)
           \* a table without alias is not the same table with one
           has(t, j) == LET p == j.kind \o " " \o TableText(j.t)
                        IN \E i \in Occurs(t, p) :
                             j.t.alias = "" => i + Len(p) \notin Occurs(t, " AS ")
           keeps(t) == \A i \in 1..Len(q.joins) : has(t, q.joins[i]) = (q.joins[i] \in ToSet(KeptJoins(w.heap, q)))
       IN  IF q.k # "qb" THEN "vac"
           \* a builder within this one may join the same table: its text cannot be told apart
           ELSE IF ~keeps(x.t) THEN "vac"
           ELSE B(e.res.s = "ok" /\ keeps(e.res.t))

\* C18: CTEs declared
C18(e, w, x) ==
  IF ~IsBuild(e) \/ x.s # "ok" THEN "vac"
  ELSE LET q == Root(w, e.n)
       IN IF q.k # "qb" THEN "vac"
          ELSE LET pat(c) == " " \o c.name \o " AS ("
                   filled(c) == Outcome(BuildNode(w.heap, c.n, "?", <<>>, Env0)).t # ""
                   want == SelectSeq(KeptCTEs(w.heap, q), filled)
                   names == [i \in 1..Len(want) |-> want[i].name]
                   declares(t) ==
                     LET at == [c \in ToSet(q.ctes) |-> Occurs(t, pat(c))]
                         got == {c \in ToSet(q.ctes) : at[c] # {}}
                         seq == SetToSortSeq(got, LAMBDA a, b : Min(at[a]) < Min(at[b]))
                     IN  /\ \A c \in got : Cardinality(at[c]) = 1
                         /\ [i \in 1..Len(seq) |-> seq[i].name] = names
                         /\ want # <<>> => SubSeq(t, 1, 4) \in {"With", "WITH", "with"}
               IN  \* a builder within this one may declare the same name: its text cannot be told apart
                   IF ~declares(x.t) THEN "vac"
                   ELSE B(e.res.s = "ok" /\ declares(e.res.t))

\* C19: misuse
C19(e, w, x) == IF IsBuild(e) /\ x.s # "unspec" THEN B(e.res.s = x.s) ELSE "vac"

\* C21: ordering
Cut(s, from, to) ==   \* from the first pattern to the next one of the others
  LET a == Occurs(s, from)
  IN  IF a = {} THEN ""
      ELSE LET p == Min(a)
               ends == {i \in UNION {Occurs(s, to[k]) : k \in 1..Len(to)} : i > p}
           IN  SubSeq(s, p, IF ends = {} THEN Len(s) ELSE Min(ends) - 1)
SelectList(s) == Cut(s, "SELECT", <<" FROM ">>)
OrderList(s) == Cut(s, " ORDER BY ", <<" LIMIT ", " OFFSET ", " UNION ">>)
C21(e, w, x) ==
  IF ~IsBuild(e) \/ x.s # "ok" \/ ~Lexable(x) THEN "vac"
  ELSE B(/\ e.res.s = "ok"
         /\ e.res.t = x.t \/ LET o == Skeleton(e.res.t) s == Skeleton(x.t)
                              IN SelectList(o) = SelectList(s) /\ OrderList(o) = OrderList(s)
         /\ SameBinding(x, e.res))

\* C22: flattening
C22(e, w, x) ==
  IF e.op = "flat" THEN B(e.res.s = "ok" /\ e.res.args = x.store /\ e.res.lists = x.lists)
  ELSE IF e.op = "query" /\ x.s = "ok" /\ Lexable(x) THEN B(e.res.s = "ok" /\ SameBinding(x, e.res) /\ SameSkeleton(x, e.res))
  ELSE "vac"

\* C23: interpolation
C23(e, w, x) ==
  IF e.op = "interp"
  THEN IF x.s = "unspec" THEN "vac" ELSE B(e.res.s = x.s /\ (x.s = "ok" => e.res.t = x.t))
  ELSE IF e.op = "interpq"
  THEN IF x.d.s # "ok" \/ x.q.s # "ok" \/ ~LexableBoth(x.d, x.q) THEN "vac"
       ELSE B(e.res.d.s = e.res.q.s /\ e.res.d.t = e.res.q.t
               /\ (x.di.s # "unspec" => e.res.d.s = x.di.s))
  ELSE "vac"

\* C24: scanning
C24(e, w, x) ==
  IF e.op # "scan" \/ x.s = "unspec" THEN "vac"
  ELSE LET o == e.res.scan s == e.scan
       IN  IF s.fault = "close"   \* what is reported then is not specified
           THEN B(Returned(e.res) /\ o.closed = o.opened)
           ELSE B(/\ e.res.s = x.s
                  /\ o.queries = x.queries /\ o.opened = x.opened /\ o.closed = x.closed
                  /\ (x.queries > 0 => o.query = x.query /\ o.args = x.args)
                  /\ (IsScan(s) => o.rows = x.rows)
                  /\ (~IsScan(s) => o.count = x.count))

Verdict(P, e, w, x) ==
  IF e.res.s \in {"panic", "timeout", "crash", "race"} /\ P # "C12" /\ P # "C11"
  THEN \* the call did not return: as good as an error which nobody expects
       IF x.s = "ok" \/ (x.s = "both" /\ x.d.s = "ok") THEN "bad"
       ELSE IF x.s = "err" /\ P \in {"C08", "C19", "C05", "C07", "C06", "C13", "C14", "C24", "C23"} THEN "bad" ELSE "vac"
  ELSE CASE P = "C01" -> C01(e, w, x) [] P = "C02" -> C02(e, w, x) [] P = "C03" -> C03(e, w, x)
         [] P = "C04" -> C04(e, w, x) [] P = "C05" -> C05(e, w, x) [] P = "C06" -> C06(e, w, x)
         [] P = "C07" -> C07(e, w, x) [] P = "C08" -> C08(e, w, x) [] P = "C09" -> C09(e, w, x)
         [] P = "C10" -> C10(e, w, x) [] P = "C11" -> C11(e, w, x) [] P = "C12" -> C12(e, w, x)
         [] P = "C13" -> C13(e, w, x) [] P = "C14" -> C14(e, w, x) [] P = "C15" -> C15(e, w, x)
         [] P = "C16" -> C16(e, w, x) [] P = "C17" -> C17(e, w, x) [] P = "C18" -> C18(e, w, x)
         [] P = "C19" -> C19(e, w, x) [] P = "C20" -> C20(e, w, x) [] P = "C21" -> C21(e, w, x)
         [] P = "C22" -> C22(e, w, x) [] P = "C23" -> C23(e, w, x) [] P = "C24" -> C24(e, w, x)
=============================================================================
