------------------------------ MODULE MCSyntax ------------------------------
(***************************************************************************)
(* The template grammar, explored over every template of at most a number    *)
(* of characters of alphabets which have the characters of each class of the *)
(* grammar. A template which is already wrong is not extended.               *)
(***************************************************************************)
EXTENDS Model

\* alphabet, what comes before and after, maximal length in each tier
Alphabets ==
  << [c |-> <<"?", "$", "1", "0", "a", "'", " ", "\n">>, pre |-> "", suf |-> "", quick |-> 4, deep |-> 6],
     [c |-> <<"#", "f", "1", "(", ")", ",", "'", " ", "-">>, pre |-> "", suf |-> "", quick |-> 4, deep |-> 6],
     [c |-> <<"f", "1", ")", ",", "'", " ", "#", "?">>, pre |-> "#f(", suf |-> "", quick |-> 4, deep |-> 6],
     [c |-> <<"1", "0", ".", "e", "-", "+">>, pre |-> "#f(", suf |-> ")", quick |-> 4, deep |-> 7],
     [c |-> <<"'", "a", ",", ")">>, pre |-> "#f('", suf |-> "')", quick |-> 5, deep |-> 8],
     [c |-> <<"'", "\"", "`", "?", "$", "#", "f", "1", "\n">>, pre |-> "", suf |-> "", quick |-> 4, deep |-> 5],
     [c |-> <<"?", "$", "1", "0", "#", "f", "(", ")", ",", "'", "\"", "`", " ", "\n", "", "-", ".", "é", "_", "Z", "\t">>,
      pre |-> "", suf |-> "", quick |-> 3, deep |-> 4] >>

VARIABLES a, s, st, u   \* alphabet, template, state of the scanner, hash of the template
vars == <<a, s, st, u>>

L(x) == Alphabets[x]
MaxLen(x) == Len(L(x).pre) + IF Deep THEN L(x).deep ELSE L(x).quick

---------------------------------------------------------------------------
p == LET x == Parse(s) IN [x EXCEPT !.ok = @ /\ ~x.unspec]
Kinds(k) == SelectSeq(p.exprs, LAMBDA e : e.k = k)
Refs == SelectSeq(p.exprs, LAMBDA e : e.k # "t")
TextLen == FoldLeft(LAMBDA b, e : IF e.k = "t" THEN b + Len(e.s) ELSE b, 0, p.exprs)

\* to replay: the template is parsed, or built with the args it wants (C04)
Replay(hash, text, suf) ==
  IF P # "C04" THEN Out(hash, <<[op |-> "parse", raw |-> text \o suf]>>)
  ELSE LET q == Parse(text)
           ix == {atoi(q.exprs[i].i) : i \in {i \in 1..Len(q.exprs) : q.exprs[i].k = "b"}}
           n == Cardinality(ix)
           f == Frag(text, [i \in 1..n |-> IntV(ToString(i + 4))], <<>>)
       IN  IF q.ok /\ (\A i \in 1..Len(q.exprs) : q.exprs[i].k \in {"t", "b"}) /\ ix = 1..n
           THEN Out(hash, <<QueryOp(f, "$"), QueryOp(f, "?")>>) ELSE TRUE

\* states begin with two characters, by which they are shared out
Starts(x) == {[i \in 1..Len(w) |-> L(x).c[w[i]]] : w \in {w \in Words(Len(L(x).c), 2) : Mine(Hash(w))}}
Init ==
  \E x \in 1..Len(Alphabets) : \E w \in Starts(x) :
    /\ a = x /\ s = L(x).pre \o FoldLeft(LAMBDA b, c : b \o c, "", w)
    /\ st = FoldLeft(ScanStep, ScanInit, Chars(s))
    /\ u = Hash(<<x>>) + Len(s) /\ Replay(u, s, L(a).suf)

Next ==
  /\ Len(s) >= Len(L(a).pre) + 2 /\ Len(s) < MaxLen(a) /\ ~st.err /\ ~st.unspec
  /\ \E i \in 1..Len(L(a).c) :
       s' = s \o L(a).c[i] /\ st' = ScanStep(st, L(a).c[i]) /\ u' = (u * 31 + i) % 999983
  /\ UNCHANGED a
  /\ Replay(u', s', L(a).suf)

---------------------------------------------------------------------------
\* the state is what scanning the template gives, whatever was scanned before
Incremental == st = FoldLeft(ScanStep, ScanInit, Chars(s))

Numbered ==
  p.ok => \A i \in 1..Len(Kinds("b")) :
            LET b == Kinds("b")[i] IN IF b.q = "?" THEN b.i = ToString(i) ELSE CharAt(b.i, 1) # "0"
OneStyle == p.ok => Cardinality({Kinds("b")[i].q : i \in 1..Len(Kinds("b"))}) <= 1

Before(x, y) == x.line < y.line \/ (x.line = y.line /\ x.col < y.col)
Positions == p.ok => \A i \in 1..Len(Refs) - 1 : Before(Refs[i], Refs[i + 1])

\* a template without reference is its text, but for doubled characters which
\* stay; a reference takes at least a character
Conserved ==
  p.ok => /\ Refs = <<>> => p.exprs = IF s = "" THEN <<>> ELSE <<[k |-> "t", s |-> s]>>
          /\ TextLen + Len(Refs) <= Len(s)

\* the text between two references is one text
Merged == p.ok => Normal(p.exprs) = p.exprs

\* nothing in quotes is interpreted, nor are doubled characters
Inert ==
  /\ "'" \notin ToSet(Chars(s)) => Parse("'" \o s \o "'").exprs = <<[k |-> "t", s |-> "'" \o s \o "'"]>>
  /\ "#" \notin ToSet(Chars(s)) =>
       LET d == Parse(Double(Double(s, "?"), "$")) IN d.ok /\ \A i \in 1..Len(d.exprs) : d.exprs[i].k = "t"

\* the placeholders of a built text are read as the grammar reads them
HolesAgree ==
  p.ok /\ Len(Kinds("b")) = Len(Refs) =>
    /\ HoleIndexes(Holes(s)) = [i \in 1..Len(Refs) |-> atoi(Refs[i].i)]
    /\ Len(Skeleton(s)) = TextLen + Len(Refs)

\* templates put together are parsed as the sum, unless one ends within
\* something
Closed == st.mode = "plain" /\ ~st.err /\ ~st.unspec
Additive == Closed => LET q == Parse(s \o " #g1") IN q.ok /\ q.exprs[Len(q.exprs)].name = "g"

\* a string literal denotes the string it was made of, however it is quoted
Literals == LET r == ReadLiteral(StringLit(s)) IN r.m = "q" /\ r.v = s
=============================================================================
