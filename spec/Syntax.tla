------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The template grammar, as an explicit state machine over the characters  *)
(* of a template: ScanStep consumes one character, ScanEnd the end of the  *)
(* input. The result of a template is a sequence of expressions:           *)
(*   [k |-> "t", s]                     plain text                         *)
(*   [k |-> "b", q, i, line, col]       placeholder, i its index (digits)  *)
(*   [k |-> "c", name, args, line, col] call of a preprocessing function   *)
(*   [k |-> "f", name, line, col]       function value                     *)
(* An argument of a call is [k |-> "num" | "str" | "bool" | "nil", v].     *)
(***************************************************************************)
EXTENDS Chars

ScanInit ==
  [ mode |-> "plain", out |-> <<>>, txt |-> "",
    q |-> "", name |-> "", buf |-> "", args |-> <<>>,
    line |-> 1, col |-> 0,       \* position of the character consumed last
    rl |-> 0, rc |-> 0,          \* position where the current reference begins
    style |-> "", n |-> 0,       \* placeholders: style and count so far
    err |-> FALSE, unspec |-> FALSE ]

Text(st, c) == [st EXCEPT !.txt = @ \o c]
Bad(st) == [st EXCEPT !.err = TRUE]

Emit(st, e) ==
  LET o == IF st.txt = "" THEN st.out ELSE Append(st.out, [k |-> "t", s |-> st.txt])
  IN  [st EXCEPT !.out = Append(o, e), !.txt = "", !.mode = "plain"]

\* placeholders of different styles can't be mixed
EmitBind(st, i) ==
  IF st.n > 0 /\ st.style # st.q THEN Bad(st)
  ELSE Emit([st EXCEPT !.n = @ + 1, !.style = st.q],
            [k |-> "b", q |-> st.q, line |-> st.rl, col |-> st.rc,
             i |-> IF st.q = "?" THEN ToString(st.n + 1) ELSE i])

EmitFunc(st) == Emit(st, [k |-> "f", name |-> st.name, line |-> st.rl, col |-> st.rc])
EmitCall(st, args) ==
  Emit([st EXCEPT !.args = <<>>],
       [k |-> "c", name |-> st.name, args |-> args, line |-> st.rl, col |-> st.rc])

---------------------------------------------------------------------------
(* Numbers: [sign] digits [. digits] [e [sign] digits], read as a canonical *)
(* decimal. Others forms of strconv.ParseFloat are left unspecified.        *)

NumInit == [m |-> "s", neg |-> FALSE, ip |-> "", fp |-> "", eneg |-> FALSE, ep |-> ""]
NumStep(a, c) ==
  CASE a.m = "s" /\ c \in {"+", "-"} -> [a EXCEPT !.m = "i", !.neg = (c = "-")]
    [] a.m \in {"s", "i"} /\ c \in Digit -> [a EXCEPT !.m = "i", !.ip = @ \o c]
    [] a.m \in {"s", "i"} /\ c = "." -> [a EXCEPT !.m = "p"]
    [] a.m = "p" /\ c \in Digit -> [a EXCEPT !.fp = @ \o c]
    [] a.m \in {"i", "p"} /\ c \in {"e", "E"} /\ (a.ip \o a.fp) # "" -> [a EXCEPT !.m = "e"]
    [] a.m = "e" /\ c \in {"+", "-"} -> [a EXCEPT !.m = "x", !.eneg = (c = "-")]
    [] a.m \in {"e", "x"} /\ c \in Digit -> [a EXCEPT !.m = "x", !.ep = @ \o c]
    [] OTHER -> [a EXCEPT !.m = "bad"]

\* decimal of the digits d with the point after the first p of them
Decimal(neg, d, p) ==
  LET dd == IF p < 0 THEN Zeros(-p) \o d
            ELSE IF p > Len(d) THEN d \o Zeros(p - Len(d)) ELSE d
      pp == IF p < 0 THEN 0 ELSE p
      ip == StripLead0(SubSeq(dd, 1, pp))
      fp == StripTrail0(SubSeq(dd, pp + 1, Len(dd)))
  IN  (IF neg THEN "-" ELSE "") \o ip \o (IF fp = "" THEN "" ELSE "." \o fp)

Number(w) ==  \* [ok, unspec, v]
  LET a == FoldLeft(NumStep, NumInit, Chars(w))
      good == a.m \in {"i", "p", "x"} /\ (a.ip \o a.fp) # "" /\ (a.m = "x" => a.ep # "")
      e == IF a.ep = "" THEN 0 ELSE IF Len(a.ep) > 2 THEN 99 ELSE atoi(a.ep)
      exotic == \/ \E i \in 1..Len(w) : CharAt(w, i) \in {"_", "x", "X", "p", "P"}
                \/ Len(w) > 2 /\ AllIn(w, ToSet(Chars("+-infityaINFITYA")))
                \/ good /\ (Len(a.ip \o a.fp) > 15 \/ e > 20)
  IN  IF exotic THEN [ok |-> FALSE, unspec |-> TRUE, v |-> ""]
      ELSE IF ~good THEN [ok |-> FALSE, unspec |-> FALSE, v |-> ""]
      ELSE [ok |-> TRUE, unspec |-> FALSE,
            v |-> Decimal(a.neg, a.ip \o a.fp, Len(a.ip) + (IF a.eneg THEN -e ELSE e))]

---------------------------------------------------------------------------
ScanPlain(st, c) ==
  CASE c \in {"?", "$"} -> [st EXCEPT !.mode = "ref", !.q = c, !.rl = st.line, !.rc = st.col]
    [] c = "#" -> [st EXCEPT !.mode = "hash", !.rl = st.line, !.rc = st.col]
    [] c \in Quote -> [Text(st, c) EXCEPT !.mode = "quote", !.q = c]
    [] OTHER -> Text(st, c)

\* after ? or $: doubled it is plain text
ScanRef(st, c) ==
  CASE c = st.q -> [Text(st, c \o c) EXCEPT !.mode = "plain"]
    [] st.q = "$" /\ c \in Digit1 -> [st EXCEPT !.mode = "idx", !.buf = c]
    [] st.q = "$" -> Bad(st)
    [] st.q = "?" /\ c \in Digit1 -> Bad(st)
    [] OTHER -> ScanPlain(EmitBind(st, ""), c)

ScanIdx(st, c) ==
  IF c \in Digit THEN [st EXCEPT !.buf = @ \o c] ELSE ScanPlain(EmitBind(st, st.buf), c)

ScanQuote(st, c) == IF c = st.q THEN [Text(st, c) EXCEPT !.mode = "plain"] ELSE Text(st, c)

ScanHash(st, c) == IF c \in Letter THEN [st EXCEPT !.mode = "name", !.name = c] ELSE Bad(st)

ScanName(st, c) ==
  CASE c \in Letter -> [st EXCEPT !.name = @ \o c]
    [] c \in Digit -> [st EXCEPT !.mode = "num", !.buf = c]
    [] c = "(" -> [st EXCEPT !.mode = "arg", !.args = <<>>]
    [] OTHER -> ScanPlain(EmitFunc(st), c)

NumArg(digits) ==
  LET x == Number(digits) IN [k |-> "num", v |-> x.v]
NumUnspec(st, digits) == [st EXCEPT !.unspec = @ \/ Number(digits).unspec]

ScanNum(st, c) ==
  IF c \in Digit THEN [st EXCEPT !.buf = @ \o c]
  ELSE ScanPlain(EmitCall(NumUnspec(st, st.buf), <<NumArg(st.buf)>>), c)

\* at the start of an argument
ScanArg(st, c) ==
  CASE c \in Space -> st
    [] c = ")" -> EmitCall(st, st.args)
    [] c = "," -> Bad(st)
    [] c = "'" -> [st EXCEPT !.mode = "argq", !.buf = ""]
    [] OTHER -> [st EXCEPT !.mode = "word", !.buf = c]

AddArg(st, a) == [st EXCEPT !.args = Append(@, a)]

WordArg(st) ==
  LET w == st.buf x == Number(w)
  IN  CASE w \in {"true", "false"} -> AddArg(st, [k |-> "bool", v |-> w])
        [] w \in {"null", "nil"} -> AddArg(st, [k |-> "nil", v |-> ""])
        [] x.ok -> AddArg(st, [k |-> "num", v |-> x.v])
        [] x.unspec -> [st EXCEPT !.unspec = TRUE]
        [] OTHER -> Bad(st)

\* after an argument
ScanArgEnd(st, c) ==
  CASE c \in Space -> [st EXCEPT !.mode = "argend"]
    [] c = "," -> [st EXCEPT !.mode = "arg"]
    [] c = ")" -> EmitCall(st, st.args)
    [] OTHER -> Bad(st)

ScanWord(st, c) == IF c \in {",", ")"} THEN ScanArgEnd(WordArg(st), c) ELSE [st EXCEPT !.buf = @ \o c]

ScanArgQ(st, c) == IF c = "'" THEN [st EXCEPT !.mode = "argqq"] ELSE [st EXCEPT !.buf = @ \o c]

ScanArgQQ(st, c) ==
  IF c = "'" THEN [st EXCEPT !.mode = "argq", !.buf = @ \o "'"]
  ELSE ScanArgEnd(AddArg(st, [k |-> "str", v |-> st.buf]), c)

ScanStep(st0, c) ==
  IF st0.err \/ st0.unspec THEN st0
  ELSE LET st == IF c = "\n" THEN [st0 EXCEPT !.line = @ + 1, !.col = 0] ELSE [st0 EXCEPT !.col = @ + 1]
  IN CASE st.mode = "plain" -> ScanPlain(st, c)
       [] st.mode = "ref" -> ScanRef(st, c)
       [] st.mode = "idx" -> ScanIdx(st, c)
       [] st.mode = "quote" -> ScanQuote(st, c)
       [] st.mode = "hash" -> ScanHash(st, c)
       [] st.mode = "name" -> ScanName(st, c)
       [] st.mode = "num" -> ScanNum(st, c)
       [] st.mode = "arg" -> ScanArg(st, c)
       [] st.mode = "word" -> ScanWord(st, c)
       [] st.mode = "argq" -> ScanArgQ(st, c)
       [] st.mode = "argqq" -> ScanArgQQ(st, c)
       [] st.mode = "argend" -> ScanArgEnd(st, c)

FlushText(st) ==
  IF st.txt = "" THEN st ELSE [st EXCEPT !.out = Append(@, [k |-> "t", s |-> st.txt]), !.txt = ""]

ScanEnd(st) ==
  IF st.err \/ st.unspec THEN st
  ELSE CASE st.mode \in {"plain", "quote"} -> FlushText(st)   \* an open quote is plain text
         [] st.mode = "ref" -> IF st.q = "?" THEN EmitBind(st, "") ELSE Bad(st)
         [] st.mode = "idx" -> EmitBind(st, st.buf)
         [] st.mode = "name" -> EmitFunc(st)
         [] st.mode = "num" -> EmitCall(NumUnspec(st, st.buf), <<NumArg(st.buf)>>)
         [] OTHER -> Bad(st)

\* whether a placeholder whose index is beyond the range of integers is already
\* an error of syntax is not specified: there is no such argument, in any case
BigIndex(e) == e.k = "b" /\ Len(e.i) > 18

\* [ok, unspec, exprs]
Parse(s) ==
  LET st == ScanEnd(FoldLeft(ScanStep, ScanInit, Chars(s)))
  IN  [ok |-> ~st.err, unspec |-> st.unspec, exprs |-> st.out]

\* reads an observed list of expressions: plain texts are merged, the way the
\* text is split is not observable by a template
Normal(es) ==
  FoldLeft(LAMBDA a, e :
             IF e.k # "t" THEN Append(a, e)
             ELSE IF e.s = "" THEN a
             ELSE IF a # <<>> /\ a[Len(a)].k = "t"
                  THEN [a EXCEPT ![Len(a)] = [k |-> "t", s |-> a[Len(a)].s \o e.s]]
                  ELSE Append(a, [k |-> "t", s |-> e.s]),
           <<>>, es)

---------------------------------------------------------------------------
(* Placeholders of a built text: the indexes of its placeholders, left to   *)
(* right (0 for ?), and its skeleton, the text with placeholders masked.    *)

\* stands for a placeholder in a skeleton; it is in no text
Hole == ""

HoleStep(a, c) ==
  LET plain(b) == CASE c \in {"?", "$"} -> [b EXCEPT !.m = "ref", !.q = c]
                    [] c \in Quote -> [b EXCEPT !.m = "quote", !.q = c, !.skel = @ \o c]
                    [] OTHER -> [b EXCEPT !.m = "plain", !.skel = @ \o c]
      hole(b, i) == [b EXCEPT !.holes = Append(@, i), !.skel = @ \o Hole]
  IN CASE a.m = "plain" -> plain(a)
       [] a.m = "quote" -> [a EXCEPT !.skel = @ \o c, !.m = IF c = a.q THEN "plain" ELSE "quote"]
       [] a.m = "ref" /\ c = a.q -> [a EXCEPT !.m = "plain", !.skel = @ \o c \o c]
       [] a.m = "ref" /\ a.q = "$" /\ c \in Digit1 -> [a EXCEPT !.m = "idx", !.buf = c]
       [] a.m = "ref" /\ a.q = "$" -> plain([a EXCEPT !.skel = @ \o "$"])
       [] a.m = "ref" -> plain(hole(a, "0"))
       [] a.m = "idx" /\ c \in Digit -> [a EXCEPT !.buf = @ \o c]
       [] a.m = "idx" -> plain(hole(a, a.buf))

HoleEnd(a) ==
  CASE a.m = "ref" /\ a.q = "?" -> [a EXCEPT !.holes = Append(@, "0"), !.skel = @ \o Hole]
    [] a.m = "ref" -> [a EXCEPT !.skel = @ \o "$"]
    [] a.m = "idx" -> [a EXCEPT !.holes = Append(@, a.buf), !.skel = @ \o Hole]
    [] OTHER -> a

HoleScan(s) ==
  HoleEnd(FoldLeft(HoleStep, [m |-> "plain", q |-> "", buf |-> "", holes |-> <<>>, skel |-> ""], Chars(s)))

Holes(s) == HoleScan(s).holes
Skeleton(s) == HoleScan(s).skel

\* index of each hole in the arguments, 0 if it does not designate any
HoleIndexes(holes) ==
  [i \in 1..Len(holes) |->
     IF holes[i] = "0" THEN i ELSE IF Len(holes[i]) > 6 THEN 0 ELSE atoi(holes[i])]
=============================================================================
