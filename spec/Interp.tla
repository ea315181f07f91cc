------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation: placeholders of a query replaced by literals.             *)
(***************************************************************************)
EXTENDS Values

Sub(t, p) == SubSeq(t, Len(p) + 1, Len(t))
StringLit(s) == "'" \o Double(s, "'") \o "'"

\* times are written as RFC3339 with up to microseconds, in UTC or with an
\* offset, maybe followed by a bar and the name of their zone
TimeBar(v) == IF \E i \in 1..Len(v) : CharAt(v, i) = "|" THEN CHOOSE i \in 1..Len(v) : CharAt(v, i) = "|" /\ \A j \in 1..i - 1 : CharAt(v, j) # "|" ELSE Len(v) + 1
ZonePart(v) == IF CharAt(v, Len(v)) = "Z" THEN "Z" ELSE SubSeq(v, Len(v) - 5, Len(v))
\* what stands for a zone without a name
NoName(z) == IF z = "Z" THEN "UTC" ELSE SubSeq(z, 1, 3) \o SubSeq(z, 5, 6)
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # "" /\ CharAt(s, Len(s)) = "0" THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* a fraction in microseconds, with a point if not nothing; it must not round up to a second
Micros(f) ==
  IF Len(f) <= 7 THEN f
  ELSE LET up == atoi("1" \o SubSeq(f, 2, 7)) + (IF atoi(CharAt(f, 8)) >= 5 THEN 1 ELSE 0)
           t == TrimZeros(SubSeq(ToString(up), 2, 7))
       IN  IF t = "" THEN "" ELSE "." \o t
TimeText(v0, fmt) ==
  LET v == SubSeq(v0, 1, TimeBar(v0) - 1)
      zone == SubSeq(v0, TimeBar(v0) + 1, Len(v0))
      z == ZonePart(v)
  IN  CASE fmt = "" -> SubSeq(v, 1, 19) \o z
    [] fmt = "2006-01-02" -> SubSeq(v, 1, 10)
    [] fmt = "2006-01-02 15:04:05" -> SubSeq(v, 1, 10) \o " " \o SubSeq(v, 12, 19)
    [] fmt = "2006-01-02 15:04:05.999999" ->
         SubSeq(v, 1, 10) \o " " \o SubSeq(v, 12, 19) \o Micros(SubSeq(v, 20, Len(v) - Len(z)))
    [] fmt = "2006-01-02 MST" -> SubSeq(v, 1, 10) \o " " \o (IF zone = "" THEN NoName(z) ELSE zone)
    [] fmt = "2006-01-02 15 o'clock" -> SubSeq(v, 1, 10) \o " " \o SubSeq(v, 12, 13) \o " o'clock"
    [] fmt = "'2006-01-02 15:04:05'" -> "'" \o SubSeq(v, 1, 10) \o " " \o SubSeq(v, 12, 19) \o "'"

LitOk(s) == [ok |-> TRUE, s |-> s]
NoLit == [ok |-> FALSE, s |-> ""]

RECURSIVE Literal(_, _)
Literal(a, fmt) ==
  CASE a.t = "nil" \/ HasPrefix(a.t, "nilptr:") -> LitOk("NULL")
    [] HasPrefix(a.t, "valuer:") -> Literal([t |-> Sub(a.t, "valuer:"), v |-> a.v], fmt)
    [] HasPrefix(a.t, "valstr:") -> Literal([t |-> Sub(a.t, "valstr:"), v |-> a.v], fmt)
    [] HasPrefix(a.t, "ptrvaluer:") -> Literal([t |-> Sub(a.t, "ptrvaluer:"), v |-> a.v], fmt)
    [] a.t \in {"bool", "mybool"} -> LitOk(IF a.v = "true" THEN "TRUE" ELSE "FALSE")
    [] a.t \in {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
                "myint", "valenum", "float32", "float64", "myfloat"} -> LitOk(a.v)
    [] a.t \in {"string", "mystring", "stringer", "*stringer", "strenum"} -> LitOk(StringLit(a.v))
    [] a.t = "time" -> LitOk(IF a.v = "0" THEN "'0000-00-00'" ELSE StringLit(TimeText(a.v, fmt)))
    [] OTHER -> NoLit      \* "valuererr" and unsupported types

\* a minus and a negative number must not start a comment
Apart(t, x) == IF x # "" /\ CharAt(x, 1) = "-" /\ t # "" /\ CharAt(t, Len(t)) = "-" THEN t \o " " \o x ELSE t \o x

\* [s, t]
Interpolated(query, args, fmt) ==
  LET p == Parse(query)
      piece(e) == CASE e.k = "t" -> LitOk(e.s)
                    [] e.k = "b" -> LET i == IF Len(e.i) > 6 THEN 0 ELSE atoi(e.i)
                                    IN IF i \in 1..Len(args) THEN Literal(args[i], fmt) ELSE NoLit
                    [] OTHER -> NoLit
      ps == [i \in 1..Len(p.exprs) |-> piece(p.exprs[i])]
  IN  IF p.unspec THEN [s |-> "unspec", t |-> ""]
      ELSE IF ~p.ok \/ \E i \in 1..Len(ps) : ~ps[i].ok THEN [s |-> "err", t |-> ""]
      ELSE [s |-> "ok", t |-> FoldLeft(LAMBDA a, i : IF p.exprs[i].k = "b" THEN Apart(a, ps[i].s) ELSE a \o ps[i].s, "", [i \in 1..Len(ps) |-> i])]

\* reads a string literal back: the value it denotes, when the whole text is
\* one literal
ReadStep(a, c) ==
  CASE a.m = "0" -> IF c = "'" THEN [a EXCEPT !.m = "in"] ELSE [a EXCEPT !.m = "bad"]
    [] a.m = "in" -> IF c = "'" THEN [a EXCEPT !.m = "q"] ELSE [a EXCEPT !.v = @ \o c]
    [] a.m = "q" -> IF c = "'" THEN [a EXCEPT !.m = "in", !.v = @ \o "'"] ELSE [a EXCEPT !.m = "bad"]
    [] OTHER -> a
ReadLiteral(s) == FoldLeft(ReadStep, [m |-> "0", v |-> ""], Chars(s))
=============================================================================
