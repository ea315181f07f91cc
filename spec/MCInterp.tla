------------------------------ MODULE MCInterp ------------------------------
(***************************************************************************)
(* Interpolation: queries put together from pieces, with values of all kinds.*)
(***************************************************************************)
EXTENDS Model

Pieces == <<"$1", "$2", "$3", "?", " ", "'$1'", "\"?\"", "$$", "??", "a", "(", "'", "#f1", "\n", "-">>
Arguments ==
  << Val("nil", ""), Val("nilptr:int", ""), Val("nilptr:string", ""), Val("bool", "true"), Val("mybool", "false"),
     IntV("0"), Val("int8", "-128"), Val("int64", "-9223372036854775808"), Val("uint64", "18446744073709551615"), Val("myint", "3"),
     Val("float64", "0.1"), Val("float64", "123456789012345680"), Val("float32", "0.1"), Val("float64", "-0.0000001"), Val("myfloat", "2"),
     StrV(""), StrV("'"), StrV("''"), StrV("a'b\\'c"), StrV("$1 ? #f"), StrV("\\"), StrV("\n--"), StrV("%s"), Val("mystring", "';--"),
     Val("stringer", "o'x"), Val("*stringer", "q"), Val("valuer:int", "4"), Val("valuer:string", "v'v"), Val("valuer:nil", ""), Val("valuer:time", "2024-05-06T07:08:09Z"),
     Val("ptrvaluer:string", "w'"), Val("valuererr", ""), Val("time", "0"), Val("time", "2024-05-06T07:08:09.123-05:30"), Val("time", "2024-05-06T07:08:09Z"),
     Val("time", "2024-05-06T07:08:09-05:00|it's"), Val("time", "2024-05-06T07:08:09+03:00|MSK"), Val("valuer:time", "2024-05-06T07:08:09.5+02:00"),
     Val("valstr:string", "s'"), Val("strenum", "o'ne"), Val("valenum", "30"),
     Val("point", "1,2"), Val("[]int", "1"), Val("map", "a") >>
Formats == <<"", "2006-01-02", "2006-01-02 15:04:05", "2006-01-02 15:04:05.999999", "2006-01-02 MST", "2006-01-02 15 o'clock", "'2006-01-02 15:04:05'">>

VARIABLES w, q, args, fmt
vars == <<w, q, args, fmt>>

Bound == IF Deep THEN 5 ELSE 3
\* the first argument is any, the others vary with it
ArgLists(i) == {<<>>, <<Arguments[i]>>, <<Arguments[i], Arguments[((i * 7) % Len(Arguments)) + 1]>>}

Init ==
  \E i \in 1..Len(Arguments), f \in 1..Len(Formats) :
    /\ Mine(i) /\ (Arguments[i].t \in {"time", "valuer:time"} \/ f = 1)
    /\ args \in ArgLists(i) /\ fmt = Formats[f]
    /\ w = <<>> /\ q = ""
    /\ Out(0, <<[op |-> "interp", raw |-> q, args |-> args, fmt |-> fmt]>>)
Next ==
  /\ Len(w) < Bound
  /\ \E i \in 1..Len(Pieces) :
       /\ (Len(w) = 1 => Picked(i + w[1] + Len(args), 2)) /\ (Len(w) >= 2 => (i + Sum(w) + Len(args) + Seed) % 11 = 0)
       /\ w' = Append(w, i) /\ q' = q \o Pieces[i]
       /\ UNCHANGED <<args, fmt>>
       /\ Out(Hash(w'), <<[op |-> "interp", raw |-> q', args |-> args, fmt |-> fmt]>>)

---------------------------------------------------------------------------
x == Interpolated(q, args, fmt)
\* when no piece changes the meaning of the next ones, the result is each
\* piece replaced
Plain == \A i \in 1..Len(w) : w[i] \notin {12, 13} /\ (i < Len(w) => ~(w[i] = 4 /\ w[i + 1] \in {4, 9}))
Holes4 == Cardinality({i \in 1..Len(w) : w[i] = 4})
Mixed == Holes4 > 0 /\ \E i \in 1..Len(w) : w[i] \in 1..3
Index(i) == IF w[i] = 4 THEN Cardinality({j \in 1..i : w[j] = 4}) ELSE w[i]
IsHole(i) == w[i] \in 1..4
Fine(i) == Index(i) \in 1..Len(args) /\ Literal(args[Index(i)], fmt).ok
Replaced ==
  Plain => IF Mixed \/ \E i \in 1..Len(w) : IsHole(i) /\ ~Fine(i) THEN x.s = "err"
           ELSE x = [s |-> "ok", t |-> FoldLeft(LAMBDA a, i : IF IsHole(i) THEN Apart(a, Literal(args[Index(i)], fmt).s) ELSE a \o Pieces[w[i]], "", [i \in 1..Len(w) |-> i])]
\* no comment starts where the query has none
Comments(t) == Cardinality({i \in 1..Len(t) - 1 : SubSeq(t, i, i + 1) = "--"})
NoComment ==
  x.s = "ok" /\ Plain /\ (\A i \in 1..Len(args) : Comments(Literal(args[i], fmt).s) = 0) => Comments(x.t) = Comments(q)
NoCalls == (\E i \in 1..Len(w) : w[i] = 13 /\ \A j \in 1..i - 1 : w[j] # 12) => x.s = "err"
\* a literal can be read back
Readable ==
  \A i \in 1..Len(args) :
    args[i].t \in {"string", "mystring", "stringer", "*stringer", "valuer:string", "ptrvaluer:string"} =>
      LET y == ReadLiteral(Literal(args[i], fmt).s) IN y.m = "q" /\ y.v = args[i].v
OneLiteral ==
  \A i \in 1..Len(args) : args[i].t \in {"time", "valuer:time"} => ReadLiteral(Literal(args[i], fmt).s).m = "q"
\* a value can't escape from its literal: what follows is lexed as it was
Contained ==
  x.s = "ok" /\ Plain => Len(Holes(x.t)) = 0
=============================================================================
