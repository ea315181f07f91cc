------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters and texts. A text is a TLA+ string, one character per rune   *)
(* of the Go string (the harness maps bytes which are no valid UTF-8 and   *)
(* control characters to private use characters, one to one).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, IOUtils, Json

CharAt(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

\* the white space of unicode.IsSpace
Space ==
  { " ", "\t", "\n", "\r",
    "", "", "", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "　" }
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit1 == Digit \ {"0"}
Letter == ToSet(Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"))
Quote == {"'", "\"", "`"}

\* strings.TrimSpace
Trim(s) ==
  IF s = "" THEN ""
  ELSE IF CharAt(s, 1) \notin Space /\ CharAt(s, Len(s)) \notin Space THEN s
  ELSE LET I == {i \in 1..Len(s) : CharAt(s, i) \notin Space}
       IN  IF I = {} THEN "" ELSE SubSeq(s, Min(I), Max(I))

\* the concatenation of texts, with a separator
JoinTexts(ts, sep) ==
  FoldLeft(LAMBDA a, t : [f |-> FALSE, s |-> IF a.f THEN t ELSE a.s \o sep \o t],
           [f |-> TRUE, s |-> ""], ts).s

NonEmpty(ts) == SelectSeq(ts, LAMBDA t : t # "")

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* positions where p occurs in s
Occurs(s, p) == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}

Replace1(s, c, by) ==
  FoldLeft(LAMBDA a, x : a \o (IF x = c THEN by ELSE x), "", Chars(s))
Double(s, c) == Replace1(s, c, c \o c)

AllIn(s, S) == \A i \in 1..Len(s) : CharAt(s, i) \in S

StripLead0(d) ==  \* leading zeros of a string of digits, keeping one digit
  LET I == {i \in 1..Len(d) : CharAt(d, i) # "0"}
  IN  IF I = {} THEN "0" ELSE SubSeq(d, Min(I), Len(d))
StripTrail0(d) == \* trailing zeros, possibly all of them
  LET I == {i \in 1..Len(d) : CharAt(d, i) # "0"}
  IN  IF I = {} THEN "" ELSE SubSeq(d, 1, Max(I))
Zeros(n) == FoldLeft(LAMBDA a, x : a \o "0", "", [i \in 1..n |-> 0])
=============================================================================
