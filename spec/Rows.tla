-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* Scanning: the protocol between Scan or Count and the rows of a query,    *)
(* with a fault at any step. A scenario s is                                *)
(*   kind   "scan", "scanb" (from a builder), "count", "countb"             *)
(*   rows, cols   what the database returns, dest  fields scanned           *)
(*   fault, at    "none", "query", "next" (reading row at), "scan" (row at), *)
(*                "null" (a field of row at), "close"                                                   *)
(* State: ph phase, i rows read, out results, err, opened and closed rows.   *)
(***************************************************************************)
EXTENDS Values

RowsInit == [ph |-> "query", i |-> 0, out |-> <<>>, err |-> FALSE, n |-> "0", opened |-> 0, closed |-> 0]

IsScan(s) == s.kind \in {"scan", "scanb"}
Field(i, j) == ToString(i * 100 + j)

\* every way to return closes the rows
Return(r, err) == [r EXCEPT !.ph = "end", !.err = err, !.closed = r.opened, !.out = IF err THEN <<>> ELSE @]

RowsQuery(s, r) == IF s.fault = "query" THEN Return(r, TRUE) ELSE [r EXCEPT !.ph = "next", !.opened = 1]

RowsNext(s, r) ==
  LET i == r.i + 1
  IN  IF s.fault = "next" /\ s.at = i THEN Return(r, TRUE)
      ELSE IF i > s.rows THEN Return(r, FALSE)  \* no row to count: 0
      ELSE [r EXCEPT !.ph = "scan", !.i = i]

RowsScan(s, r) ==
  LET d == IF IsScan(s) THEN s.dest ELSE 1
  IN  IF d > s.cols \/ (~IsScan(s) /\ s.cols # 1) \/ (s.fault \in {"scan", "null"} /\ s.at = r.i /\ d > 0) THEN Return(r, TRUE)
      ELSE IF IsScan(s) THEN [r EXCEPT !.ph = "next", !.out = Append(@, [j \in 1..d |-> Field(r.i, j)])]
      ELSE IF s.fault = "close" THEN Return(r, TRUE)
      ELSE Return([r EXCEPT !.n = Field(1, 1)], FALSE)

RowsStep(s, r) ==
  CASE r.ph = "query" -> RowsQuery(s, r)
    [] r.ph = "next" -> RowsNext(s, r)
    [] r.ph = "scan" -> RowsScan(s, r)

RECURSIVE RowsRun(_, _)
RowsRun(s, r) == IF r.ph = "end" THEN r ELSE RowsRun(s, RowsStep(s, r))

CountQuery(q) == "SELECT COUNT(1) FROM (" \o q \o ") list"
=============================================================================
