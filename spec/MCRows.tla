------------------------------- MODULE MCRows -------------------------------
(***************************************************************************)
(* Every scenario of a scan or a count: rows, columns, fields, and a fault   *)
(* at every step.                                                            *)
(***************************************************************************)
EXTENDS Model

VARIABLES sc, r
vars == <<sc, r>>

More == IF Deep THEN 4 ELSE 2
Good == Frag("SELECT $1, $1, #f1", <<IntV("5")>>, <<Frag("$1", <<StrV("q")>>, <<>>)>>)
Wrong == Frag("SELECT $1", <<>>, <<>>)
Faults(n) == {<<"none", 0>>, <<"query", 0>>, <<"close", 0>>} \cup {<<"next", i>> : i \in 1..n + 2} \cup {<<"scan", i>> : i \in 1..n + 1} \cup {<<"null", i>> : i \in 1..n}
Scenario(kind, rows, cols, dest, fault, wrong, style) ==
  [kind |-> kind, raw |-> IF kind \in {"scan", "count"} THEN "SELECT a FROM t" ELSE "",
   args |-> IF kind \in {"scan", "count"} THEN <<IntV("3"), StrV("x")>> ELSE <<>>,
   n |-> IF kind \in {"scan", "count"} THEN NilFrag ELSE IF wrong THEN Wrong ELSE Good,
   style |-> style, cols |-> cols, rows |-> rows, dest |-> dest, fault |-> fault[1], at |-> fault[2]]

Init ==
  /\ \E kind \in {"scan", "scanb", "count", "countb"}, rows \in 0..More, cols \in 1..3, dest \in 0..3 :
       \E fault \in Faults(rows) : \E wrong \in (IF kind \in {"scanb", "countb"} THEN {TRUE, FALSE} ELSE {FALSE}),
          style \in (IF kind \in {"scanb", "countb"} THEN {"$", "?"} ELSE {"$"}) :
         /\ kind \in {"count", "countb"} => dest = 0
         /\ Mine(rows + 3 * cols + 5 * dest + fault[2])
         /\ sc = Scenario(kind, rows, cols, dest, fault, wrong, style)
         /\ Out(rows + cols + dest + fault[2], <<[op |-> "scan", scan |-> sc]>>)
  /\ r = RowsInit

Next == r.ph # "end" /\ r' = RowsStep(sc, r) /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
End == r.ph = "end"

\* what has to be reported, told from the scenario alone
Reported ==
  \/ sc.fault = "query"
  \/ IsScan(sc) /\ \/ sc.fault = "next" /\ sc.at <= sc.rows + 1
                   \/ sc.fault \in {"scan", "null"} /\ sc.at <= sc.rows /\ sc.dest > 0
                   \/ sc.rows > 0 /\ sc.dest > sc.cols
  \/ ~IsScan(sc) /\ \/ sc.fault = "next" /\ sc.at = 1
                    \/ sc.rows > 0 /\ (sc.cols # 1 \/ (sc.fault \in {"scan", "null"} /\ sc.at = 1) \/ sc.fault = "close")

Released == r.closed <= r.opened /\ r.opened <= 1 /\ (End => r.closed = r.opened)
Errors == End => r.err = Reported
Results ==
  End => IF r.err THEN r.out = <<>> /\ r.n = "0"
         ELSE IF IsScan(sc) THEN r.out = [i \in 1..sc.rows |-> [j \in 1..sc.dest |-> Field(i, j)]]
         ELSE r.n = IF sc.rows = 0 THEN "0" ELSE Field(1, 1)
\* no more is read than there is
Reads == r.i <= sc.rows /\ (~IsScan(sc) => r.i <= 1)
Ends == <>End
\* running it step by step is what ScanOutcome says
Agrees == End => LET o == RowsRun(sc, RowsInit) IN o = r
=============================================================================
