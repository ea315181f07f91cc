------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: replays the calls recorded from the real code on the   *)
(* specification, one state per call, and judges every call by the property *)
(* given. Each recorded script is a behaviour of its own.                    *)
(***************************************************************************)
EXTENDS Props

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
P == IOEnv.VERIF_PROP

VARIABLES s, l, w, n
vars == <<s, l, w, n>>
Progress == <<s, l>>   \* VIEW: the rest is a function of it

Init == /\ s \in 1..Len(Traces) /\ l = 1 /\ w = World0
        /\ n = [ok |-> 0, bad |-> 0, vac |-> 0]

Event == Traces[s].ev[l]

Report(v, x) ==
  v = "bad" => PrintT("@BAD " \o ToJson([s |-> s, id |-> Traces[s].id, l |-> l, x |-> x]))

Next ==
  /\ l <= Len(Traces[s].ev)
  /\ LET a == Apply(w, Event) v == Verdict(P, Event, w, a.x)
     IN  /\ w' = a.w
         /\ n' = [n EXCEPT ![v] = @ + 1]
         /\ Report(v, a.x)
  /\ l' = l + 1 /\ UNCHANGED s
  /\ (l = Len(Traces[s].ev) => PrintT("@END " \o ToJson([s |-> s, n |-> n'])))
=============================================================================
