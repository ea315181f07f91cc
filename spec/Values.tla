------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Argument values [t |-> Go type, v |-> text of the value], and the        *)
(* argument list (store) of a context in the two placeholder styles.        *)
(***************************************************************************)
EXTENDS Syntax

\* types whose values can't be compared (as map keys)
Incomparable == {"[]byte", "[]int", "[]string", "[]any", "map", "func", "ustruct", "ifs", "arrany"}
NaNs == {[t |-> "float64", v |-> "NaN"], [t |-> "float32", v |-> "NaN"]}

Mergeable(a) == a.t \notin Incomparable /\ a \notin NaNs

Slot(store, a) == SelectInSeq(store, LAMBDA b : b = a)

\* the store after committing a
Commit(style, store, a) ==
  IF style = "$" /\ Mergeable(a) /\ Slot(store, a) # 0 THEN store ELSE Append(store, a)

\* the placeholder returned for it
Placeholder(style, store, a) ==
  IF style = "?" THEN "?"
  ELSE IF Mergeable(a) /\ Slot(store, a) # 0 THEN "$" \o ToString(Slot(store, a))
  ELSE "$" \o ToString(Len(store) + 1)

\* the values which the placeholders of a text designate; Unbound if none
Unbound == [t |-> "unbound", v |-> ""]
Resolve(text, args) ==
  LET ix == HoleIndexes(Holes(text))
  IN  [i \in 1..Len(ix) |-> IF ix[i] \in 1..Len(args) THEN args[ix[i]] ELSE Unbound]

\* a store of the dollar style never has two equal mergeable values
DollarDistinct(store) ==
  \A i, j \in 1..Len(store) : i # j /\ Mergeable(store[i]) => store[i] # store[j]
=============================================================================
