------------------------------- MODULE Funcs -------------------------------
(***************************************************************************)
(* Preprocessing functions: which can be registered, and how the arguments *)
(* written in a template are passed to them.                               *)
(* A function is [id, in, var, out, beh]: the Go types of its parameters   *)
(* ("ctx" is *sqlf.Context), whether the last one is variadic, the Go types*)
(* of its results, and what it does.                                       *)
(***************************************************************************)
EXTENDS Values

IntTypes == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "myint"}
FloatTypes == {"float32", "float64", "myfloat"}
NumberTypes == IntTypes \cup FloatTypes
StringTypes == {"string", "mystring"}
BoolTypes == {"bool", "mybool"}

LegalName(name) == name # "" /\ AllIn(name, Letter)

HasCtx(f) == f.in # <<>> /\ f.in[1] = "ctx" /\ ~(f.var /\ Len(f.in) = 1)
Params(f) == IF HasCtx(f) THEN Tail(f.in) ELSE f.in

LegalFunc(f) ==
  /\ f.kind = "func"
  /\ \A i \in 1..Len(Params(f)) : Params(f)[i] \in NumberTypes \cup StringTypes \cup BoolTypes
  /\ f.out \in {<<>>, <<"string">>, <<"string", "error">>}

\* what a context can be given
LegalFuncs(fs) == \A i \in 1..Len(fs) : LegalName(fs[i].name) /\ LegalFunc(fs[i].fn)

\* the integer part of a decimal
IntPart(v) ==
  LET neg == HasPrefix(v, "-")
      u == IF neg THEN SubSeq(v, 2, Len(v)) ELSE v
      dots == {i \in 1..Len(u) : CharAt(u, i) = "."}
      ip == IF dots = {} THEN u ELSE SubSeq(u, 1, Min(dots) - 1)
  IN  IF ip = "0" THEN "0" ELSE (IF neg THEN "-" ELSE "") \o ip

Assignable(type, a) ==
  CASE a.k = "num" -> type \in NumberTypes
    [] a.k = "str" -> type \in StringTypes
    [] a.k = "bool" -> type \in BoolTypes
    [] OTHER -> FALSE

\* the value a parameter of the type gets, as text
Converted(type, a) == IF a.k = "num" /\ type \in IntTypes THEN IntPart(a.v) ELSE a.v

\* conversions which Go leaves to the implementation
Unspecified(type, a) ==
  /\ a.k = "num" /\ type \in IntTypes
  /\ \/ Len(IntPart(a.v)) > (IF type \in {"int8", "uint8"} THEN 2 ELSE IF type \in {"int16", "uint16"} THEN 4 ELSE 9)
     \/ HasPrefix(a.v, "-") /\ type \in {"uint", "uint8", "uint16", "uint32", "uint64"}

ParamType(f, i) == LET p == Params(f) IN IF i <= Len(p) THEN p[i] ELSE p[Len(p)]

ArityOk(f, n) ==
  LET p == Params(f) IN IF f.var THEN n >= Len(p) - 1 ELSE n = Len(p)

ArgsOk(f, args) ==
  /\ ArityOk(f, Len(args))
  /\ \A i \in 1..Len(args) : Assignable(ParamType(f, i), args[i])

ArgsUnspecified(f, args) == \E i \in 1..Len(args) : Unspecified(ParamType(f, i), args[i])

Passed(f, args) == [i \in 1..Len(args) |-> Converted(ParamType(f, i), args[i])]

---------------------------------------------------------------------------
(* The built-in functions.                                                  *)

BuiltIn(name, in, var) ==
  [kind |-> "func", id |-> name, in |-> in, var |-> var, out |-> <<"string", "error">>,
   beh |-> [k |-> "builtin", name |-> name]]

BuiltIns ==
  [ arg |-> BuiltIn("arg", <<"ctx", "int">>, FALSE),
    f |-> BuiltIn("f", <<"ctx", "int">>, FALSE),
    fragment |-> BuiltIn("f", <<"ctx", "int">>, FALSE),
    join |-> BuiltIn("join", <<"ctx", "string", "string", "int">>, TRUE) ]

\* behaviours which report an invalid index for 0
RejectsZero(beh) ==
  \/ beh.k \in {"list", "args", "frags", "idx", "panicidx"}
  \/ beh.k = "builtin"

\* functions a #join template can iterate
JoinCompatible(f) ==
  /\ f.out = <<"string", "error">>
  /\ Len(Params(f)) = 1 /\ Params(f)[1] \in NumberTypes
  /\ RejectsZero(f.beh)

\* env: sequence of scopes (function name -> function), innermost first
Defined(env, name) == \E i \in 1..Len(env) : name \in DOMAIN env[i]
Lookup(env, name) ==
  LET I == {i \in 1..Len(env) : name \in DOMAIN env[i]} IN env[Min(I)][name]
=============================================================================
