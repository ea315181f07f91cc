------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* What the models (MC*.tla) share: short names for objects, how a model is  *)
(* split into shards explored by different processes, and the output of the  *)
(* behaviours to replay on the real code.                                    *)
(***************************************************************************)
EXTENDS Props

Shards == atoi(IOEnv.VERIF_SHARDS)
Shard == atoi(IOEnv.VERIF_SHARD)
Seed == atoi(IOEnv.VERIF_SEED)
Deep == IOEnv.VERIF_TIER = "thorough"
Mine(i) == i % Shards = Shard
\* one out of n, chosen by the seed, in the quick tier
Picked(i, n) == IF Deep THEN TRUE ELSE (i + Seed) % n = 0

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* a number for a sequence of small numbers, to pick shards by
Hash(s) == FoldLeft(LAMBDA a, x : (a * 31 + x) % 999983, 7, s)

Val(t, v) == [t |-> t, v |-> v]
IntV(v) == Val("int", v)
StrV(v) == Val("string", v)
Full(raw, args, frags, prefix, suffix) ==
  [k |-> "frag", raw |-> raw, args |-> args, frags |-> frags, prefix |-> prefix, suffix |-> suffix]
Frag(raw, args, frags) == Full(raw, args, frags, "", "")
Col(ta, name) == [k |-> "col", tn |-> "t" \o ta, ta |-> ta, name |-> name, anon |-> FALSE]
Ref(id) == [k |-> "ref", id |-> id]
NilFrag == [k |-> "nilfrag"]
Expr(f) == [k |-> "expr", frag |-> f]
Cust(parts) == [k |-> "cust", parts |-> parts]
PartText(s) == [p |-> "t", s |-> s]
PartArg(v) == [p |-> "a", v |-> v]
PartNode(n) == [p |-> "n", n |-> n]
QB == [k |-> "qb"]

Fn(id, in, var, out, beh) == [kind |-> "func", id |-> id, in |-> in, var |-> var, out |-> out, beh |-> beh]
Named(name, fn) == [name |-> name, fn |-> fn]
StrErr == <<"string", "error">>

Def(id, n) == [op |-> "def", id |-> id, node |-> n]
P == IOEnv.VERIF_PROP
CtxOp(id, style) == [op |-> "ctx", id |-> id, style |-> style]
CtxfOp(id, parent, fs) == [op |-> "ctxf", id |-> id, parent |-> parent, funcs |-> fs]
BuildOp(ctx, n) == [op |-> "build", ctx |-> ctx, n |-> n]
QueryOp(n, style) == [op |-> "query", n |-> n, style |-> style]

\* sequences of length at most n over 1..k
Words(k, n) == UNION {[1..i -> 1..k] : i \in 0..n}

\* a script to replay, one out of Keep of them
Keep == atoi(IOEnv.VERIF_KEEP)
Out(hash, ops) == IF (hash + Seed) % Keep = 0 THEN PrintT("@S " \o ToJson(ops)) ELSE TRUE
=============================================================================
