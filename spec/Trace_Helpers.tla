--------------------------- MODULE Trace_Helpers ---------------------------
EXTENDS Helpers, TraceBase
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == 0
Value(e) ==
  CASE e.op = "nlargest" -> Largest(e.a, e.n, e.v)
    [] e.op = "nsmallest" -> Smallest(e.a, e.n, e.v)
    [] e.op = "perm" -> Distinct(e.v) /\ Len(e.v) = e.n /\ \A i \in DOMAIN e.v : e.v[i] \in e.lo..e.hi
    [] e.op = "correspond" -> (e.v = 1) <=> Corresponding(e.ls)
    [] e.op = "unpack" -> e.v = Unpacked(e.ls) /\ e.kept
    [] e.op = "matrix" -> e.v = e.X
    [] e.op = "linear" -> e.v = Linear(e.X)
    [] e.op = "poly" -> e.v = Poly(e.X, e.g, e.c, e.d)
    [] e.op = "rbf" -> Near(e.v, Rbf(e.X, e.g), 3)
    [] e.op = "gauss" -> Near(e.v, Gauss(e.X, e.s2), 3)
    [] e.op = "minmax" -> e.v = [j \in DOMAIN e.C |-> MinMax(e.C[j], e.lo, e.hi)]
    [] e.op = "standard" -> Len(e.v) = Len(e.C) /\ \A j \in DOMAIN e.C : Len(e.v[j]) = Len(e.C[j]) /\ Standard(e.C[j], e.v[j])
SFails(st, e) ==
  Bad("input_unmodified", e.same) \cup
  (IF e.refuse THEN Bad("refused", e.k = "err") ELSE IF e.k # "ok" THEN {"accepted"} ELSE Bad(e.op, Value(e)))
SAfter(st, e) == st
=============================================================================
