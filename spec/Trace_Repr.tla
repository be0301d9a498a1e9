----------------------------- MODULE Trace_Repr -----------------------------
EXTENDS Repr, TraceBase
(* quire: X, y of the training instances, L, pool, sel (positions)
   density: init has X, k, metric; pool, b, sel; the state is the set of possible densities
   graph: what the strategy tells of its graph (told.nb, told.d)
   lal: t[tree][instance] numerators over den, features f in units of 10^-6, predictions v, b, sel *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
Set(s) == {s[j] : j \in DOMAIN s}
SInit(tr) == IF tr.init.kind = "density" THEN 
              LET X == tr.init.X N == TLCEval([i \in 1..Len(X) |-> Nbr(X, tr.init.k, i)]) D0 == TLCEval(Density(X, N, tr.init.metric)) IN [N |-> N, clear |-> Clear(X, tr.init.k), D |-> {D0}, D0 |-> D0]
              ELSE [N |-> <<>>, clear |-> TRUE, D |-> {}, D0 |-> <<>>]
Tolerance == 200
Shape(e) == e.k = "ok" /\ Set(e.sel) \subseteq Set(e.pool) /\ Cardinality(Set(e.sel)) = Len(e.sel) /\ Len(e.sel) = (IF e.b < Len(e.pool) THEN e.b ELSE Len(e.pool))
Dens(st, e) == IF e.b >= Len(e.pool) THEN st.D ELSE UNION {After(D, st.N, Set(e.pool), Set(e.sel), Tolerance) : D \in st.D}
Close(a, b, t) == Abs(a - b) <= t
Features(e) == LET m == Len(e.t) n == Len(e.t[1]) IN
  /\ Len(e.f) = n
  /\ \A i \in 1..n : LET f == e.f[i] s == f[2] \div 1000 IN
     /\ Close(f[1], Fix(Mean(e.t, i), m * e.den), 3)
     \* squared deviation, in units of 10^-6
     /\ Close(s * s, Fix(Var(e.t, i), m * m * e.den * e.den), 2100)
     /\ Close(f[3], Fix(Cardinality({j \in DOMAIN e.y : e.y[j] > 0}), Len(e.y)), 3)
     /\ Close(f[4], e.oob, 3)
     /\ Close(f[6], SumSeq([j \in 1..n |-> e.f[j][2]]) \div n, 3 + n)
     /\ Close(f[7], Fix(SumSeq(e.depths), m), 3)
     /\ f[8] = Len(e.y)
Told(st, e) == IF e.k # "ok" THEN {"accepted"} ELSE IF ~st.clear THEN {} ELSE
  Bad("graph_as_built", Len(e.told.nb) = Len(st.D0) /\ \A i \in DOMAIN st.D0 : Set(e.told.nb[i]) = st.N[i])
  \cup Bad("starting_density", Len(e.told.d) = Len(st.D0) /\ \A i \in DOMAIN st.D0 : Close(e.told.d[i], st.D0[i], Tolerance))
SFails(st, e) ==
  IF e.op = "graph" THEN Told(st, e) ELSE
  IF ~Shape(e) THEN {"a_selection_of_the_pool"} ELSE
  CASE e.op = "quire" -> Bad("objective", QuireBest(e.X, e.y, Set(e.L), e.lam, Set(e.pool), e.sel[1]))
    [] e.op = "quire_order" -> Bad("independent_of_order", e.k2 = "ok" /\ e.sel2 = e.sel)
    [] e.op = "density" -> Bad("densest", ~st.clear \/ Dens(st, e) # {})
    [] e.op = "lal" -> Bad("greatest_expected_reduction", Len(e.v) = Len(e.pool) /\ Top([j \in DOMAIN e.pool |-> e.v[j]], {j \in DOMAIN e.pool : e.pool[j] \in Set(e.sel)}, e.b))
                       \cup Bad("features_of_the_selector", Features(e))
SAfter(st, e) == IF e.op = "density" /\ Shape(e) /\ st.clear THEN LET n == Dens(st, e) IN IF n = {} THEN st ELSE [st EXCEPT !.D = n] ELSE st
=============================================================================
