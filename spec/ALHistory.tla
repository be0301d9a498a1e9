------------------------------ MODULE ALHistory ------------------------------
(* C06/C07: the recorded history of one active-learning fold.
   State h = [L0, U0, q]: initial labeled / unlabeled sets and the sequence of
   recorded queries [sel, cost, perf].  The meaning of a selection is a set of
   elements (sample indexes, or instance-label pairs denoted as in MLIndex).  *)
EXTENDS MLIndex

Elems(h, sel) == IF h.K = 0 THEN ToSet(sel) ELSE DenotesAll(sel, h.K)
Taken(h, k) == UNION {Elems(h, h.q[i].sel) : i \in 1..k}
LabAt(h, k) == h.L0 \cup Taken(h, k)
UnlAt(h, k) == h.U0 \ Taken(h, k)
CostOf(h) == LET F[i \in 0..Len(h.q)] == IF i = 0 THEN 0 ELSE F[i-1] + h.q[i].cost IN F[Len(h.q)]
QueriedOf(h) == LET F[i \in 0..Len(h.q)] == IF i = 0 THEN 0 ELSE F[i-1] + Len(h.q[i].sel) IN F[Len(h.q)]

AddQ(h, x) == [h EXCEPT !.q = Append(@, x)]
PopQ(h, i) == [h EXCEPT !.q = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
Recover(h, k) == [h EXCEPT !.q = SubSeq(@, 1, k)]
=============================================================================
