------------------------------ MODULE MC_Ceal ------------------------------
(* CEAL with two oracles, three initially labeled and two unlabeled instances *)
EXTENDS Noisy, TLC, Json
CONSTANTS P, C, NN
VARIABLES right, pred, cost, ec, nn
vars == <<right, pred, cost, ec, nn>>
Dist == <<<<1, 3, 6>>, <<9, 5, 2>>>>
Init == /\ right \in [1..2 -> SUBSET (1..3)] /\ pred \in [1..2 -> P] /\ cost \in [1..2 -> C]
        /\ ec \in BOOLEAN /\ nn \in NN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
K == Min({nn, 2})
(* the overall quality is evaluated on the labeled instances, here the initial ones *)
QQ(o, u) == Q(right[o], Dist[u], K, 100 - pred[u], IF ec THEN Cardinality(right[o]) ELSE cost[o], 3, ec)
Best == {p \in (1..2) \X (1..2) : \A q \in (1..2) \X (1..2) : Geq(QQ(p[1], p[2]), QQ(q[1], q[2]), TRUE)}
Exists == Best # {}
(* an oracle at least as expert everywhere and not dearer is as good a choice *)
Dominates == \A o \in 1..2, u \in 1..2 :
   (~ec /\ right[o] \subseteq right[3 - o] /\ cost[o] >= cost[3 - o] /\ <<o, u>> \in Best) => <<3 - o, u>> \in Best
(* with identical expertise the most uncertain instance's worth grows with its uncertainty *)
CheaperIsBetter == \A u \in 1..2 : (~ec /\ right[1] = right[2] /\ cost[1] < cost[2] /\ <<2, u>> \in Best) => QQ(2, u).n = 0
Emit == PrintT("B@@" \o ToJson([kind |-> "ceal", right |-> [o \in 1..2 |-> SetToSortSeq(right[o], <)], pred |-> pred, cost |-> cost, ec |-> ec, nn |-> nn]))
=============================================================================
