------------------------------ MODULE MC_Knap ------------------------------
(* every small knapsack: the dynamic programme and its backtracking attain the definition *)
EXTENDS Knap
CONSTANTS N, V, C, B
VARIABLES v, c, b
vars == <<v, c, b>>
Init == v \in UNION {[1..n -> 0..V] : n \in 1..N} /\ c \in UNION {[1..n -> 1..C] : n \in 1..N} /\ Len(v) = Len(c) /\ b \in 0..B
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
DpIsBest == KnapDP(v, c, b) = Best(v, c, b)
BackIsBest == LET s == Back(RowsAll(v, c, b, Len(v)), v, c, Len(v), b) IN Feasible(s, c, b) /\ SumOver(s, v) = Best(v, c, b)
MoreBudgetIsNoWorse == b > 0 => Best(v, c, b - 1) <= Best(v, c, b)
Emit == PrintT("B@@" \o ToJson([v |-> v, c |-> c, b |-> b]))
=============================================================================
