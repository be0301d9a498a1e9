-------------------------------- MODULE Split --------------------------------
(* C04/C05: random splits.  A fold is [train, test, lab, unlab].
   Ratios are rationals <<num, den>>; a size is allowed when it is a nearest
   integer of the exact value (either neighbour at a tie).                   *)
EXTENDS Sequences, Integers, FiniteSets, SequencesExt, TLC

Near(k, num, den) == 2 * (k * den - num) \in (-den)..den      \* k = round(num/den)
NoRep(q) == Cardinality(ToSet(q)) = Len(q)
TrainSize(k, n, t) == Near(k, (t[2] - t[1]) * n, t[2])
\* labeled instances: nearest integer of rate * |train|, at least one
LabSize(k, m, r) == Near(k, r[1] * m, r[2]) \/ (k = 1 /\ \E z \in 0..1 : Near(z, r[1] * m, r[2]))
LabSizes(m, r) == {k \in 0..m : LabSize(k, m, r) /\ k >= 1}

Disjoint(a, b) == ToSet(a) \cap ToSet(b) = {}
PartitionOf(a, b, whole) == /\ NoRep(a) /\ NoRep(b) /\ Disjoint(a, b)
                            /\ ToSet(a) \cup ToSet(b) = whole
Classes(y, S) == {y[x + 1] : x \in S}           \* y indexed by position
Positives(Y, S) == {j \in 1..Len(Y[1]) : \E x \in S : Y[x + 1][j] > 0}
=============================================================================
