---------------------------- MODULE MC_Metrics ----------------------------
(* The definitions are checked against each other on every small instance:
   the state is one sample ranking (bin) or one label ranking (row).          *)
EXTENDS Metrics, Json
CONSTANTS N, K, V
VARIABLES kind, y, s, w
vars == <<kind, y, s, w>>
(* first the scores, then labels and weights (weights vary for up to W samples) *)
CONSTANT W
Init == /\ y = <<>> /\ w = <<>>
        /\ \/ kind = "bin" /\ \E n \in 2..N : s \in [1..n -> 0..V]
           \/ kind = "row" /\ \E k \in 2..K : s \in [1..k -> 0..V]
Next == /\ y = <<>> /\ UNCHANGED <<kind, s>>
        /\ y' \in [DOMAIN s -> 0..1]
        /\ w' \in IF kind = "bin" /\ Len(s) <= W THEN [DOMAIN s -> 1..2] ELSE {Ones(Len(s))}
Spec == Init /\ [][Next]_vars
P == {i \in DOMAIN y : y[i] = 1}
Neg(q) == [i \in DOMAIN q |-> V - q[i]]
Swap(q) == [q EXCEPT ![1] = q[2], ![2] = q[1]]
Emitted == PrintT("B@@" \o ToJson([kind |-> kind, y |-> y, s |-> s, w |-> w]))
InUnit(a) == a[1] >= 0 /\ a[1] <= a[2]
BinLaws == kind = "bin" /\ y # <<>> =>
  LET p == [i \in DOMAIN s |-> IF s[i] > 0 THEN 1 ELSE 0] IN
  /\ InUnit(Accuracy(y, p, w)) /\ ZeroOne(y, p, w) = Q(Wrong(y, p, w), SumN(w))
  /\ InUnit(F1(y, p, 1)) /\ (F1(y, p, 1) = <<1, 1>> <=> (y = p /\ P # {})) /\ Hamming(y, p) = ZeroOne(y, p, Ones(Len(y)))
  /\ (Defined(P, s, w) =>
        /\ InUnit(AUC(P, s, w))
        \* the area under the curve is the probability of ranking a pair correctly
        /\ Area2(RocX(P, s, w), RocY(P, s, w)) = Mul(<<2, 1>>, AUC(P, s, w))
        /\ Add(AUC(P, s, w), AUC(P, Neg(s), w)) = <<1, 1>>
        /\ AUC(P, s, w) = AUC(DOMAIN y \ P, Neg(s), w)
        /\ AUC({i \in DOMAIN y : Swap(y)[i] = 1}, Swap(s), Swap(w)) = AUC(P, s, w)
        /\ \A n \in 1..(Len(Recall(P, s, w)) - 1) : Leq(Recall(P, s, w)[n + 1], Recall(P, s, w)[n]) /\ InUnit(Precision(P, s, w)[n]))
  /\ Emitted
RowLaws == kind = "row" /\ y # <<>> =>
  /\ InUnit(RankLossRow(y, s)) /\ InUnit(LrapRow(y, s))
  /\ Leq(<<Cardinality(Rel(y)), 1>>, CoverageRow(y, s)) /\ Leq(CoverageRow(y, s), <<Len(y), 1>>)
  \* a perfect ranking
  /\ LET perfect == \A a \in Rel(y) : \A b \in DOMAIN y \ Rel(y) : s[a] > s[b] IN
     /\ (perfect \/ Rel(y) = {}) <=> RankLossRow(y, s) = <<0, 1>>
     /\ ~Plain(y) => (perfect <=> LrapRow(y, s) = <<1, 1>>) /\ (perfect => CoverageRow(y, s) = <<Cardinality(Rel(y)), 1>>)
                     /\ (perfect => OneErrRow(y, s, FALSE) = <<0, 1>>)
  /\ ~Plain(y) => Leq(APRow(y, s, FALSE), APRow(y, s, TRUE)) /\ InUnit(APRow(y, s, TRUE))
       /\ ((\A a, b \in DOMAIN y : s[a] = s[b] => a = b) => APRow(y, s, TRUE) = LrapRow(y, s) /\ APRow(y, s, FALSE) = LrapRow(y, s))
       \* the ranking loss of one label ranking is one minus its AUC when there are no ties
       /\ ((\A a, b \in DOMAIN y : s[a] = s[b] => a = b) => Sub1(RankLossRow(y, s)) = AUC(Rel(y), s, Ones(Len(y))))
  /\ Leq(OneErrRow(y, s, TRUE), OneErrRow(y, s, FALSE))
  /\ Emitted
=============================================================================
