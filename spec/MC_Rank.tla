------------------------------ MODULE MC_Rank ------------------------------
(* laws of the measures, over every prediction matrix with the given bounds *)
EXTENDS Rank, TLC, Json
CONSTANTS K, Den
Rows == {x \in [1..K -> 0..Den] : SumSeq([j \in 1..K |-> x[j]]) = Den}
Seqs(x) == [j \in 1..K |-> x[j]]
VARIABLES P
Init == P \in [1..3 -> {Seqs(x) : x \in Rows}]
Next == UNCHANGED P
Spec == Init /\ [][Next]_P
Measures == {"least_confident", "margin", "entropy"}
Sc(m) == [i \in 1..3 |-> Uncertainty(m, P[i], Den)]
Elig(m, b) == {S \in SUBSET (1..3) : Cardinality(S) = b /\ Best(Sc(m), 3, S, UTol(m, Den))}
Exists == \A m \in Measures : \A b \in 1..3 : Elig(m, b) # {}
(* with two classes all three measures agree *)
BinaryAgree == K = 2 => \A b \in 1..2 : Elig("least_confident", b) = Elig("margin", b) /\ Elig("margin", b) = Elig("entropy", b)
(* a row and any reordering of its classes are equally uncertain *)
ClassSymmetric == \A m \in Measures : \A i, j \in 1..3 :
   ({<<v, Cardinality({c \in 1..K : P[i][c] = v})>> : v \in 0..Den} = {<<v, Cardinality({c \in 1..K : P[j][c] = v})>> : v \in 0..Den})
     => Abs(Sc(m)[i] - Sc(m)[j]) = 0
(* certainty is least uncertain and the uniform row most uncertain *)
Extremes == \A m \in Measures : \A i, j \in 1..3 : (MaxOf(P[i]) = Den => Sc(m)[i] <= Sc(m)[j] + UTol(m, Den))
Uniform == \A m \in Measures : \A i, j \in 1..3 : ((\A c \in 1..K : P[i][c] * K = Den) => Sc(m)[i] + UTol(m, Den) >= Sc(m)[j])
(* unanimous committees do not disagree *)
Unanimous == LET V == [c \in 1..4 |-> [i \in 1..3 |-> ArgMax(P[i])]] IN \A i \in 1..3 : VoteEntropy(V, i) = 0 /\ Abs(KL([c \in 1..4 |-> P], i)) <= 12 * Den
KLNonNegative == LET C == <<P, [i \in 1..3 |-> P[(i % 3) + 1]]>> IN \A i \in 1..3 : KL(C, i) >= -12 * Den
Emit == PrintT("B@@" \o ToJson([P |-> P, den |-> Den, k |-> K]))
=============================================================================
