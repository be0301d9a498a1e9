----------------------------- MODULE MC_MLTools -----------------------------
(* C03: every list of at most MAXL index entries, built one entry at a time. *)
EXTENDS MLIndex, Json
CONSTANTS N, K, MAXL
VARIABLES b
I == 0..(N-1)
Entries == {<<"all", i>> : i \in I} \cup {<<"one", i, j>> : i \in I, j \in 0..(K-1)}
           \cup {<<"many", i, js>> : i \in I, js \in {<<0, 1>>, <<1, 0>>, <<1>>, <<1, 1>>}}
Y == [i \in 1..N |-> [j \in 1..K |-> 10 * i + j]]
Init == b = <<>>
Next == /\ Len(b) < MAXL
        /\ \E e \in Entries : b' = Append(b, e)
        /\ PrintT("B@@" \o ToJson(b'))
Spec == Init /\ [][Next]_b
P == DenotesAll(b, K)
FlattenExact == ToSet(FlatAll(b, K)) = P
IntegrateExact == IsIntegration(Integrate(b, K), b, K)
IntegrateStable == LET r == Integrate(b, K) IN ToSet(FlatAll(r, K)) = P /\ NoRepeat(FlatAll(r, K)) /\ Integrate(r, K) = r
MatrixExact == LET M == LabelMatrix(b, Y, -9) o == Order(b) IN
   b # <<>> => /\ Len(M) = Cardinality(Instances(P))
               /\ {q \in (1..Len(o)) \X (1..K) : M[q[1]][q[2]] # -9} = {q \in (1..Len(o)) \X (1..K) : <<o[q[1]], q[2]-1>> \in P}
=============================================================================
