----------------------------- MODULE MC_MLQuery -----------------------------
EXTENDS MLQuery
CONSTANTS N, K, D
VARIABLES U, U0, ops
vars == <<U, U0, ops>>
Labs == 0..(K - 1)
(* rows of unknown labels; rows are interchangeable, so their sizes ascend *)
Init == /\ \E f \in [1..N -> SUBSET Labs] :
             /\ \A i \in 1..(N - 1) : Cardinality(f[i]) <= Cardinality(f[i + 1])
             /\ U = {<<i, l>> : i \in 1..N, l \in Labs} \cap UNION {{<<i, l>> : l \in f[i]} : i \in 1..N}
        /\ U # {} /\ U0 = U /\ ops = <<>>
Do(kind, b) ==
  /\ Len(ops) < D /\ U # {}
  /\ kind = "auro" => \E i \in InsOf(U) : Cardinality(LabOf(U, i)) > 1
  /\ \E s \in Answers(kind, U, K, b) : U' = U \ s
  /\ ops' = Append(ops, [kind |-> kind, b |-> b])
  /\ UNCHANGED U0
Next == \/ \E kind \in {"pairs", "ins"}, b \in {1, 2, N * K} : Do(kind, b)
        \/ Do("pair", 1) \/ Do("auro", 1)
Spec == Init /\ [][Next]_vars
OnlyUnknown == U \subseteq U0
(* asking for whole instances leaves the partly known ones alone *)
PartlyKnownStay == [][\A o \in {ops'} : (Len(o) > Len(ops) /\ o[Len(o)].kind = "ins") => \A i \in InsOf(U) \ Whole(U, K) : LabOf(U', i) = LabOf(U, i)]_vars
AskAll == [][\A o \in {ops'} : (Len(o) > Len(ops) /\ o[Len(o)].kind = "pairs" /\ o[Len(o)].b = N * K) => U' = {}]_vars
AuroDistinct == [][\A o \in {ops'} : (Len(o) > Len(ops) /\ o[Len(o)].kind = "auro") => Cardinality(U \ U') = 2 /\ Cardinality(InsOf(U \ U')) = 1]_vars
View == <<U0, [i \in 1..N |-> Cardinality(LabOf(U, i))], ops>>
Emit == ops # <<>> => PrintT("B@@" \o ToJson([n |-> N, k |-> K, u |-> U0, ops |-> ops]))
=============================================================================
