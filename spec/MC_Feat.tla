------------------------------ MODULE MC_Feat ------------------------------
EXTENDS Feat
CONSTANTS N, F, D
VARIABLES H, H0, w1, w2, ops
vars == <<H, H0, w1, w2, ops>>
Cells == (1..N) \X (1..F)
Row(i) == {c \in H : c[1] = i}
Init == /\ H \in (SUBSET Cells) \ {{}, Cells} /\ H0 = H /\ ops = <<>>
        /\ \A i \in 1..(N - 1) : Cardinality(Row(i)) <= Cardinality(Row(i + 1))
        /\ w1 = TLCEval([c \in Cells |-> 0])                                   \* the truth
        /\ w2 = TLCEval([c \in Cells |-> IF c \in H THEN 1 ELSE 0])            \* the same with every hidden value changed
(* ask for b cells of the whole pool or of half of it, then acquire them or not *)
Do(b, part, acquire) ==
  /\ Len(ops) < D /\ H # {}
  /\ \E pool \in IF part THEN {p \in SUBSET H : Cardinality(p) = (Cardinality(H) + 1) \div 2} ELSE {H} :
       \E s \in {t \in SUBSET pool : Cardinality(t) = Min(b, Cardinality(pool))} :
         IF acquire THEN H' = H \ s /\ w2' = TLCEval([c \in Cells |-> IF c \in s THEN w1[c] ELSE w2[c]]) ELSE UNCHANGED <<H, w2>>
  /\ ops' = Append(ops, [b |-> b, part |-> part, acquire |-> acquire])
  /\ UNCHANGED <<H0, w1>>
Next == \E b \in {1, 2, N * F}, part, acquire \in BOOLEAN : Do(b, part, acquire)
Spec == Init /\ [][Next]_vars
Indistinguishable == \A c \in Cells : (c \notin H) <=> w1[c] = w2[c]
Shrinks == [][H' \subseteq H]_vars
View == <<H0, [i \in 1..N |-> Cardinality(Row(i))], ops>>
Emit == Len(ops) = D => PrintT("B@@" \o ToJson([n |-> N, f |-> F, h |-> H0, ops |-> ops]))
=============================================================================
