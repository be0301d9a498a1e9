------------------------------ MODULE MC_Pool ------------------------------
EXTENDS Pool
CONSTANTS N, D
VARIABLES U, L, ops
vars == <<U, L, ops>>
Init == U = 1..N /\ L = {} /\ ops = <<>>
Bs == {1, 2, N - 1, N, N + 2}
(* select b from the whole pool or half of it; label what was selected, or not *)
Do(b, part, move) ==
  /\ Len(ops) < D /\ U # {}
  /\ \E pool \in IF part THEN {p \in SUBSET U : p # {} /\ Cardinality(p) = (Cardinality(U) + 1) \div 2} ELSE {U} :
       \E s \in Selections(pool, b) :
         /\ U' = IF move THEN U \ s ELSE U
         /\ L' = IF move THEN L \cup s ELSE L
  /\ ops' = Append(ops, [b |-> b, part |-> part, move |-> move])
Next == \E b \in Bs, part, move \in BOOLEAN : Do(b, part, move)
Spec == Init /\ [][Next]_vars
Partition == U \cap L = {} /\ U \cup L = 1..N
NoSelectionWhenEmpty == U = {} => ~ENABLED Next
Progress == [][\A o \in {ops'} : (Len(o) > Len(ops) /\ o[Len(o)].move) => Cardinality(U') < Cardinality(U)]_vars
(* one representative per sequence of operations: sets of equal size are interchangeable *)
View == <<Cardinality(U), ops>>
Emit == (Len(ops) = D \/ (U = {} /\ ops # <<>>)) => PrintT("B@@" \o ToJson([n |-> N, ops |-> ops]))
=============================================================================
