---------------------------- MODULE MC_AceSched ----------------------------
(* every order in which the folds can end, failing or not, under every limit *)
EXTENDS AceLimit, TLC, Json
VARIABLES n, m, begun, ended, order
vars == <<n, m, begun, ended, order>>
Init == /\ n \in 1..4 /\ m \in 1..4 /\ m <= n /\ begun = {} /\ ended = {} /\ order = <<>>
Caught == Cardinality(begun \ ended) = Settled(n, m, Cardinality(ended))
Launch == /\ ~Caught /\ \E i \in 1..n : i \notin begun /\ (\A j \in 1..(i - 1) : j \in begun)
                             /\ begun' = begun \cup {i} /\ UNCHANGED <<n, m, ended, order>>
Leave == /\ Caught /\ \E i \in begun \ ended : \E f \in {0, 1} :
              /\ ended' = ended \cup {i} /\ order' = Append(order, <<i, f>>) /\ UNCHANGED <<n, m, begun>>
Next == Launch \/ Leave
Spec == Init /\ [][Next]_vars
WithinLimit == Cardinality(begun \ ended) <= m
Emit == (ended = 1..n) => PrintT("B@@" \o ToJson([n |-> n, m |-> m, order |-> order]))
=============================================================================
