------------------------------ MODULE MC_Vote ------------------------------
(* every vote of up to L labels out of K with weights 1..W *)
EXTENDS Noisy, TLC, Json
CONSTANTS L, K, W
VARIABLES labels, w
vars == <<labels, w>>
Init == labels = <<>> /\ w = <<>>
Next == Len(labels) < L /\ \E x \in 1..K, y \in 1..W : labels' = Append(labels, x) /\ w' = Append(w, y)
Spec == Init /\ [][Next]_vars
HasWinner == labels # <<>> => Winners(labels, w) # {}
(* permuting the votes does not change the outcome *)
Symmetric == Len(labels) > 1 => Winners(labels, w) = Winners(Reverse(labels), Reverse(w))
             /\ Winners(labels, w) = Winners(Append(Tail(labels), labels[1]), Append(Tail(w), w[1]))
(* a vote for a winner makes it the only winner; an absolute majority wins *)
Monotone == labels # <<>> => \A x \in Winners(labels, w) : Winners(Append(labels, x), Append(w, 1)) = {x}
Absolute == labels # <<>> => \A x \in 1..K : 2 * Votes(labels, w, x) > FoldSeq(LAMBDA a, b : a + b, 0, w) => Winners(labels, w) = {x}
(* equal weights are as good as no weight *)
Uniform == (labels # <<>> /\ \A i \in 1..Len(w) : w[i] = w[1]) => Winners(labels, w) = Winners(labels, Ones(Len(labels)))
Emit == labels # <<>> => PrintT("B@@" \o ToJson([kind |-> "vote", labels |-> labels, w |-> w]))
=============================================================================
