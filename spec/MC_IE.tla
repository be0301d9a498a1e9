------------------------------- MODULE MC_IE -------------------------------
(* IEthresh with N oracles over D rounds: every answer pattern, a round may ask an earlier instance again and get other answers *)
EXTENDS Noisy, TLC, Json
CONSTANTS N, D, E
VARIABLES s, round, tab, asked, eps
vars == <<s, round, tab, asked, eps>>
(* asked: the instance of each round; tab: the answers the oracles have ready in that round *)
Init == s = IEInit(N) /\ round = 0 /\ tab = <<>> /\ asked = <<>> /\ eps \in E
Sel == May(s, N, eps)
Known == {asked[k] : k \in 1..Len(asked)}
(* the answers belong to the round: an oracle asked again may have changed its mind *)
Ask(i) == \E ans \in [1..N -> 1..2] :
            (* oracles and labels are exchangeable: the first round is taken in order *)
            /\ round = 0 => ans[1] = 1 /\ \A o \in 1..(N - 1) : ans[o] <= ans[o + 1]
            /\ tab' = Append(tab, ans) /\ asked' = Append(asked, i)
            /\ s' \in IENext(s, N, Sel, i, ans)
Next == round < D /\ round' = round + 1 /\ eps' = eps /\ \E i \in Known \cup {Cardinality(Known) + 1} : Ask(i)
Spec == Init /\ [][Next]_vars
SomeoneIsAsked == Sel # {} /\ Must(s, N, eps) \subseteq Sel
RecordsAreCounts == \A o \in 1..N : s.recs[o].k <= s.recs[o].m /\ s.recs[o].m <= round
(* the best oracle is always asked; equal records are treated equally *)
BestAsked == \E o \in Sel : UI(s.recs[o], N) = MaxUI(s, N)
Equal == \A o, p \in 1..N : s.recs[o] = s.recs[p] => (o \in Sel) = (p \in Sel)
(* nobody is wiser than the majority every time *)
SomeoneAgrees == round > 0 => \E o \in 1..N : s.recs[o].k > 0
Emit == round = D => PrintT("B@@" \o ToJson([kind |-> "ie", n |-> N, eps |-> eps, tab |-> tab, asked |-> asked]))
=============================================================================
