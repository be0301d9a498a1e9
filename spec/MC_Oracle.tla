----------------------------- MODULE MC_Oracle -----------------------------
(* A crowd of oracles that learn and are queried, by one, some or all of them. *)
EXTENDS OracleKB, Json, TLC
CONSTANTS Names, Idx, K, MAXH
VARIABLES kb, hs, cost, hist
vars == <<kb, hs, cost, hist>>
Emit(e) == hist' = Append(hist, e) /\ PrintT("B@@" \o ToJson(hist'))
Ent(nm, i) == [i |-> i, exa |-> i, lab |-> [j \in 1..K |-> <<nm, i, j>>], cost |-> [j \in 1..K |-> i + j]]
Init == /\ kb = [nm \in Names |-> {Ent(nm, 0)}] /\ hs = <<>> /\ cost = 0 /\ hist = <<>>
Spellings == {<<"all", i>> : i \in Idx} \cup {<<"one", i, j>> : i \in Idx, j \in {0, K}} \cup {<<"many", i, <<K - 1, 0>>>> : i \in Idx}
Learn == \E nm \in Names, i \in Idx : /\ i \notin Keys(kb[nm])
            /\ kb' = [kb EXCEPT ![nm] = @ \cup {Ent(nm, i)}]
            /\ Emit(<<"learn", nm, i>>) /\ UNCHANGED <<hs, cost>>
Ask(ns, q) == LET okk == \A k \in 1..Len(ns) : AllAnswerable(kb[ns[k]], q, K)
                  en == [names |-> ns, q |-> q, ans |-> [k \in 1..Len(ns) |-> Answer(kb[ns[k]], q, K)]] IN
   /\ Len(hs) < MAXH
   /\ IF okk THEN hs' = Append(hs, en) /\ cost' = cost + EntryCost(en) ELSE UNCHANGED <<hs, cost>>
   /\ Emit(<<"ask", ns, q>>) /\ UNCHANGED kb
AskSome == \E ns \in {<<nm>> : nm \in Names} \cup {<<a, b>> : a \in Names, b \in Names}, x \in Spellings, y \in Spellings :
             Ask(ns, <<x>>) \/ (Len(ns) = 1 /\ Ask(ns, <<x, y>>))
Next == Learn \/ AskSome
Spec == Init /\ [][Next]_vars
View == <<kb, hs>>
Ledger == cost = LedgerCost(hs)
PerOracle == LedgerCost(hs) = FoldSet(LAMBDA nm, a : a + CostOfOracle(hs, nm), 0, Names)
(* knowledge only grows and never rewrites an answer, so every recorded answer stays reproducible *)
Reproducible == \A n \in 1..Len(hs), k \in 1..2 : k <= Len(hs[n].names) =>
                   hs[n].ans[k] = Answer(kb[hs[n].names[k]], hs[n].q, K)
=============================================================================
