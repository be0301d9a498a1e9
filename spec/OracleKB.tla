------------------------------ MODULE OracleKB ------------------------------
(* C09/C10: what oracles know, how they answer, and the ledger of a crowd.
   A knowledge entry is [i, exa, lab, cost]; lab and cost are sequences (one
   element for a single-label oracle, one per label for a multi-label one).
   Index spellings: <<"all", i>>, <<"one", i, j>>, <<"many", i, js>>.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Keys(kb) == {e.i : e \in kb}
Entry(kb, i) == CHOOSE e \in kb : e.i = i
Exas(kb) == {e.exa : e \in kb}
(* columns asked for by a spelling; in a list, columns that do not exist are ignored *)
Cols(x, K) == IF x[1] = "all" THEN [j \in 1..K |-> j - 1]
              ELSE IF x[1] = "one" THEN <<x[3]>> ELSE SelectSeq(x[3], LAMBDA j : j >= 0 /\ j < K)
Answerable(kb, x, K) == x[2] \in Keys(kb) /\ (x[1] = "one" => x[3] >= 0 /\ x[3] < K)
AllAnswerable(kb, q, K) == \A n \in 1..Len(q) : Answerable(kb, q[n], K)
LabOf(kb, x, K) == LET c == Cols(x, K) e == Entry(kb, x[2]) IN [n \in 1..Len(c) |-> e.lab[c[n] + 1]]
CostOfQ(kb, x, K) == LET c == Cols(x, K) e == Entry(kb, x[2]) IN [n \in 1..Len(c) |-> e.cost[c[n] + 1]]
Answer(kb, q, K) == [lab |-> [n \in 1..Len(q) |-> LabOf(kb, q[n], K)],
                     cost |-> [n \in 1..Len(q) |-> CostOfQ(kb, q[n], K)]]
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
AnswerCost(a) == SumSeq([n \in 1..Len(a.cost) |-> SumSeq(a.cost[n])])
(* ledger entry: [names, ans, q] *)
EntryCost(h) == SumSeq([n \in 1..Len(h.ans) |-> AnswerCost(h.ans[n])])
LedgerCost(hs) == SumSeq([n \in 1..Len(hs) |-> EntryCost(hs[n])])
(* per-oracle number of answered queries and cost *)
AskedOf(hs, nm) == SumSeq([n \in 1..Len(hs) |-> Cardinality({k \in 1..Len(hs[n].names) : hs[n].names[k] = nm})])
CostOfOracle(hs, nm) == SumSeq([n \in 1..Len(hs) |->
    SumSeq([k \in 1..Len(hs[n].names) |-> IF hs[n].names[k] = nm THEN AnswerCost(hs[n].ans[k]) ELSE 0])])
=============================================================================
