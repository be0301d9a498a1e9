------------------------------- MODULE KRepo -------------------------------
(* C11: a knowledge repository is a sequence of rows [i, lab, exa] in order of
   first acceptance, at most one per index.  hasx: examples are stored.
   An element repository replaces the row of a known index, a matrix repository
   reports a known index and keeps its row.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Idx(kb) == {kb[n].i : n \in 1..Len(kb)}
Row(kb, i) == CHOOSE n \in 1..Len(kb) : kb[n].i = i
Put(kb, e, kind) == IF e.i \notin Idx(kb) THEN Append(kb, e)
                    ELSE IF kind = "element" THEN [kb EXCEPT ![Row(kb, e.i)] = e] ELSE kb
PutAll(kb, es, kind) == FoldSeq(LAMBDA e, k : Put(k, e, kind), kb, es)
Drop(kb, i) == SelectSeq(kb, LAMBDA e : e.i # i)
With(kb, x) == {kb[n].i : n \in {m \in 1..Len(kb) : kb[m].exa = x}}
RECURSIVE NewCost(_, _, _)
NewCost(kb, es, kind) == IF es = <<>> THEN 0
   ELSE (IF kind = "matrix" /\ es[1].i \in Idx(kb) THEN 0 ELSE es[1].cost) + NewCost(Put(kb, es[1], kind), Tail(es), kind)
Found(kb, q) == SelectSeq(q, LAMBDA i : i \in Idx(kb))
NoRep(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
=============================================================================
