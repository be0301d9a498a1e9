-------------------------------- MODULE Pool --------------------------------
(* C14: pool-based selection.  A strategy is given a pool of unlabeled indexes
   (all the unlabeled ones or a part of them) and a batch size b and returns
   Min(b, |pool|) distinct members, whatever it was asked before and whether or
   not what it selected has been labeled since.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Min(a, b) == IF a < b THEN a ELSE b
(* the number of indexes a selection returns; one = a strategy which by its
   documentation queries a single instance at a time                          *)
Due(b, n, one) == IF one THEN Min(1, n) ELSE Min(b, n)
Selections(pool, b) == {s \in SUBSET pool : Cardinality(s) = Due(b, Cardinality(pool), FALSE)}
=============================================================================
