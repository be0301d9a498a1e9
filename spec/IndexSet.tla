------------------------------ MODULE IndexSet ------------------------------
(* C01: a collection of sample indexes.  Abstract state: a duplicate-free
   sequence (the order in which indexes are listed).  One operator per public
   call, giving the next state, whether the call must warn, and whether it
   must be refused.                                                          *)
EXTENDS Sequences, Integers, FiniteSets, SequencesExt, TLC

Members(c) == ToSet(c)
NoDup(c) == Cardinality(Members(c)) = Len(c)
AddOne(c, x) == IF x \in Members(c) THEN c ELSE Append(c, x)
DropOne(c, x) == SelectSeq(c, LAMBDA y : y # x)
AddAll(c, b) == FoldLeft(AddOne, c, b)
DropAll(c, b) == FoldLeft(DropOne, c, b)
Repeats(c, b) == \E i \in 1..Len(b) : b[i] \in Members(c) \/ \E j \in 1..(i-1) : b[j] = b[i]
Lacks(c, b)   == \E i \in 1..Len(b) : b[i] \notin Members(c) \/ \E j \in 1..(i-1) : b[j] = b[i]

R(next, warn, err) == [next |-> next, warn |-> warn, err |-> err]

(* Deterministic calls.  a is the argument (an element or a sequence).       *)
Apply(c, op, a) ==
  CASE op = "add"        -> R(AddOne(c, a), a \in Members(c), FALSE)
    [] op = "add_bad"    -> R(c, FALSE, TRUE)
    [] op = "discard"    -> R(DropOne(c, a), a \notin Members(c), FALSE)
    [] op = "remove"     -> R(DropOne(c, a), FALSE, FALSE)      \* enabled on members only
    [] op = "update"     -> R(AddAll(c, a), Repeats(c, a), FALSE)
    [] op = "diff"       -> R(DropAll(c, a), Lacks(c, a), FALSE)
    [] op = "update_self"-> R(c, c # <<>>, FALSE)
    [] op = "diff_self"  -> R(<<>>, FALSE, FALSE)
    [] op = "clear"      -> R(<<>>, FALSE, FALSE)
    [] op = "copy"       -> R(c, FALSE, FALSE)     \* copy made and mutated; the original is what it was
    [] op = "alias"      -> R(c, FALSE, FALSE)     \* the listed index is mutated by the caller
    [] op = "into_copy"  -> R(c, FALSE, FALSE)     \* replace the object by a copy of it

(* sizes allowed for a sample of num/den of n members: nearest integer       *)
SampleSize(n, num, den, k) == 2 * (k * den - num * n) \in (-den)..den
=============================================================================
