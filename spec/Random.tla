------------------------------ MODULE Random ------------------------------
(* Random choices of the library.  Every one of them is a function of elementary
   equally likely choices: a random order of a pool 1..n is drawn (one element after
   another, without replacement), some of it is kept, and draws that do not satisfy
   the stated guarantee are repeated.
     kind       outcome
     "sample"   the set of the first k elements of the order
     "perm"     the sequence of the first k elements
     "spend"    the set of the elements drawn before the first one that exceeds the budget (costs c)
     "fold"     <<test set, initially labeled set>>: the order is cut into t test elements (the last ones),
                and l labeled ones (the first ones); cls: each label set that has to be hit by the labeled ones
     "cells"    <<test set, known entries>> of a feature matrix with d columns: t test rows, m known entries of the
                others, with at least one for each column when cover
     "folds"    the pair of the test sets of two folds                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Elems(s) == {s[i] : i \in 1..Len(s)}
Inj(n, k) == {s \in [1..k -> 1..n] : \A i, j \in 1..k : s[i] = s[j] => i = j}
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Cost(_, _, _)
Cost(c, s, n) == IF n = 0 THEN 0 ELSE c[s[n]] + Cost(c, s, n - 1)
Ksub(S, k) == {x \in SUBSET S : Cardinality(x) = k}

\* elementary choices
Choices(a) ==
  CASE a.kind \in {"sample", "perm"} -> Inj(a.n, Min(a.k, a.n))
    [] a.kind = "spend" -> Inj(a.n, a.n)
    [] a.kind = "fold" -> {<<x, y>> \in Ksub(1..a.n, a.t) \X Ksub(1..a.n, a.l) : x \cap y = {}}
    [] a.kind = "folds" -> Ksub(1..a.n, a.t) \X Ksub(1..a.n, a.t)
    [] a.kind = "cells" -> {<<x, y>> \in Ksub(1..a.n, a.t) \X Ksub((1..a.n) \X (1..a.d), a.m) : \A e \in y : e[1] \notin x}
\* the elements kept of a complete order
Kept(a, s) == CHOOSE i \in 0..a.n : /\ \A j \in 1..i : Cost(a.c, s, j) <= a.b
                                    /\ i = a.n \/ Cost(a.c, s, i + 1) > a.b
Out(a, x) ==
  CASE a.kind = "sample" -> Elems(x)
    [] a.kind = "spend" -> {x[i] : i \in 1..Kept(a, x)}
    [] OTHER -> x
Admitted(a, x) ==
  CASE a.kind = "fold" -> \A c \in Elems(a.cls) : Elems(c) \cap x[2] # {}
    [] a.kind = "cells" -> a.cover => \A f \in 1..a.d : \E e \in x[2] : e[2] = f
    [] OTHER -> TRUE
Good(a) == {x \in Choices(a) : Admitted(a, x)}
\* each admissible outcome with the number of elementary choices which yield it
Law(a) ==
  CASE a.kind = "sample" -> [o \in Ksub(1..a.n, Min(a.k, a.n)) |-> Fact(Min(a.k, a.n))]
    [] a.kind = "spend" -> LET g == Good(a) IN [o \in {Out(a, x) : x \in g} |-> Cardinality({x \in g : Out(a, x) = o})]
    [] OTHER -> [o \in Good(a) |-> 1]
Outcomes(a) == DOMAIN Law(a)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
Ways(a) == LET l == Law(a) IN Total(l, DOMAIN l)
Rarest(a) == LET l == Law(a) IN CHOOSE v \in {l[o] : o \in DOMAIN l} : \A o \in DOMAIN l : v <= l[o]
=============================================================================
