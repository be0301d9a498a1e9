------------------------------- MODULE Noisy -------------------------------
(* C19: noisy oracles.
   1. majority vote as a function of a bag of weighted votes;
   2. IEthresh as a state machine: every oracle has a record of agreement with
      the majority [k, m] (agreed k times in m), whose upper interval estimate
      decides who is asked next;
   3. CEAL as the argmax of Q(oracle, instance) over exact rationals;
   4. the baselines.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
(* ---- votes ---- *)
Ones(n) == [i \in 1..n |-> 1]
Votes(labels, w, x) == FoldSeq(LAMBDA i, a : a + (IF labels[i] = x THEN w[i] ELSE 0), 0, [i \in 1..Len(labels) |-> i])
Most(labels, w) == Max({Votes(labels, w, x) : x \in ToSet(labels)})
Winners(labels, w) == {x \in ToSet(labels) : Votes(labels, w, x) = Most(labels, w)}
(* ---- interval estimate, scaled by 1000 ---- *)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(x, lo, hi) == IF lo >= hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN
                     IF mid * mid <= x THEN SqrtIn(x, mid, hi) ELSE SqrtIn(x, lo, mid - 1)
Sqrt(x) == SqrtIn(x, 0, 46340)
(* t quantile (alpha = 0.05, n - 1 degrees of freedom) / sqrt(n), scaled by 1000 *)
Crit(n) == CASE n = 1 -> 0 [] n = 2 -> 8985 [] n = 3 -> 2484 [] n = 4 -> 1591 [] n = 5 -> 1242 [] OTHER -> 1049
UI(rec, n) == IF rec.m = 0 THEN 1000
              ELSE (rec.k * 1000 + (Crit(n) * Sqrt(rec.k * (rec.m - rec.k) * 1000000)) \div 1000) \div rec.m
TOL == 600
(* state: recs: oracle -> [k, m]; hist: set of [o, i, l]; maj: set of [i, l] *)
IEInit(n) == [recs |-> [o \in 1..n |-> [k |-> 0, m |-> 0]], hist |-> {}, maj |-> {}]
MaxUI(s, n) == Max({UI(s.recs[o], n) : o \in 1..n})
NearMax(s, n) == {o \in 1..n : UI(s.recs[o], n) >= MaxUI(s, n) - 4}
Must(s, n, eps) == {o \in 1..n : \/ 100 * UI(s.recs[o], n) >= eps * MaxUI(s, n) + TOL
                                 \/ eps <= 100 /\ \A p \in NearMax(s, n) : s.recs[p] = s.recs[o]}
May(s, n, eps) == {o \in 1..n : 100 * UI(s.recs[o], n) >= eps * MaxUI(s, n) - TOL}
IESelects(s, n, eps, sel) == Must(s, n, eps) \subseteq sel /\ sel \subseteq May(s, n, eps) /\ sel # {}
(* the asked oracles' labels are recorded, the majority is renewed, their records are renewed *)
IEWith(s, n, sel, i, ans, win) ==
  LET hist == {h \in s.hist : ~(h.i = i /\ h.o \in sel)} \cup {[o |-> o, i |-> i, l |-> ans[o]] : o \in sel}
      maj == {x \in s.maj : x.i # i} \cup {[i |-> i, l |-> win]}
  IN [hist |-> hist, maj |-> maj,
      recs |-> [o \in 1..n |-> IF o \notin sel THEN s.recs[o] ELSE
                 LET mine == {h \in hist : h.o = o}
                 IN [k |-> Cardinality({h \in mine : [i |-> h.i, l |-> h.l] \in maj}), m |-> Cardinality(mine)]]]
IENext(s, n, sel, i, ans) ==
  LET q == SetToSeq(sel) IN {IEWith(s, n, sel, i, ans, x) : x \in Winners([k \in 1..Len(q) |-> ans[q[k]]], Ones(Len(q)))}
(* ---- CEAL ---- *)
(* correct[o]: set of the initially labeled positions oracle o labels right; dist[u]: distance to each of them *)
Nearest(d, k) == CHOOSE S \in kSubset(k, 1..Len(d)) : \A a \in S, b \in (1..Len(d)) \ S : d[a] < d[b]
Expertise(correct, d, k) == FoldSet(LAMBDA a, acc : acc + (IF a \in correct THEN d[a] ELSE 0), 0, Nearest(d, k))
(* cost of an oracle as a fraction; the cost is at least 1/10000 *)
Frac(c, len, ec) == IF ec THEN (IF c = 0 THEN [n |-> 10000, d |-> 1] ELSE [n |-> len, d |-> c])
                    ELSE IF c = 0 THEN [n |-> 10000, d |-> 1] ELSE [n |-> 1, d |-> c]
Q(correct, d, k, rx, c, len, ec) == LET f == Frac(c, len, ec) IN [n |-> Expertise(correct, d, k) * rx * f.n, d |-> f.d]
(* a is not less than b (exactly, or up to one percent when the distances are rounded) *)
Geq(a, b, exact) == IF exact THEN a.n * b.d >= b.n * a.d ELSE 100 * a.n * b.d >= 99 * b.n * a.d
=============================================================================
