------------------------------ MODULE MLQuery ------------------------------
(* C16: multi-label querying.  The pool U is a set of (instance, label) pairs.
   A strategy queries pairs, or whole instances none of whose labels is known,
   or (AURO) an instance and two of its unknown labels.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Min(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
InsOf(U) == {p[1] : p \in U}
LabOf(U, i) == {p[2] : p \in {q \in U : q[1] = i}}
Whole(U, k) == {i \in InsOf(U) : Cardinality(LabOf(U, i)) = k}
(* what one query denotes *)
Denotes(q, k) == IF Len(q) = 1 THEN {<<q[1], l>> : l \in 0..(k - 1)} ELSE {<<q[1], q[2]>>}
Answers(kind, U, k, b) ==
  CASE kind = "pair" -> {s \in SUBSET U : Cardinality(s) = Min(1, Cardinality(U))}
    [] kind = "pairs" -> {s \in SUBSET U : Cardinality(s) = Min(b, Cardinality(U))}
    [] kind = "ins" -> {{<<i, l>> : i \in s, l \in 0..(k - 1)} : s \in {t \in SUBSET Whole(U, k) : Cardinality(t) = Min(b, Cardinality(Whole(U, k)))}}
    [] kind = "auro" -> {{<<i, a>>, <<i, b2>>} : i \in {j \in InsOf(U) : Cardinality(LabOf(U, j)) > 1}, a \in 0..(k - 1), b2 \in 0..(k - 1)} \cap {s \in SUBSET U : Cardinality(s) = 2}
(* -- the rules -- *)
(* AUDI: the instance whose predicted number of relevant labels is most inconsistent with the average, then the
   unknown label nearest to the threshold.  card[i], unl[i]: position i; tot/cnt: relevant labels among cnt known instances *)
AudiIns(card, unl, tot, cnt, n, s) == \A i \in 1..n : Abs(card[s] * cnt - tot) * unl[i] >= Abs(card[i] * cnt - tot) * unl[s]
NearestLabel(pres, dummy, unknown, l) == l \in unknown /\ \A m \in unknown : Abs(pres[l] - dummy) <= Abs(pres[m] - dummy)
(* AURO: an instance with the most unknown labels, its best unknown label and the other one nearest to the threshold *)
AuroRule(U, pres, dummy, a, b2) ==
  /\ a \in U /\ b2 \in U /\ a # b2
  /\ \A m \in U : pres[m] <= pres[a]
  /\ \A m \in U \ {a} : Abs(pres[b2] - dummy) <= Abs(pres[m] - dummy)
(* MMC: expected loss, P in eighths, c labels predicted *)
MmcScore(P, k, c) ==
  LET top == {s \in SUBSET (1..k) : Cardinality(s) = Min(c, k)}
      best == CHOOSE s \in top : \A t \in top : SumSet(s, P) >= SumSet(t, P)
  IN SumSet(1..k, [l \in 1..k |-> 8 - (IF l \in best THEN 1 ELSE 0 - 1) * (2 * P[l] - 8)])
(* Adaptive with betas 0 and 1: largest cardinality inconsistency or smallest separation margin (Inf: one side empty) *)
Margin(R, k) ==
  LET pos == {R[l] : l \in {m \in 1..k : R[m] > 0}}
      neg == {R[l] : l \in {m \in 1..k : R[m] < 0}}
      MinS(s) == CHOOSE x \in s : \A y \in s : x <= y
      MaxS(s) == CHOOSE x \in s : \A y \in s : x >= y
  IN IF pos = {} \/ neg = {} THEN 1000000 ELSE MinS(pos) - MaxS(neg)
Card(R, k) == Cardinality({l \in 1..k : R[l] > 0})
(* the candidates for either trade-off; among them the one which, learned with its predicted labels, leaves the smallest
   approximate generalisation error: hinge losses of the worst predicted-relevant and the worst predicted-irrelevant label.
   Values are in halves. New[i]: the values for the whole pool after learning i *)
Inconsistent(R, k, n, tot, cnt) == {i \in 1..n : \A j \in 1..n : Abs(Card(R[i], k) * cnt - tot) >= Abs(Card(R[j], k) * cnt - tot)}
Uncertain(R, k, n) == {i \in 1..n : \A j \in 1..n : Margin(R[i], k) <= Margin(R[j], k)}
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
Hinge(R, k) == MaxIn({0} \cup {2 - R[l] : l \in {m \in 1..k : R[m] > 0}}) + MaxIn({0} \cup {2 + R[l] : l \in {m \in 1..k : R[m] < 0}})
GenError(M, k) == SumSet(DOMAIN M, [j \in DOMAIN M |-> Hinge(M[j], k)])
\* one label too many and one too few: the averages are computed in floating point, either may come out as the larger
AdaptiveRule(R, New, k, n, tot, cnt, s) ==
  LET A == TLCEval(Inconsistent(R, k, n, tot, cnt))
      B == TLCEval(Uncertain(R, k, n))
      Sure == IF Cardinality({Card(R[i], k) : i \in A}) = 1 THEN A \cup B ELSE B
      E == TLCEval([i \in A \cup B |-> GenError(New[i], k)])
  IN s \in A \cup B /\ \A i \in Sure : E[s] <= E[i]
(* QUIRE: worst case over the label of q of min_y y'(K + lambda)^-1 y given the known labels and q's, the part that depends on q:
   (1 + |f|)^2 / s with f the prediction for q and s its Schur complement, both by determinants of integer matrices *)
Minor(M, c) == [r \in 1..(Len(M) - 1) |-> [d \in 1..(Len(M) - 1) |-> M[r + 1][IF d < c THEN d ELSE d + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE SumSet(1..Len(M), [c \in 1..Len(M) |-> (IF c % 2 = 1 THEN 1 ELSE 0 - 1) * M[1][c] * Det(Minor(M, c))])
Dot(x, y) == SumSet(DOMAIN x, [d \in DOMAIN x |-> x[d] * y[d]])
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
QuireScore(X, Y, S, lam, q) ==     \* X, Y indexed from 1, pairs from 0
  LET T == SetSeq({p[1] : p \in {t \in S : t[2] = q[2]}})
      n == Len(T)
      K(i, j) == Dot(X[i + 1], X[j + 1]) + (IF i = j THEN lam ELSE 0)
      D0 == Det([r \in 1..n |-> [c \in 1..n |-> K(T[r], T[c])]])
      A == Append(T, q[1])
      D1 == Det([r \in 1..(n + 1) |-> [c \in 1..(n + 1) |-> K(A[r], A[c])]])
      F == Det([r \in 1..(n + 1) |-> [c \in 1..(n + 1) |->
             IF r <= n /\ c <= n THEN K(T[r], T[c]) ELSE IF r <= n THEN Y[T[r] + 1][q[2] + 1] ELSE IF c <= n THEN K(q[1], T[c]) ELSE 0]])
  IN [num |-> (D0 + Abs(F)) * (D0 + Abs(F)), den |-> D0 * D1]
QuireRule(X, Y, S, lam, U, q) == LET a == QuireScore(X, Y, S, lam, q) IN \A p \in U : LET b == QuireScore(X, Y, S, lam, p) IN a.num * b.den <= b.num * a.den
(* a label ranking model: training on a data set continues from what it was trained on (incremental) or from its initial training *)
Refit(m, d, n, inc) == LET ini == IF m.ini = <<>> THEN <<<<d, n, 0>>>> ELSE m.ini    \* the first time: the initial training and then the training
                       IN [ini |-> ini, seq |-> Append(IF inc /\ m.seq # <<>> THEN m.seq ELSE ini, <<d, n, IF m.ini = <<>> THEN 1 ELSE 2>>)]
=============================================================================
