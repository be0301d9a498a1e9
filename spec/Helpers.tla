------------------------------- MODULE Helpers -------------------------------
(* C25: the helper functions which strategies, splits and users build on.
   Integers, reduced fractions <<p, q>>, or fixed-point numbers in units of 10^-6. "n" is a missing value. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sum(f(_), n) == SumSeq([j \in 1..n |-> f(j)])
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Q(a, b) == LET g == GCD(Abs(a), Abs(b)) IN IF b < 0 THEN <<-(a \div g), (-b) \div g>> ELSE <<a \div g, b \div g>>
QAdd(a, b) == Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0 ELSE LET q == (r * 10) \div b m == (r * 10) % b IN q * (10 ^ (n - 1)) + Digits(m, b, n - 1)
Fix(a, b) == LET v == (Abs(a) \div b) * 1000000 + Digits(Abs(a) % b, b, 6) IN IF a < 0 THEN -v ELSE v
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
(* ---- the n largest / smallest positions (0..) of a *)
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
Largest(a, n, r) ==
  LET R == {r[i] : i \in DOMAIN r} IN
  /\ Distinct(r) /\ Len(r) = Min(n, Len(a)) /\ R \subseteq 0..(Len(a) - 1)
  /\ \A i \in R : \A j \in (0..(Len(a) - 1)) \ R : a[i + 1] >= a[j + 1]
Smallest(a, n, r) == Largest([i \in DOMAIN a |-> 0 - a[i]], n, r)
(* ---- arguments of different lengths: len -1 is None, 0 a plain object, otherwise 1 + the length of a container *)
Size(l) == IF l = 0 THEN 1 ELSE l - 1
Corresponding(ls) == \A i, j \in DOMAIN ls : (ls[i] # -1 /\ ls[j] # -1) => Size(ls[i]) = Size(ls[j])
Unpacked(ls) == [i \in DOMAIN ls |-> ls[i] = 2]           \* containers of one element are opened
(* ---- kernels over integer points *)
Dot(x, y) == Sum(LAMBDA d : x[d] * y[d], Len(x))
Dist2(x, y) == Sum(LAMBDA d : (x[d] - y[d]) * (x[d] - y[d]), Len(x))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Linear(X) == [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> Dot(X[i], X[j])]]
Poly(X, g, c, d) == [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> Pow(g * Dot(X[i], X[j]) + c, d)]]
\* -log of the radial kernels, gamma = g2 / 2
Rbf(X, g2) == [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> Fix(g2 * Dist2(X[i], X[j]), 2)]]
\* sigma^2 = s2
Gauss(X, s2) == [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> Fix(Dist2(X[i], X[j]), 2 * s2)]]
Near(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : Abs(A[i][j] - B[i][j]) <= tol
(* ---- scaling of one feature c (a sequence of values, "n" missing), to [lo, hi] *)
Vals(c) == {c[i] : i \in {j \in DOMAIN c : c[j] # 99}}        \* 99: missing
MinMax(c, lo, hi) == LET a == MinOf(Vals(c)) b == MaxOf(Vals(c)) w == IF a = b THEN 1 ELSE b - a IN
  [i \in DOMAIN c |-> IF c[i] = 99 THEN <<99, 0>> ELSE Q((c[i] - a) * (hi - lo) + lo * w, w)]
\* standard scores: n x - S over sqrt(n Q - S^2); compared through their sign and square
Dev(c, i) == Len(c) * c[i] - SumSeq(c)
Spread(c) == Len(c) * Dot(c, c) - SumSeq(c) * SumSeq(c)
Square(c, i) == IF Spread(c) = 0 THEN 0 ELSE Fix(Dev(c, i) * Dev(c, i), Spread(c))
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Standard(c, v) == \A i \in DOMAIN c : v[i].sg = (IF Spread(c) = 0 THEN 0 ELSE Sign(Dev(c, i))) /\ Abs(v[i].sq - Square(c, i)) <= 5
=============================================================================
