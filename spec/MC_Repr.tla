------------------------------ MODULE MC_Repr ------------------------------
EXTENDS Repr, Json
CONSTANTS NQ, ND, V
VARIABLES kind, X, y, L, taken, D
vars == <<kind, X, y, L, taken, D>>
Pts(d) == IF d = 1 THEN {<<a>> : a \in {-1, 0, 1}} ELSE {<<a, b>> : a \in {0, 1}, b \in {0, 1}}
Init == \/ /\ kind = "quire" /\ taken = {} /\ D = <<>>
           /\ \E n \in 3..NQ : /\ X \in [1..n -> Pts(IF n = 3 THEN 2 ELSE 1)]
                               /\ L \in {l \in SUBSET (1..n) : l # {} /\ Cardinality(l) <= n - 2}
           /\ y = <<>>
        \/ /\ kind = "density" /\ y = <<>> /\ L = {} /\ taken = {}
           /\ \E n \in 3..ND : X \in [1..n -> {<<a>> : a \in 0..V}]
           /\ D = Density(X, [j \in 1..Len(X) |-> Nbr(X, 2, j)], "l1")
Next == \/ kind = "quire" /\ y = <<>> /\ y' \in [1..Len(X) -> {-1, 1}] /\ (\A i \in 1..Len(X) : i \notin L => y'[i] = 1) /\ UNCHANGED <<kind, X, L, taken, D>>
        \/ /\ kind = "density" /\ Cardinality(taken) < Len(X)
           /\ \E i \in (1..Len(X)) \ taken : /\ Densest(D, (1..Len(X)) \ taken, i, 0)
                                             /\ D' = Take(D, [j \in 1..Len(X) |-> Nbr(X, 2, j)], i)
                                             /\ taken' = taken \cup {i}
           /\ UNCHANGED <<kind, X, y, L>>
Spec == Init /\ [][Next]_vars
(* QUIRE by the definition: L = N / D with N the adjugate *)
Cof(M, r, c) == (IF (r + c) % 2 = 0 THEN 1 ELSE -1) *
   Det([a \in 1..(Len(M) - 1) |-> [b \in 1..(Len(M) - 1) |-> M[IF a < r THEN a ELSE a + 1][IF b < c THEN b ELSE b + 1]]])
Adj(M) == [r \in 1..Len(M) |-> [c \in 1..Len(M) |-> Cof(M, c, r)]]
Direct(s) ==
  LET lam == 1 M == Gram(X, lam) d == Det(M) N == Adj(M) n == Len(X)
      T == SetSeq(L) a == SetSeq((1..n) \ L) u == SetSeq((1..n) \ (L \cup {s}))
      du == Det(Sub(N, u)) au == Adj(Sub(N, u))
      \* (N_sl - N_su N_uu^-1 N_ul) y_l times du
      tmp == Sum(LAMBDA q : y[T[q]] * (N[s][T[q]] * du - Sum(LAMBDA p : Sum(LAMBDA r : N[s][u[p]] * au[p][r] * N[u[r]][T[q]], Len(u)), Len(u))), Len(T))
      dl == Det(Sub(N, a))
  IN Fix(N[s][s], d) - (IF Len(a) = 2 THEN Fix(dl, d * N[s][s]) ELSE Fix(dl \div d, d * N[s][s])) + 2 * Fix(Abs(tmp), du * d)
QuireLaws == kind = "quire" /\ y # <<>> =>
  /\ \A s \in (1..Len(X)) \ L : Abs(QuireEval(X, y, L, 1, s) - Direct(s)) <= 20
  /\ \E s \in (1..Len(X)) \ L : QuireBest(X, y, L, 1, (1..Len(X)) \ L, s)
  \* the signs of all labels do not matter
  /\ \A s \in (1..Len(X)) \ L : QuireEval(X, [i \in DOMAIN y |-> 0 - y[i]], L, 1, s) = QuireEval(X, y, L, 1, s)
  /\ PrintT("B@@" \o ToJson([kind |-> kind, X |-> X, y |-> y, L |-> SetSeq(L)]))
DensityLaws == kind = "density" =>
  /\ \A i, j \in 1..Len(X) : (i \in Nbr(X, 2, j)) <=> (j \in Nbr(X, 2, i))
  /\ \A i \in 1..Len(X) : i \notin Nbr(X, 2, i)
  /\ (Clear(X, 2) => \A i \in 1..Len(X) : Cardinality(Near(X, 2, i)) = 2)
  /\ (taken = {} => /\ \A i \in 1..Len(X) : D[i] \in 0..1000000
                    /\ PrintT("B@@" \o ToJson([kind |-> kind, X |-> X, y |-> y, L |-> <<>>])))
  \* somebody is densest, and the possible densities after taking a set contain the one of the order chosen
  /\ taken # {} => D \in After(Density(X, [j \in 1..Len(X) |-> Nbr(X, 2, j)], "l1"), [j \in 1..Len(X) |-> Nbr(X, 2, j)], 1..Len(X), taken, 0)
=============================================================================
