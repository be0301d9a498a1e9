-------------------------------- MODULE Knap --------------------------------
(* C17: choosing within a budget.  Items carry a value and a positive cost.
   KnapDP is the dynamic programme, Best the definition (over all subsets);
   MC_Knap proves them equal on a small domain, traces are judged by KnapDP. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Feasible(s, c, B) == SumOver(s, c) <= B
Best(v, c, B) == LET ok == {s \in SUBSET (1..Len(v)) : Feasible(s, c, B)} IN
                 CHOOSE x \in {SumOver(s, v) : s \in ok} : \A s \in ok : SumOver(s, v) <= x
(* row[b + 1]: the best value with budget b among the items seen so far *)
RECURSIVE Rows(_, _, _, _, _)
Rows(v, c, B, i, row) ==
  IF i > Len(v) THEN row
  ELSE Rows(v, c, B, i + 1, TLCEval([b \in 1..(B + 1) |-> IF c[i] >= b THEN row[b] ELSE Max(row[b], row[b - c[i]] + v[i])]))
KnapDP(v, c, B) == Rows(v, c, B, 1, [b \in 1..(B + 1) |-> 0])[B + 1]
(* the selection read back from the rows, last item first *)
RECURSIVE RowsAll(_, _, _, _)
RowsAll(v, c, B, i) == IF i = 0 THEN <<[b \in 1..(B + 1) |-> 0]>>
  ELSE LET p == RowsAll(v, c, B, i - 1)  row == p[i] IN
       Append(p, TLCEval([b \in 1..(B + 1) |-> IF c[i] >= b THEN row[b] ELSE Max(row[b], row[b - c[i]] + v[i])]))
RECURSIVE Back(_, _, _, _, _)
Back(R, v, c, i, b) == IF i = 0 THEN {}
  ELSE IF b - c[i] >= 0 /\ R[i + 1][b + 1] = R[i][b - c[i] + 1] + v[i] THEN {i} \cup Back(R, v, c, i - 1, b - c[i]) ELSE Back(R, v, c, i - 1, b)
(* -- label hierarchies: tree[j][d] = 1 iff j is the parent of d, labels from 1 -- *)
Kids(tree, j) == {d \in 1..Len(tree) : tree[j][d] = 1}
Pars(tree, j) == {a \in 1..Len(tree) : tree[a][j] = 1}
RECURSIVE DescOf(_, _)
DescOf(tree, j) == UNION {{d} \cup DescOf(tree, d) : d \in Kids(tree, j)}
RECURSIVE AncOf(_, _)
AncOf(tree, j) == UNION {{a} \cup AncOf(tree, a) : a \in Pars(tree, j)}
Leaves(tree, j) == IF Kids(tree, j) = {} THEN {j} ELSE {d \in DescOf(tree, j) : Kids(tree, d) = {}}
(* what the answers to the queries Q imply: pairs <<i, j>> from 0 *)
Marked(Q, L, tree, Y) ==
  Q \cup (UNION {{<<q[1], a - 1>> : a \in IF Y[q[1] + 1][q[2] + 1] = 1 THEN AncOf(tree, q[2] + 1) ELSE DescOf(tree, q[2] + 1)} : q \in Q} \ L)
(* HALC: informativeness of pair <<i, j>> (from 1): twice the uncertainty when the neighbours vote relevant, else its own
   plus that of the unknown leaves below *)
Sq(x) == x * x
D2(X, a, b) == SumOver(DOMAIN X[a], [d \in DOMAIN X[a] |-> Sq(X[a][d] - X[b][d])])
Knn(X, i, k) == {m \in 1..Len(X) : Cardinality({o \in 1..Len(X) : D2(X, i, o) < D2(X, i, m)}) < k}
Halc(X, Y, P, L, U, W, tree, i, j) ==
  LET vote == SumOver(Knn(X, i, 5), [m \in 1..Len(X) |-> IF <<m, j>> \in L THEN Y[m][j] ELSE P[m][j]])
  IN IF vote > 0 THEN 2 * W[i][j] ELSE IF vote < 0 THEN W[i][j] + SumOver(Leaves(tree, j), [d \in 1..Len(tree) |-> IF <<i, d>> \in U THEN W[i][d] ELSE 0]) ELSE 0
=============================================================================
