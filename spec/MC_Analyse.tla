----------------------------- MODULE MC_Analyse -----------------------------
(* all pairs of short folds of one method *)
EXTENDS Analyse, TLC, Json
CONSTANTS PERF, COST, IP, LEN, SEQLEN
VARIABLES a, b, start, step
vars == <<a, b, start, step>>
IPS == {-1} \cup IP     \* -1: no initial point
Q1 == [perf : PERF, cost : COST]
Qs == UNION {[1..n -> Q1] : n \in 1..LEN}
Init == /\ \E ia \in IPS, ib \in IPS, qa \in Qs, qb \in Qs :
             /\ (ia = -1) = (ib = -1)
             /\ a = [ip |-> ia, q |-> qa] /\ b = [ip |-> ib, q |-> qb]
        /\ start \in {-1, 50} /\ step \in 1..2
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C(st) == NumCurve(<<a, b>>, start, Shift(a, start), st)
(* the curve at query k is the mean of what the folds recorded after k queries *)
RightQuery == \A p \in 1..Len(C(step)) :
   LET x == C(step)[p].x col == C(step)[p].col
       both == start # -1 /\ a.ip # -1
       k == IF both THEN x - 1 ELSE x IN         \* the number of queries made at this point
   IF x = 0 /\ start # -1 THEN col = <<start, start>>
   ELSE IF k = 0 THEN col = <<a.ip, b.ip>> ELSE col = <<a.q[k].perf, b.q[k].perf>>
SubCurve == step = 2 => \A p \in 1..Len(C(2)) : C(2)[p] = C(1)[2 * p - 1]
Lengths == Len(C(1)) = Common(<<Line(a), Line(b)>>) + (IF start = -1 THEN 0 ELSE 1)
(* interpolation: exact at the recorded points, between the neighbours elsewhere *)
ExactAt == \A f \in {a, b} : LET p == Acc(f, start) IN Len(p) > 1 =>
   /\ \A k \in 1..Len(p) : At(p, p[k].x) = 1000 * p[k].y
   /\ \A k \in 1..(Len(p) - 1) : At(p, (p[k].x + p[k + 1].x) \div 2) \in (1000 * Min({p[k].y, p[k + 1].y}))..(1000 * Max({p[k].y, p[k + 1].y}))
WithinBudget == 100 * Budget(<<<<a, b>>>>) <= Min({Acc(a, -1)[Len(Acc(a, -1))].x, Acc(b, -1)[Len(Acc(b, -1))].x})
(* the test is symmetric, and shifting both samples does not change it *)
TSym == Len(a.q) = Len(b.q) /\ Len(a.q) > 1 =>
   /\ TTest(Perfs(a), Perfs(b), 12706) = TTest(Perfs(b), Perfs(a), 12706) /\ TTest(Perfs(a), Perfs(a), 12706) = 0
   /\ TTest([k \in 1..Len(a.q) |-> a.q[k].perf + 7], [k \in 1..Len(a.q) |-> b.q[k].perf + 7], 12706) = TTest(Perfs(a), Perfs(b), 12706)
Emit == (Len(a.q) <= SEQLEN /\ Len(b.q) <= SEQLEN) => PrintT("B@@" \o ToJson([folds |-> <<a, b>>, start |-> start, step |-> step]))
=============================================================================
