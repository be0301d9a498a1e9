---------------------------- MODULE MC_StopCrit ----------------------------
(* The guarded loop:  while not is_stop: query a batch; record; update.
   Verified: it ends, it ends at the first check whose condition holds, and
   (for every criterion) it never starts another iteration on an empty pool.  *)
EXTENDS StopCrit, Json, TLC
CONSTANTS MAXU, MAXB, MAXC, MAXT
VARIABLES c, h, seen, now, pc, checks, hist
vars == <<c, h, seen, now, pc, checks, hist>>
Crits == {[kind |-> "none", num |-> 0, den |-> 1]}
   \cup {[kind |-> k, num |-> n, den |-> 1] : k \in {"num_of_queries", "cost_limit", "time_limit"}, n \in 0..3}
   \cup {[kind |-> "percent_of_unlabel", num |-> n, den |-> d] : n \in 0..3, d \in {3, 4}}
Emit(e) == hist' = Append(hist, e)
Init == /\ c \in {x \in Crits : x.kind # "percent_of_unlabel" \/ x.num <= x.den}
        /\ \E n \in 0..MAXU : h = [L0 |-> {0}, U0 |-> 1..n, K |-> 0, q |-> <<>>]
        /\ seen = Fresh /\ now = 0 /\ pc = "update" /\ checks = <<>> /\ hist = <<>>
Update == pc = "update" /\ seen' = SeeAll(h) /\ pc' = "check" /\ hist' = hist /\ UNCHANGED <<c, h, now, checks>>
Check == /\ pc = "check"
         /\ pc' = IF Stops(c, seen, now) THEN "end" ELSE "body"
         /\ checks' = Append(checks, Stops(c, SeeAll(h), now))
         /\ IF pc' = "end" THEN PrintT("B@@" \o ToJson([c |-> c, u |-> Cardinality(h.U0), h |-> hist])) ELSE TRUE
         /\ UNCHANGED <<c, h, seen, now, hist>>
Lowest(S, k) == CHOOSE T \in SUBSET S : Cardinality(T) = k /\ \A x \in T, y \in S \ T : x < y
Body == /\ pc = "body"
        /\ \E b \in 1..MAXB, k \in 0..MAXC, t \in 0..MAXT :
             LET u == UnlAt(h, Len(h.q)) B == Lowest(u, IF b > Cardinality(u) THEN Cardinality(u) ELSE b) IN
             /\ h' = AddQ(h, [sel |-> SetToSortSeq(B, <), cost |-> k, perf |-> 0])
             /\ now' = now + t /\ Emit(<<Cardinality(B), k, t>>)
        /\ pc' = "update" /\ UNCHANGED <<c, seen, checks>>
Next == Update \/ Check \/ Body
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<c, h.U0, Cardinality(UnlAt(h, Len(h.q))), Len(h.q), CostOf(h), now, pc, seen, checks>>
FirstCheck == \A i \in 1..Len(checks) : checks[i] <=> (i = Len(checks) /\ pc = "end")
NeverOnEmpty == pc = "body" => UnlAt(h, Len(h.q)) # {}
QueriesExact == (pc = "end" /\ c.kind = "num_of_queries" /\ seen.left > 0) => Len(h.q) = c.num
Ends == <>(pc = "end")
=============================================================================
