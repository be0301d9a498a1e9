------------------------------ MODULE MC_ALLoop ------------------------------
(* The loop with going back and reopening, guarded by a criterion. *)
EXTENDS ALLoop, Integers, Json, TLC
CONSTANTS N, D, BACKS
VARIABLES s, c, backs, hist
vars == <<s, c, backs, hist>>
T == {[key |-> k, lab |-> k, cost |-> IF k \in {1, 3} THEN 2 ELSE 1] : k \in 0..N}
Crits == {[kind |-> "none", num |-> 0, den |-> 1], [kind |-> "num_of_queries", num |-> 2, den |-> 1],
          [kind |-> "cost_limit", num |-> 3, den |-> 1], [kind |-> "percent_of_unlabel", num |-> 1, den |-> 2]}
Stop == Stops(c, SeeAll(s.h), 0)
Init == s = Start(T, {0}, 1..N) /\ c \in Crits /\ backs = 0 /\ hist = <<>>
Sels == {<<i>> : i \in s.U} \cup {<<i, j>> : i, j \in s.U} 
DoQuery == /\ ~Stop /\ Len(hist) < D
           /\ \E q \in Sels, f \in {1, 2} : (Len(q) = 2 => q[1] # q[2]) /\ s' = Query(s, T, q, f, 0) /\ hist' = Append(hist, <<"query", q, f>>)
           /\ UNCHANGED <<c, backs>>
DoBack == /\ backs < BACKS /\ Len(hist) < D
          /\ \E k \in 0..(Len(s.h.q) - 1) : s' = Back(s, k) /\ hist' = Append(hist, <<"back", k>>)
          /\ backs' = backs + 1 /\ UNCHANGED c
DoSave == /\ Len(hist) < D /\ (IF s.disk.have THEN s.disk.h # s.h ELSE TRUE) /\ s' = Save(s) /\ hist' = Append(hist, <<"save">>) /\ UNCHANGED <<c, backs>>
DoReopen == /\ backs < BACKS /\ Len(hist) < D /\ s.disk.have /\ s' = Reopen(s, T) /\ hist' = Append(hist, <<"reopen">>)
            /\ backs' = backs + 1 /\ UNCHANGED c
Over == Stop \/ Len(hist) >= D
Next == DoQuery \/ DoBack \/ DoSave \/ DoReopen
Spec == Init /\ [][Next]_vars
View == <<s, c, backs, Len(hist)>>
Emit == (Over /\ ~ENABLED DoQuery) => PrintT("B@@" \o ToJson([c |-> c, h |-> hist]))
(* the books agree *)
Collections == s.L = LabAt(s.h, Len(s.h.q)) /\ s.U = UnlAt(s.h, Len(s.h.q))
Partition == s.L \cup s.U = 0..N /\ s.L \cap s.U = {}
Repository == s.repo.rows = Known(T, s.L)
Money == /\ CostOf(s.h) <= s.led.cost /\ Len(s.h.q) <= s.led.n
         /\ backs = 0 => CostOf(s.h) = s.led.cost /\ s.repo.cost = s.led.cost /\ s.repo.n = s.led.n
         /\ s.repo.cost <= s.led.cost
Disk == s.disk.have => \A n \in 1..Len(s.disk.h.q) : ToSet(s.disk.h.q[n].sel) \subseteq 1..N
NothingTwice == \A m, n \in 1..Len(s.h.q) : m # n => ToSet(s.h.q[m].sel) \cap ToSet(s.h.q[n].sel) = {}
(* an empty pool always stops *)
Exhausted == s.U = {} => Stop
(* going back and asking again for the same gives the same books but for what was spent *)
Again == \A k \in 0..(Len(s.h.q) - 1) : k = Len(s.h.q) - 1 =>
   LET b == Back(s, k) q == s.h.q[k + 1] a == Query(b, T, q.sel, 1, q.perf) IN a.L = s.L /\ a.U = s.U /\ a.repo.rows = s.repo.rows
=============================================================================
