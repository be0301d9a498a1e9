------------------------------- MODULE ALLoop -------------------------------
(* C27: a whole active learning loop.  Its parts keep books of their own: the
   caller's labeled and unlabeled collections, the query history (C06), the
   knowledge repository (C11), the ledger of the oracles (C10), the stopping
   criterion (C08) and a saved history (C07).  The loop is their composition;
   what it promises is that the books agree after every step.
   A key names what can be queried: an instance or an entry of a matrix.
   T: the truth, a set of [key, lab, cost].
   s = [h: [L0, U0, K = 0, q: <<[sel, cost, perf, lab]>>], L, U,
        repo: [rows: set of [key, lab], cost, n], led: [cost, n], disk: [have, h]] *)
EXTENDS StopCrit
Of(T, k) == CHOOSE t \in T : t.key = k
Known(T, S) == {[key |-> t.key, lab |-> t.lab] : t \in {u \in T : u.key \in S}}
CostOfSel(T, sel, f) == LET F[n \in 0..Len(sel)] == IF n = 0 THEN 0 ELSE F[n - 1] + f * Of(T, sel[n]).cost IN F[Len(sel)]
Start(T, L0, U0) == [h |-> [L0 |-> L0, U0 |-> U0, K |-> 0, q |-> <<>>], L |-> L0, U |-> U0,
                     repo |-> [rows |-> Known(T, L0), cost |-> 0, n |-> 0], led |-> [cost |-> 0, n |-> 0], disk |-> [have |-> FALSE]]
(* one round: select, ask an oracle (its prices are f times those of the first), learn, move, record *)
Query(s, T, sel, f, perf) ==
  LET c == CostOfSel(T, sel, f) IN
  [s EXCEPT !.h = AddQ(@, [sel |-> sel, cost |-> c, perf |-> perf, lab |-> [n \in 1..Len(sel) |-> Of(T, sel[n]).lab]]),
            !.L = @ \cup ToSet(sel), !.U = @ \ ToSet(sel),
            !.repo = [rows |-> @.rows \cup Known(T, ToSet(sel)), cost |-> @.cost + c, n |-> @.n + 1],
            !.led = [cost |-> @.cost + c, n |-> @.n + 1]]
(* go back to an earlier round: what was learned since is discarded; what was spent is spent *)
Back(s, k) ==
  LET g == Recover(s.h, k) gone == LabAt(s.h, Len(s.h.q)) \ LabAt(g, k) IN
  [s EXCEPT !.h = g, !.L = LabAt(g, k), !.U = UnlAt(g, k), !.repo.rows = {r \in @ : r.key \notin gone}]
Save(s) == [s EXCEPT !.disk = [have |-> TRUE, h |-> s.h]]
(* a new process knows the saved history only, from which everything but the ledger follows *)
Reopen(s, T) ==
  IF ~s.disk.have THEN s ELSE
  LET g == s.disk.h n == Len(g.q) IN
  [s EXCEPT !.h = g, !.L = LabAt(g, n), !.U = UnlAt(g, n),
            !.repo = [rows |-> Known(T, LabAt(g, n)), cost |-> CostOf(g), n |-> n]]
=============================================================================
