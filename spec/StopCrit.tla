------------------------------ MODULE StopCrit ------------------------------
(* C08: stopping criteria.  A criterion knows what it saw at its last update
   (seen) and reads the clock itself.
   c = [kind, num, den]   limit num/den (queries, quarter cost units, fraction
       of the initially unlabeled pool, clock ticks; kind "none" has no limit)
   seen = [left, iter, cost, u0]; a criterion that was never updated has seen
   nothing queried of an unknown, non-empty pool.                             *)
EXTENDS ALHistory
Fresh == [left |-> 1, iter |-> 0, cost |-> 0, u0 |-> 1]
SeeAll(h) == [left |-> Cardinality(UnlAt(h, Len(h.q))), iter |-> Len(h.q), cost |-> CostOf(h), u0 |-> Cardinality(h.U0)]
(* the fraction queried: u0 - left of u0 >= num/den *)
Fraction(c, s) == s.u0 = 0 \/ (s.u0 - s.left) * c.den >= c.num * s.u0
Reached(c, s, elapsed) ==
  CASE c.kind = "none" -> FALSE
    [] c.kind = "num_of_queries" -> s.iter * c.den >= c.num
    [] c.kind = "cost_limit" -> s.cost * c.den >= c.num
    [] c.kind = "percent_of_unlabel" -> Fraction(c, s)
    [] c.kind = "time_limit" -> elapsed * c.den >= c.num
Stops(c, s, elapsed) == s.left = 0 \/ Reached(c, s, elapsed)
=============================================================================
