-------------------------- MODULE Trace_Random --------------------------
EXTENDS Random, Integers, TraceBase
(* steps: one configuration a of a random choice, asked T times; seen: the different outcomes with their number.
   Sets are recorded as sequences (o), so that repeated elements show; outcomes outside the pool contain 0.      *)
Bad(name, cond) == IF cond THEN {} ELSE {name}
SInit(tr) == 0
Set(q) == {q[i] : i \in 1..Len(q)}
Shaped(a, o) ==
  CASE a.kind \in {"sample", "spend"} -> Cardinality(Set(o)) = Len(o)
    [] a.kind = "perm" -> TRUE
    [] OTHER -> Cardinality(Set(o[1])) = Len(o[1]) /\ Cardinality(Set(o[2])) = Len(o[2])
As(a, o) ==
  CASE a.kind \in {"sample", "spend"} -> Set(o)
    [] a.kind = "perm" -> o
    [] OTHER -> <<Set(o[1]), Set(o[2])>>
\* eight standard deviations
Even(T, c, w, W) == LET x == (T * w) \div W  d == IF c > x THEN c - x ELSE x - c IN d * d <= 64 * x + 128
SFails(st, e) ==
  IF e.k # "ok" THEN {"accepted"}
  ELSE
  LET a == e.a
      l == Law(a)  D == DOMAIN l  W == Total(l, D)
      ok == \A i \in 1..Len(e.seen) : Shaped(a, e.seen[i].o) /\ As(a, e.seen[i].o) \in D
      got == {As(a, e.seen[i].o) : i \in 1..Len(e.seen)}
      cnt(o) == LET RECURSIVE S(_)
                    S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + (IF As(a, e.seen[i].o) = o THEN e.seen[i].c ELSE 0)
                IN S(Len(e.seen))
  IN IF ~ok THEN {"admissible"}
     ELSE Bad("every_outcome", D \subseteq got)
          \cup Bad("equally_likely", \A o \in D : Even(e.T, cnt(o), l[o], W))
          \cup Bad("pool_unchanged", e.same)
SAfter(st, e) == st
=============================================================================
