---------------------------- MODULE MC_Random ----------------------------
(* The draw machine: elements leave the pool one at a time, every remaining one
   being possible.  For every configuration: what has been drawn when the machine
   stops is an outcome of the closed form, every outcome is reached, and in the
   cases which promise equally likely outcomes all have the same number of ways.  *)
EXTENDS Random, Json
CONSTANTS N, C
VARIABLES cfg, drawn
vars == <<cfg, drawn>>
Sample == [kind : {"sample", "perm"}, n : 1..N, k : 1..(N + 1)]
Spend == [kind : {"spend"}, n : {N - 1}, c : [1..(N - 1) -> 1..C], b : 0..(C + 2)]
\* label sets to hit: none, two classes, two labels of which instances may have both
Cls(n) == {<<>>} \cup {<<y, z>> : y \in {<<1>>, <<1, 2>>, <<1, n>>}, z \in {<<n>>, <<2, n>>, [i \in 1..(n - 1) |-> i + 1]}}
Fold == {a \in [kind : {"fold"}, n : 2..N, t : 0..(N - 1), l : 1..N, cls : UNION {Cls(n) : n \in 2..N}] : /\ a.t + a.l <= a.n /\ a.l < a.n
          /\ \A c \in Elems(a.cls) : Elems(c) \subseteq 1..a.n /\ a.l >= 2}
Folds == {a \in [kind : {"folds"}, n : 2..3, t : 1..2] : a.t < a.n}
Cells == {a \in [kind : {"cells"}, n : 2..3, t : 1..2, d : 1..2, m : 1..3, cover : BOOLEAN] : a.t < a.n /\ a.m <= (a.n - a.t) * a.d /\ (a.cover => a.m >= a.d)}
Cfgs == Sample \cup Spend \cup Fold \cup Folds \cup Cells
\* the cells, and the folds of a pair, are drawn as numbers
Size(a) == CASE a.kind = "cells" -> a.n + a.n * a.d [] a.kind = "folds" -> 2 * a.n [] OTHER -> a.n
Init == cfg \in {a \in Cfgs : Good(a) # {}} /\ drawn = <<>>
Stop == CASE cfg.kind \in {"sample", "perm"} -> Len(drawn) = Min(cfg.k, cfg.n)
          [] cfg.kind = "spend" -> Len(drawn) = cfg.n
          [] cfg.kind = "fold" -> Len(drawn) = cfg.n
          [] cfg.kind = "folds" -> Len(drawn) = 2 * cfg.n
          [] cfg.kind = "cells" -> Len(drawn) = cfg.n + cfg.m
\* what may be drawn next
Avail == CASE cfg.kind = "folds" -> IF Len(drawn) < cfg.n THEN (1..cfg.n) \ Elems(drawn)
                                    ELSE (1..cfg.n) \ {drawn[i] : i \in (cfg.n + 1)..Len(drawn)}
           [] cfg.kind = "cells" -> IF Len(drawn) < cfg.n THEN (1..cfg.n) \ Elems(drawn)
                                    ELSE LET rows == {drawn[i] : i \in 1..(cfg.n - cfg.t)} IN
                                      {e \in rows \X (1..cfg.d) : \A i \in (cfg.n + 1)..Len(drawn) : drawn[i] # e}
           [] OTHER -> (1..cfg.n) \ Elems(drawn)
Next == ~Stop /\ UNCHANGED cfg /\ \E x \in Avail : drawn' = Append(drawn, x)
Spec == Init /\ [][Next]_vars
Part(lo, hi) == {drawn[i] : i \in lo..hi}
Result == CASE cfg.kind = "sample" -> Elems(drawn)
            [] cfg.kind = "perm" -> drawn
            [] cfg.kind = "spend" -> Out(cfg, drawn)
            [] cfg.kind = "fold" -> <<Part(cfg.n - cfg.t + 1, cfg.n), Part(1, cfg.l)>>
            [] cfg.kind = "folds" -> <<Part(cfg.n - cfg.t + 1, cfg.n), Part(2 * cfg.n - cfg.t + 1, 2 * cfg.n)>>
            [] cfg.kind = "cells" -> <<Part(cfg.n - cfg.t + 1, cfg.n), Part(cfg.n + 1, cfg.n + cfg.m)>>
Machine == Stop => (IF cfg.kind \in {"fold", "cells"} /\ ~Admitted(cfg, Result) THEN Result \notin Outcomes(cfg) ELSE Result \in Outcomes(cfg))
Sorted == \A i \in 1..(Len(drawn) - 1) : drawn[i] < drawn[i + 1]
\* evaluated once for each configuration
Laws == drawn = <<>> =>
  LET l == Law(cfg) o == DOMAIN l IN
  /\ o # {}
  /\ cfg.kind = "sample" => /\ Cardinality(o) * Fact(Min(cfg.k, cfg.n)) = Cardinality(Choices(cfg))
                            /\ o = {Out(cfg, x) : x \in Choices(cfg)}
                            /\ \A x \in o : l[x] = Cardinality({s \in Choices(cfg) : Out(cfg, s) = x})
  /\ cfg.kind = "spend" => /\ Ways(cfg) = Fact(cfg.n)
                           /\ \A x \in o : LET s == Total([i \in x |-> cfg.c[i]], x) IN
                                s <= cfg.b /\ (x = 1..cfg.n \/ \E i \in (1..cfg.n) \ x : s + cfg.c[i] > cfg.b)
  /\ cfg.kind = "fold" /\ cfg.cls = <<>> => Cardinality(o) * Fact(cfg.t) * Fact(cfg.l) * Fact(cfg.n - cfg.t - cfg.l) = Fact(cfg.n)
  /\ PrintT("B@@" \o ToJson([cfg |-> cfg, m |-> Cardinality(o), ways |-> Ways(cfg), rarest |-> Rarest(cfg)]))
=============================================================================
