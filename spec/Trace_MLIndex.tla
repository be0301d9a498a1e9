---------------------------- MODULE Trace_MLIndex ----------------------------
EXTENDS MLIndex, TraceBase
(* state [c, K, N]; step [op, a, k, e, nw, argsame, v, post |-> [ok, list, len, mem]] *)
SInit(tr) == [c |-> {}, K |-> tr.init.K, N |-> tr.init.N]
Bad(name, cond) == IF cond THEN {} ELSE {name}
Obs(p, c, K) == IF ~p.ok THEN {"observers_raise"} ELSE
   Bad("pairs", ToSet(p.list) = c) \cup Bad("listed_once", NoRepeat(p.list))
   \cup Bad("length", p.len = Cardinality(c)) \cup Bad("in_range", \A n \in 1..Len(p.list) : Len(p.list[n]) = 2 /\ p.list[n][2] \in 0..(K-1))
   \cup Bad("membership", \A n \in 1..Len(p.mem) : p.mem[n][2] = (p.mem[n][1] \in c))
Ones(M) == {<<i-1, j-1>> : i \in 1..Len(M), j \in 1..Len(M[1])}
MapPos(tr, c) == {<<(CHOOSE n \in 1..Len(tr) : tr[n] = p[1]) - 1, p[2]>> : p \in c}
SFails(s, e) ==
  LET c == s.c K == s.K N == s.N p == e.post IN
  Bad("arguments_unmodified", e.argsame) \cup
  CASE e.op = "new" ->
         IF \E n \in 1..Len(e.a) : OutOfRange(e.a[n], K) THEN Bad("refused", e.k = "err")
         ELSE Bad("accepted", e.k = "ok") \cup Obs(p, DenotesAll(e.a, K), K) \cup Bad("warns", (e.nw > 0) = ~NoRepeat(FlatAll(e.a, K)))
    [] e.op = "new_infer" ->   \* columns inferred from single-column pairs
         Bad("accepted", e.k = "ok") \cup Obs(p, DenotesAll(e.a, K), K)
    [] e.op = "from_1d" ->  \* a = <<array, order>>
         Bad("accepted", e.k = "ok") \cup Obs(p, FromOneDim(ToSet(e.a[1]), K, N, e.a[2]), K)
    [] e.op = "from_mask" ->
         Bad("accepted", e.k = "ok") \cup Obs(p, {q \in Ones(e.a) : e.a[q[1]+1][q[2]+1] = 1}, K)
    [] e.op = "onedim" -> Bad("accepted", e.k = "ok") \cup (IF e.k = "ok" THEN
         Bad("onedim", ToSet(e.v) = OneDim(c, K, N, e.a) /\ Len(e.v) = Cardinality(c)) ELSE {}) \cup Obs(p, c, K)
    [] e.op = "instances" -> Bad("accepted", e.k = "ok") \cup Bad("instances", ToSet(e.v) = Instances(c) /\ NoRepeat(e.v)) \cup Obs(p, c, K)
    [] e.op = "unbroken" -> Bad("accepted", e.k = "ok") \cup Bad("complete_instances", ToSet(e.v) = Complete(c, K) /\ NoRepeat(e.v)) \cup Obs(p, c, K)
    [] e.op = "broken" -> Bad("accepted", e.k = "ok") \cup Bad("incomplete_instances", ToSet(e.v) = Broken(c, K) /\ NoRepeat(e.v)) \cup Obs(p, c, K)
    [] e.op = "mask" ->   \* a = fill value
         Bad("accepted", e.k = "ok") \cup (IF e.k = "ok" THEN
         Bad("mask", /\ Len(e.v) = N /\ Len(e.v[1]) = K
                     /\ \A i \in 1..N, j \in 1..K : e.v[i][j] = IF <<i-1, j-1>> \in c THEN e.a ELSE 0) ELSE {}) \cup Obs(p, c, K)
    [] e.op = "map" ->     \* a = training indexes; v = mapped pairs, w = its number of columns
         IF Instances(c) \subseteq ToSet(e.a)
         THEN Bad("accepted", e.k = "ok") \cup (IF e.k = "ok" THEN Bad("mapped_pairs", ToSet(e.v) = MapPos(e.a, c) /\ Len(e.v) = Cardinality(c))
                                                                   \cup Bad("mapped_columns", e.cols = K) ELSE {}) \cup Obs(p, c, K)
         ELSE Bad("refused", e.k = "err") \cup Obs(p, c, K)
    [] e.op = "map1" ->    \* a = <<training indexes, sample indexes>>
         IF ToSet(e.a[2]) \subseteq ToSet(e.a[1])
         THEN Bad("accepted", e.k = "ok") \cup Bad("mapped", ToSet(e.v) = {(CHOOSE n \in 1..Len(e.a[1]) : e.a[1][n] = x) - 1 : x \in ToSet(e.a[2])})
         ELSE Bad("refused", e.k = "err")
    [] e.op = "pop" -> IF c = {} THEN Bad("pop_empty_raises", e.k = "err" /\ e.e \in {"KeyError", "IndexError"}) \cup Obs(p, c, K)
         ELSE IF e.k # "ok" THEN {"accepted"} ELSE Bad("pop_returns_member", e.v \in c) \cup Obs(p, c \ {e.v}, K)
    [] OTHER -> LET r == Apply(c, K, e.op, e.a) IN
         Bad("accepted", (e.k = "err") = r.err)
         \cup Bad("warns", r.err \/ (e.nw > 0) = r.warn)
         \cup Obs(p, r.next, K)
SAfter(s, e) == [s EXCEPT !.c = IF e.post.ok THEN ToSet(e.post.list) ELSE @]
=============================================================================
