--------------------------- MODULE Trace_IndexSet ---------------------------
EXTENDS IndexSet, TraceBase
(* step e = [op, a, k, e, nw, post |-> [list, iter, len, mem, get], argsame, v] *)
SInit(tr) == <<>>
Bad(name, cond) == IF cond THEN {} ELSE {name}
Obs(p, c) == IF ~p.ok THEN {"observers_raise"} ELSE
        Bad("members", ToSet(p.list) = ToSet(c) /\ Len(p.list) = Len(c))
        \cup Bad("iteration", p.iter = p.list)
        \cup Bad("length", p.len = Len(p.list))
        \cup Bad("membership", \A i \in 1..Len(p.mem) : p.mem[i][2] = (p.mem[i][1] \in ToSet(c)))
        \cup Bad("getitem", p.get = p.list)
OldFirst(c, d) == \A i \in 1..Len(d) : d[i] \in ToSet(c) => \A j \in 1..(i-1) : d[j] \in ToSet(c)
SFails(c, e) ==
  LET p == e.post IN
  Bad("arguments_unmodified", e.argsame) \cup
  CASE e.op = "new" ->
         Bad("accepted", e.k = "ok") \cup Obs(p, AddAll(<<>>, e.a))
         \cup Bad("warns_on_repeat", (e.nw > 0) = Repeats(<<>>, e.a))
    [] e.op = "pop" ->
         IF c = <<>> THEN Bad("pop_empty_raises", e.k = "err" /\ e.e \in {"KeyError", "IndexError"}) \cup Obs(p, c)
         ELSE IF e.k # "ok" THEN {"accepted"}
         ELSE Bad("pop_returns_member", e.v \in Members(c)) \cup Obs(p, DropOne(c, e.v))
    [] e.op = "sample" ->
         IF e.k # "ok" THEN {"accepted"} ELSE
         Bad("sample_distinct", NoDup(e.v)) \cup Bad("sample_members", ToSet(e.v) \subseteq Members(c))
         \cup Bad("sample_size", SampleSize(Len(c), e.a[1], e.a[2], Len(e.v))) \cup Obs(p, c)
    [] e.op = "sample_spread" ->   \* v: the union of many samples, 0 < rate < 1
         Bad("sample_not_constant", ToSet(e.v) = Members(c)) \cup Obs(p, c)
    [] OTHER ->
         LET r == Apply(c, e.op, e.a) IN
         Bad("accepted", (e.k = "err") = r.err)
         \cup Bad("refusal_kind", r.err => e.e \in {"TypeError", "ValueError"})
         \cup Bad("warns", r.err \/ (e.nw > 0) = r.warn)
         \cup Obs(p, r.next)
         \cup Bad("old_before_new", OldFirst(c, p.list))
SAfter(c, e) == IF e.post.ok THEN e.post.list ELSE c
=============================================================================
