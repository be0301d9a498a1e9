---------------------------- MODULE Trace_MLTools ----------------------------
EXTENDS MLIndex, TraceBase
(* one step per call on the index list tr.init.b; no state is carried over   *)
SInit(tr) == tr.init
Bad(name, cond) == IF cond THEN {} ELSE {name}
WellFormed(r, K) == \A n \in 1..Len(r) : r[n][1] \in {"all", "one", "many"}
SFails(st, e) ==
  LET b == st.b K == st.K Y == st.Y X == st.X
  IN Bad("arguments_unmodified", e.argsame) \cup
     IF e.k # "ok" THEN {"accepted"} ELSE
     CASE e.op = "flatten" ->
            Bad("flatten_pairs", ToSet(e.v) = DenotesAll(b, K))
            \cup Bad("flatten_count", Len(e.v) = Len(FlatAll(b, K)))
       [] e.op = "infer" -> Bad("inferred_columns", e.v = 1 + (CHOOSE m \in {b[n][3] : n \in {i \in 1..Len(b) : b[i][1] = "one"}} :
                                   \A n \in 1..Len(b) : b[n][1] = "one" => b[n][3] <= m))
       [] e.op = "integrate" -> Bad("integrated", WellFormed(e.v, K) /\ IsIntegration(e.v, b, K))
       [] e.op = "labelmatrix" ->     \* a = unknown marker, v = <<matrix, rows>>
            Bad("row_order", e.v[2] = Order(b)) \cup Bad("entries", e.v[1] = LabelMatrix(b, Y, e.a))
       [] e.op = "getXy" ->           \* v = <<X rows, matrix, rows>>
            Bad("row_order", e.v[3] = Order(b)) \cup Bad("entries", e.v[2] = LabelMatrix(b, Y, e.a))
            \cup Bad("instances_match_rows", e.v[1] = [n \in 1..Len(Order(b)) |-> X[Order(b)[n] + 1]])
SAfter(st, e) == st
=============================================================================
