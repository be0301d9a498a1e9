------------------------------- MODULE MLIndex -------------------------------
(* C02, C03: indexes of instance-label (or instance-feature) pairs.
   An index entry is <<"all", i>>, <<"one", i, j>> or <<"many", i, <<j..>>>>.
   The abstract state of a collection is a set of pairs over K columns.      *)
EXTENDS Sequences, Integers, FiniteSets, SequencesExt, TLC

Ins(e) == e[2]
Denotes(e, K) ==
  CASE e[1] = "all"  -> {<<e[2], j>> : j \in 0..(K-1)}
    [] e[1] = "one"  -> {<<e[2], e[3]>>}
    [] e[1] = "many" -> {<<e[2], e[3][n]>> : n \in {m \in 1..Len(e[3]) : e[3][m] \in 0..(K-1)}}
DenotesAll(b, K) == UNION {Denotes(b[n], K) : n \in 1..Len(b)}
\* the pairs in the order they are spelled, repetitions kept
Flat(e, K) ==
  CASE e[1] = "all"  -> [n \in 1..K |-> <<e[2], n-1>>]
    [] e[1] = "one"  -> << <<e[2], e[3]>> >>
    [] e[1] = "many" -> LET js == SelectSeq(e[3], LAMBDA j : j \in 0..(K-1))
                        IN [n \in 1..Len(js) |-> <<e[2], js[n]>>]
FlatAll(b, K) == FoldLeft(LAMBDA acc, e : acc \o Flat(e, K), <<>>, b)

OutOfRange(e, K) == e[1] = "one" /\ e[3] \notin 0..(K-1)
ManyOut(e, K) == e[1] = "many" /\ \E n \in 1..Len(e[3]) : e[3][n] \notin 0..(K-1)
NoRepeat(q) == Cardinality(ToSet(q)) = Len(q)

R(next, warn, err) == [next |-> next, warn |-> warn, err |-> err]
Apply(c, K, op, a) ==
  CASE op = "add" ->       \* one index; any column out of range is refused
         IF OutOfRange(a, K) \/ ManyOut(a, K) THEN R(c, FALSE, TRUE)
         ELSE LET f == Flat(a, K) IN R(c \cup ToSet(f), ToSet(f) \cap c # {} \/ ~NoRepeat(f), FALSE)
    [] op = "discard" ->
         LET f == Flat(a, K) IN R(c \ ToSet(f), ~(ToSet(f) \subseteq c) \/ ~NoRepeat(f), FALSE)
    [] op = "update" ->    \* many indexes
         IF \E n \in 1..Len(a) : OutOfRange(a[n], K) THEN R(c, FALSE, TRUE)
         ELSE LET f == FlatAll(a, K) IN R(c \cup ToSet(f), ToSet(f) \cap c # {} \/ ~NoRepeat(f), FALSE)
    [] op = "diff" ->
         IF \E n \in 1..Len(a) : OutOfRange(a[n], K) THEN R(c, FALSE, TRUE)
         ELSE LET f == FlatAll(a, K) IN R(c \ ToSet(f), ~(ToSet(f) \subseteq c) \/ ~NoRepeat(f), FALSE)
    [] op = "update_self" -> R(c, c # {}, FALSE)
    [] op = "diff_self"   -> R({}, FALSE, FALSE)
    [] op = "clear"       -> R({}, FALSE, FALSE)
    [] op \in {"copy", "into_copy", "alias"} -> R(c, FALSE, FALSE)

Instances(c) == {p[1] : p \in c}
Row(c, i) == {p[2] : p \in {q \in c : q[1] = i}}
Complete(c, K) == {i \in Instances(c) : Row(c, i) = 0..(K-1)}
Broken(c, K) == Instances(c) \ Complete(c, K)
OneDim(c, K, n, order) == {IF order = "C" THEN p[1] * K + p[2] ELSE p[1] + p[2] * n : p \in c}
FromOneDim(d, K, n, order) == {IF order = "C" THEN <<x \div K, x % K>> ELSE <<x % n, x \div n>> : x \in d}

(* ------------------------------- C03 tools ------------------------------ *)
Order(b) == FoldLeft(LAMBDA acc, e : IF Ins(e) \in ToSet(acc) THEN acc ELSE Append(acc, Ins(e)), <<>>, b)
\* entry list for a set of pairs: one per instance, the instance alone when complete
IsIntegration(r, b, K) ==
  LET P == DenotesAll(b, K)
      ins == {Ins(b[n]) : n \in 1..Len(b)}
  IN /\ Cardinality({Ins(r[n]) : n \in 1..Len(r)}) = Len(r)
     /\ {Ins(r[n]) : n \in 1..Len(r)} = ins
     /\ DenotesAll(r, K) = P
     /\ \A n \in 1..Len(r) : /\ r[n][1] = "all" <=> Row(P, Ins(r[n])) = 0..(K-1)
                             /\ r[n][1] = "many" => NoRepeat(r[n][3]) /\ ToSet(r[n][3]) \subseteq 0..(K-1)
Integrate(b, K) ==
  LET P == DenotesAll(b, K) o == Order(b)
  IN [n \in 1..Len(o) |-> IF Row(P, o[n]) = 0..(K-1) THEN <<"all", o[n]>>
                          ELSE <<"many", o[n], SetToSortSeq(Row(P, o[n]), <)>>]
LabelMatrix(b, Y, unk) ==
  LET K == Len(Y[1]) o == Order(b) P == DenotesAll(b, K)
  IN [n \in 1..Len(o) |-> [j \in 1..K |-> IF <<o[n], j-1>> \in P THEN Y[o[n] + 1][j] ELSE unk]]
=============================================================================
