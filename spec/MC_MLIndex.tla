----------------------------- MODULE MC_MLIndex -----------------------------
EXTENDS MLIndex, Json
CONSTANTS N, K
VARIABLES c, hist
I == 0..(N-1)
Entries == {<<"all", i>> : i \in I} \cup {<<"one", i, j>> : i \in I, j \in 0..K}
           \cup {<<"many", i, js>> : i \in I, js \in {<<0>>, <<0, 1>>, <<1, K>>, <<1, 1>>}}
Few == {<<"all", i>> : i \in I} \cup {<<"one", i, j>> : i \in {0}, j \in 0..K} \cup {<<"many", i, <<0, 1>>>> : i \in I}
Lists == {<<e>> : e \in Entries} \cup {<<e, f>> : e \in Few, f \in Few}
Ops == {<<o, e>> : o \in {"add", "discard"}, e \in Entries} \cup {<<o, b>> : o \in {"update", "diff"}, b \in Lists}
       \cup {<<o, <<>>>> : o \in {"update_self", "diff_self", "clear", "copy", "into_copy", "alias"}}
Init == c = {} /\ hist = <<>>
Do(o, a) == /\ c' = Apply(c, K, o, a).next
            /\ hist' = Append(hist, <<o, a>>)
            /\ PrintT("B@@" \o ToJson(hist'))
Next == \E p \in Ops : Do(p[1], p[2])
Spec == Init /\ [][Next]_<<c, hist>>
View == c
InRange == c \subseteq (I \X (0..(K-1)))
RoundTrips == \A o \in {"C", "F"} : FromOneDim(OneDim(c, K, N, o), K, N, o) = c
OneDimInjective == \A o \in {"C", "F"} : Cardinality(OneDim(c, K, N, o)) = Cardinality(c)
Partition == Complete(c, K) \cap Broken(c, K) = {}
AddDiscardExact == \A e \in Entries : ~OutOfRange(e, K) /\ ~ManyOut(e, K) =>
     /\ Denotes(e, K) \subseteq Apply(c, K, "add", e).next
     /\ Denotes(e, K) \cap Apply(c, K, "discard", e).next = {}
     /\ Apply(c, K, "add", e).next \ c \subseteq Denotes(e, K)
     /\ c \ Apply(c, K, "discard", e).next \subseteq Denotes(e, K)
=============================================================================
