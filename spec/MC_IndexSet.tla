---------------------------- MODULE MC_IndexSet ----------------------------
EXTENDS IndexSet, Json
CONSTANTS U, MAXB
VARIABLES c, m, hist
Batches == UNION {[1..n -> U] : n \in 0..MAXB}
Ops == {<<o, x>> : o \in {"add", "discard"}, x \in U}
       \cup {<<"remove", x>> : x \in Members(c)}
       \cup {<<o, b>> : o \in {"update", "diff"}, b \in Batches}
       \cup {<<o, <<>>>> : o \in {"update_self", "diff_self", "clear", "copy", "alias", "into_copy"}}
       \cup (IF c # <<>> THEN {<<"add_bad", <<>>>>} ELSE {})
Init == /\ \E b \in Batches : /\ c = AddAll(<<>>, b) /\ NoDup(b)
                              /\ m = ToSet(b) /\ hist = << <<"new", b>> >>
\* the set-algebra meaning, stated independently of the sequence operators
Meaning(o, a) ==
  CASE o = "add" -> m \cup {a} [] o \in {"discard", "remove"} -> m \ {a}
    [] o = "update" -> m \cup ToSet(a) [] o = "diff" -> m \ ToSet(a)
    [] o \in {"clear", "diff_self"} -> {} [] OTHER -> m
Do(o, a) == /\ c' = Apply(c, o, a).next
            /\ m' = Meaning(o, a)
            /\ hist' = Append(hist, <<o, a>>)
            /\ PrintT("B@@" \o ToJson(hist'))
Pop == /\ c # <<>> /\ \E x \in Members(c) : c' = DropOne(c, x) /\ m' = m \ {x}
       /\ hist' = Append(hist, <<"pop", <<>>>>)
       /\ PrintT("B@@" \o ToJson(hist'))
PopEmpty == c = <<>> /\ UNCHANGED <<c, m>> /\ hist' = Append(hist, <<"pop", <<>>>>) /\ PrintT("B@@" \o ToJson(hist'))
Next == (\E p \in Ops : Do(p[1], p[2])) \/ Pop \/ PopEmpty
Spec == Init /\ [][Next]_<<c, m, hist>>
View == c
SetSemantics == NoDup(c) /\ ToSet(c) = m
OldBeforeNew == [][\A i \in 1..Len(c') : c'[i] \in ToSet(c) =>
                     \A j \in 1..(i-1) : c'[j] \in ToSet(c)]_<<c, m, hist>>
=============================================================================
