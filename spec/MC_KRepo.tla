------------------------------ MODULE MC_KRepo ------------------------------
EXTENDS KRepo, Json, TLC
CONSTANTS I, X, L, Kind
VARIABLES kb, cost, hist
vars == <<kb, cost, hist>>
Emit(e) == hist' = Append(hist, e) /\ PrintT("B@@" \o ToJson([kind |-> Kind, h |-> hist']))
Init == kb = <<[i |-> 0, lab |-> 0, exa |-> 0]>> /\ cost = 0 /\ hist = <<>>
Es == [i : I, lab : L, exa : X]
Full(e) == [i |-> e.i, lab |-> e.lab, exa |-> e.exa, cost |-> 1]
Bare(k) == [n \in 1..Len(k) |-> [i |-> k[n].i, lab |-> k[n].lab, exa |-> k[n].exa]]
Add == \E e \in Es : kb' = Put(kb, e, Kind) /\ cost' = 1 /\ Emit(<<"add", e>>)
Upd == \E e, f \in Es : e.i < f.i /\ kb' = PutAll(kb, <<e, f>>, Kind) /\ cost' = NewCost(kb, <<Full(e), Full(f)>>, Kind) /\ Emit(<<"update", e, f>>)
DisI == \E i \in I \cup {0} : kb' = Drop(kb, i) /\ cost' = 0 /\ Emit(<<"discard_i", i>>)
DisX == \E x \in X : cost' = 0 /\ Emit(<<"discard_x", x>>) /\
          IF With(kb, x) = {} THEN kb' = kb ELSE \E i \in With(kb, x) : kb' = Drop(kb, i)
Get == \E a, b \in I : kb' = kb /\ cost' = 0 /\ Emit(<<"get_i", a, b>>)
Clear == kb' = <<>> /\ cost' = 0 /\ Emit(<<"clear">>)
Next == Add \/ Upd \/ DisI \/ DisX \/ Get \/ Clear
Spec == Init /\ [][Next]_vars
View == kb
OneRow == NoRep([n \in 1..Len(kb) |-> kb[n].i])
Agree == \A i \in Idx(kb) : kb[Row(kb, i)].i = i /\ i \in With(kb, kb[Row(kb, i)].exa)
CostRule == [][Kind = "matrix" => cost' = IF Len(kb') > Len(kb) THEN Len(kb') - Len(kb) ELSE cost']_vars
Growth == [][Len(kb') <= Len(kb) + 2 /\ (Len(kb') >= Len(kb) - 1 \/ kb' = <<>>)]_vars
=============================================================================
