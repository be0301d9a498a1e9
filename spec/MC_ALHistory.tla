---------------------------- MODULE MC_ALHistory ----------------------------
(* One fold's life: query, look back, undo, recover; plus saving to disk with a
   crash possible in the middle (the file is replaced atomically).            *)
EXTENDS ALHistory, Json
CONSTANTS U, MAXQ
VARIABLES h, disk, have, saving, hist
vars == <<h, disk, have, saving, hist>>
Sels(S) == {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in {z \in S : TRUE}} 
Emit(e) == hist' = Append(hist, e) /\ PrintT("B@@" \o ToJson(hist'))
Init == /\ h = [L0 |-> {100}, U0 |-> U, q |-> <<>>, K |-> 0]
        /\ disk = <<>> /\ have = FALSE /\ saving = FALSE /\ hist = <<>>
Idle == ~saving
Add == /\ Idle /\ Len(h.q) < MAXQ
       /\ \E s \in {t \in Sels(UnlAt(h, Len(h.q))) : Cardinality(ToSet(t)) = Len(t)} :
          /\ h' = AddQ(h, [sel |-> s, cost |-> Len(h.q) + 1, perf |-> 0]) /\ Emit(<<"add", s, Len(h.q) + 1>>)
       /\ UNCHANGED <<disk, have, saving>>
Pop == /\ Idle /\ h.q # <<>> /\ \E i \in 1..Len(h.q) : h' = PopQ(h, i) /\ Emit(<<"pop", i - 1>>)
       /\ UNCHANGED <<disk, have, saving>>
PopLast == /\ Idle /\ h.q # <<>> /\ h' = PopQ(h, Len(h.q)) /\ Emit(<<"pop_last">>) /\ UNCHANGED <<disk, have, saving>>
Get == /\ Idle /\ \E k \in 0..(Len(h.q) + 1) : Emit(<<"get", k>>) /\ UNCHANGED <<h, disk, have, saving>>
Rec == /\ Idle /\ \E k \in 0..(Len(h.q) + 1) : h' = (IF k <= Len(h.q) THEN Recover(h, k) ELSE h) /\ Emit(<<"recover", k>>)
       /\ UNCHANGED <<disk, have, saving>>
StartSave == Idle /\ saving' = TRUE /\ hist' = hist /\ UNCHANGED <<h, disk, have>>
EndSave == saving /\ saving' = FALSE /\ disk' = h.q /\ have' = TRUE /\ Emit(<<"save">>) /\ UNCHANGED h
Load == /\ Idle /\ have /\ h' = [h EXCEPT !.q = disk] /\ Emit(<<"load">>) /\ UNCHANGED <<disk, have, saving>>
Crash == /\ saving /\ saving' = FALSE /\ h' = [h EXCEPT !.q = IF ~have THEN <<>> ELSE disk]
         /\ UNCHANGED <<disk, have>> /\ Emit(<<"crash_saving">>)
Next == Add \/ Pop \/ PopLast \/ Get \/ Rec \/ StartSave \/ EndSave \/ Load \/ Crash
Spec == Init /\ [][Next]_vars
View == <<h, saving>>
ViewDisk == <<h, saving, disk, have>>
Conserved == \A k \in 0..Len(h.q) : /\ LabAt(h, k) \cup UnlAt(h, k) = h.L0 \cup h.U0
                                    /\ LabAt(h, k) \cap UnlAt(h, k) = {}
Monotone == \A k \in 1..Len(h.q) : LabAt(h, k-1) \subseteq LabAt(h, k) /\ UnlAt(h, k) \subseteq UnlAt(h, k-1)
RecoverIsReplay == \A k \in 0..Len(h.q) : LET g == Recover(h, k) IN
   Len(g.q) = k /\ \A j \in 0..k : LabAt(g, j) = LabAt(h, j) /\ UnlAt(g, j) = UnlAt(h, j)
DiskComplete == have => \A k \in 1..Len(disk) : disk[k].cost \in 1..MAXQ
Accounted == QueriedOf(h) >= Len(h.q) /\ CostOf(h) >= 0
=============================================================================
