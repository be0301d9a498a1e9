---------------------------- MODULE MC_ToolBox ----------------------------
(* Tool boxes on shared files: created, split, saved, loaded in any order.    *)
EXTENDS ToolBox, Json, TLC
CONSTANTS P, D, MAXH, MAXS
VARIABLES hs, files, n, hist, first
vars == <<hs, files, n, hist, first>>
Emit(e) == hist' = Append(hist, e) /\ PrintT("B@@" \o ToJson(hist'))
Init == hs = <<>> /\ files = [p \in 1..P |-> NoFile] /\ n = 0 /\ hist = <<>> /\ first = <<>>
Create == /\ Len(hs) < MAXH
          /\ \E d \in 1..D, p \in 0..P :
               /\ hs' = Append(hs, Created(files, d, p, <<>>)) /\ files' = CreateFiles(files, d, p, <<>>)
               /\ first' = Append(first, Created(files, d, p, <<>>).split)
               /\ Emit(<<"create", d, p>>)
          /\ UNCHANGED n
DoSplit == \E k \in 1..Len(hs) :
          /\ (hs[k].split = <<>> => n < MAXS)
          /\ LET s == <<n + 1>> IN
             /\ n' = IF hs[k].split = <<>> THEN n + 1 ELSE n
             /\ hs' = [hs EXCEPT ![k] = Split(@, s)] /\ files' = SplitFiles(files, hs[k], s)
             /\ first' = [first EXCEPT ![k] = IF @ = <<>> THEN s ELSE @]
          /\ Emit(<<"split", k>>)
Save == \E k \in 1..Len(hs) : files' = Write(files, hs[k]) /\ Emit(<<"save", k>>) /\ UNCHANGED <<hs, n, first>>
Load == /\ Len(hs) < MAXH
        /\ \E p \in 1..P : files[p].have /\ hs' = Append(hs, OfFile(files[p])) /\ first' = Append(first, files[p].split) /\ Emit(<<"load", p>>)
        /\ UNCHANGED <<files, n>>
Next == Create \/ DoSplit \/ Save \/ Load
Spec == Init /\ [][Next]_vars
View == <<hs, files, first>>
SplitOnce == \A k \in 1..Len(hs) : first[k] # <<>> => hs[k].split = first[k]
(* a file holds the state some tool box had; a split in a file is never younger than its tool box *)
FileIsAHandle == \A p \in 1..P : files[p].have => files[p].path = p /\ files[p].d \in 1..D /\
                 (files[p].split # <<>> => \E k \in 1..Len(hs) : hs[k].split = files[p].split /\ hs[k].path = p)
OneFilePerTool == \A k \in 1..Len(hs) : hs[k].path # 0 => files[hs[k].path].have
(* a file is never silently unsplit by opening it again *)
Reopened == [][\A p \in 1..P : files[p].have /\ files'[p].have /\ Len(hs') > Len(hs) => files'[p] = files[p]]_vars
=============================================================================
