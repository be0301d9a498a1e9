------------------------------ MODULE ToolBox ------------------------------
(* C22: a tool box holds the data of an experiment and, once made, one split,
   in memory and (when it has a saving path) in a file.  Everything it hands
   out is derived from these two.
   handle: [d (data), split (folds, <<>> when not split), path (0: none)]
   file:   [have, d, split]
   fold:   [tr, te: row names; L, U: names (single label) or pairs "i,j"]     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NoFile == [have |-> FALSE, d |-> 0, split |-> <<>>, path |-> 0]
Write(files, h) == IF h.path = 0 THEN files ELSE [files EXCEPT ![h.path] = [have |-> TRUE, d |-> h.d, split |-> h.split, path |-> h.path]]
OfFile(f) == [d |-> f.d, split |-> f.split, path |-> f.path]
(* a new tool box on a path that has a file is the saved one *)
Created(files, d, p, given) == IF p # 0 /\ files[p].have THEN OfFile(files[p]) ELSE [d |-> d, split |-> given, path |-> p]
CreateFiles(files, d, p, given) == IF p # 0 /\ files[p].have THEN files ELSE Write(files, Created(files, d, p, given))
(* splitting a split tool box answers with the split it has *)
Split(h, s) == IF h.split # <<>> THEN h ELSE [h EXCEPT !.split = s]
SplitFiles(files, h, s) == IF h.split # <<>> THEN files ELSE Write(files, Split(h, s))
(* what a data set says about its indexes: [kind, names, y, x, cells, K];
   cells[r][c] is an entry of the label matrix (multi, part) or of the feature matrix (feat) *)
Paired(D) == D.kind \in {"multi", "part", "feat"}
Row(D, nm) == CHOOSE r \in 1..Len(D.names) : D.names[r] = nm
Pairs(D, rows) == {<<nm, j>> : nm \in rows, j \in 1..D.K}
Pool(D, rows) == IF Paired(D) THEN Pairs(D, rows) ELSE rows
Sound(D, f) == /\ ToSet(f.tr) \cup ToSet(f.te) = ToSet(D.names) /\ ToSet(f.tr) \cap ToSet(f.te) = {}
               /\ Len(f.tr) + Len(f.te) = Len(D.names)
               /\ ToSet(f.L) \cup ToSet(f.U) = Pool(D, ToSet(f.tr)) /\ ToSet(f.L) \cap ToSet(f.U) = {}
(* every class (label, column of the labels, feature) is among what a fold knows at its start *)
Covers(D, f) ==
  CASE D.kind = "single" -> {D.y[Row(D, nm)] : nm \in ToSet(f.L)} = ToSet(D.y)
    [] D.kind = "feat" -> {p[2] : p \in ToSet(f.L)} = 1..D.K
    [] OTHER -> \A j \in 1..D.K : \E p \in ToSet(f.L) : p[2] = j /\ D.cells[Row(D, p[1])][j] = "1"
(* the sizes asked for, in percent, up to rounding; a labeled row of a label matrix is labeled as a whole *)
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Sized(D, f, test, rate) ==
  LET m == Len(f.tr) l == Cardinality(ToSet(f.L))
      rows == D.kind \in {"multi", "part"} IN
  /\ Near(100 * Len(f.te), test * Len(D.names), 100)
  /\ IF rows THEN l % D.K = 0 /\ Near(100 * (l \div D.K), rate * m, 100)
     ELSE Near(100 * l, rate * m * (IF D.kind = "feat" THEN D.K ELSE 1), 100)
(* whole rows of labels are kept in a matrix, single entries one by one *)
Repository(D) == IF D.qt = "AllLabels" THEN "MatrixRepository" ELSE "ElementRepository"
(* the knowledge about the labeled part of a fold *)
FullyLabeled(D, f) == {nm \in ToSet(f.tr) : \A j \in 1..D.K : <<nm, j>> \in ToSet(f.L)}
Known(D, f, inst) ==
  LET X(nm) == IF inst THEN D.x[Row(D, nm)] ELSE "-" IN
  CASE D.kind = "single" -> {[i |-> nm, j |-> 0, lab |-> D.y[Row(D, nm)], exa |-> X(nm)] : nm \in ToSet(f.L)}
    [] D.kind = "multi" -> {[i |-> nm, j |-> 0, lab |-> D.y[Row(D, nm)], exa |-> X(nm)] : nm \in FullyLabeled(D, f)}
    [] OTHER -> {[i |-> p[1], j |-> p[2], lab |-> D.cells[Row(D, p[1])][p[2]], exa |-> X(p[1])] : p \in ToSet(f.L)}
=============================================================================
