------------------------------ MODULE MC_Split ------------------------------
(* The splitting procedure: draw a training set, draw the labeled set from it,
   start over while a class is missing.                                      *)
EXTENDS Split, Json
CONSTANTS MINN, MAXN
VARIABLES cfg, ph, T, L
Rates == {<<1, 4>>, <<1, 2>>, <<9, 10>>}
Tests == {<<1, 5>>, <<3, 10>>, <<1, 2>>}
Configs == UNION {[n : {n}, y : [1..n -> 0..1], t : Tests, r : Rates, all : BOOLEAN] : n \in MINN..MAXN}
Pos == 0..(cfg.n - 1)
Init == /\ cfg \in Configs /\ ph = "start" /\ T = {} /\ L = {}
        /\ PrintT("B@@" \o ToJson(cfg))
NCls == Cardinality(Classes(cfg.y, Pos))
Impossible == \A m \in 0..cfg.n : TrainSize(m, cfg.n, cfg.t) => \A k \in LabSizes(m, cfg.r) : k < NCls
Refuse == /\ ph = "start" /\ cfg.all /\ Impossible /\ ph' = "refused" /\ UNCHANGED <<cfg, T, L>>
DrawTrain == /\ ph \in {"start", "retry"} /\ ~(cfg.all /\ Impossible)
             /\ T' \in {S \in SUBSET Pos : TrainSize(Cardinality(S), cfg.n, cfg.t)}
             /\ ph' = "train" /\ UNCHANGED <<cfg, L>>
DrawLab == /\ ph = "train"
           /\ L' \in {S \in SUBSET T : Cardinality(S) \in LabSizes(Cardinality(T), cfg.r)}
           /\ ph' = IF cfg.all /\ Cardinality(Classes(cfg.y, L')) < NCls THEN "retry" ELSE "done"
           /\ UNCHANGED <<cfg, T>>
Next == Refuse \/ DrawTrain \/ DrawLab
Spec == Init /\ [][Next]_<<cfg, ph, T, L>>
DoneOK == ph = "done" => /\ L \subseteq T /\ L # {} /\ T \subseteq Pos
                         /\ L \cup (T \ L) \cup (Pos \ T) = Pos
                         /\ cfg.all => Classes(cfg.y, L) = Classes(cfg.y, Pos)
RefusedOK == ph = "refused" => ~ \E S \in SUBSET Pos : /\ Cardinality(S) < NCls
                                                       /\ Classes(cfg.y, S) = Classes(cfg.y, Pos)
\* a permitted configuration can always still succeed
NotStuck == ph \in {"start", "retry"} /\ cfg.all /\ ~Impossible =>
   \E S \in SUBSET Pos : Cardinality(S) >= NCls /\ Classes(cfg.y, S) = Classes(cfg.y, Pos)
=============================================================================
