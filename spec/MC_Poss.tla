------------------------------ MODULE MC_Poss ------------------------------
(* Pareto optimisation for subset selection as a transition system: any mutation of any member of the archive may be
   drawn.  Fitness: value (to be maximised here), cost; solutions over budget or without cost count as worthless.       *)
EXTENDS Knap
CONSTANTS V, C, B
VARIABLES pop
VV == <<3, 2, 4>>
CC == <<2, 1, 3>>
Items == 1..Len(V)
Val(s) == IF s = {} \/ ~Feasible(s, C, B) THEN 0 - 1 ELSE SumOver(s, V)
Cost(s) == SumOver(s, C)
Better(x, y) == (Val(x) > Val(y) /\ Cost(x) <= Cost(y)) \/ (Val(x) >= Val(y) /\ Cost(x) < Cost(y))
Weak(x, y) == Val(x) >= Val(y) /\ Cost(x) <= Cost(y)
Init == pop = {{}}
Next == \E o \in SUBSET Items :       \* every offspring has a positive probability from every member
          /\ ~\E z \in pop : Better(z, o)
          /\ pop' = {z \in pop : ~Weak(o, z)} \cup {o}
Spec == Init /\ [][Next]_pop /\ \A o \in SUBSET Items : SF_pop(Next /\ pop' # pop /\ o \in pop')
Archive == \A x, y \in pop : x # y => ~Better(x, y)
OnlyFeasible == \A x \in pop : Feasible(x, C, B)
Chosen == CHOOSE x \in pop : \A y \in pop : Val(y) <= Val(x)
BestSoFar == [][\A y \in pop : \E x \in pop' : Val(x) >= Val(y)]_pop
Attains == <>[](Max(0, Val(Chosen)) = Best(V, C, B))
=============================================================================
