------------------------------- MODULE InputMC -------------------------------
(* Loops are broken by dropping the weakest link of a loop until none is left; all graphs of four works with weights 1..2 on some links.
   Mistake: "strong" the strongest link of the loop is dropped, "any" any link between the works of loops, "one" only one loop is broken. *)
EXTENDS Input
CONSTANTS Mistake, Weights
VARIABLES orig, left, going
vars == <<orig, left, going>>
Pairs4 == {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 1>>, <<3, 4>>, <<4, 2>>, <<1, 4>>}
Init == /\ \E P \in SUBSET Pairs4 : \E f \in [P -> Weights] : orig = {[p |-> x[1], c |-> x[2], w |-> f[x]] : x \in P}
        /\ left = orig /\ going = TRUE
(* some simple loop through l: its other links are a path back from l.c to l.p *)
Loops(E) == {C \in SUBSET E : C # {} /\ (\A l \in C : Cardinality({k \in C : k.p = l.c}) = 1 /\ Cardinality({k \in C : k.c = l.c}) = 1)
                               /\ (\A l \in C : \A k \in C : k.p \in Reach(C, l.p))}
Next == /\ going
        /\ IF Acyclic(left) THEN going' = FALSE /\ UNCHANGED left
           ELSE /\ going' = (Mistake # "one")
                /\ \E C \in Loops(left) : \E l \in (IF Mistake = "any" THEN {l \in left : \E k \in C : k.p = l.p} ELSE C) :
                     /\ Mistake \in {"any"} \/ (IF Mistake = "strong" THEN \A k \in C : k.w <= l.w ELSE \A k \in C : l.w <= k.w)
                     /\ left' = left \ {l}
        /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
InvDone == ~going => Acyclic(left)
InvDropped == \A l \in orig \ left : MayDrop(orig, l)
InvNoLoop == Acyclic(orig) => left = orig
(* the given links survive if they make no loop themselves *)
InvGiven == LET G == {l \in orig : \A k \in orig : k.w <= l.w} IN Acyclic(G) => G \subseteq left
=============================================================================
