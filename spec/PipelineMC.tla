----------------------------- MODULE PipelineMC -----------------------------
(* The swap optimiser on every graph of five works (2-3 may be a chain), any order, any area: it walks from the end of the area and swaps
   a work with any acceptable one before it.  Mistake: "pair" only the two works are compared, "cand" children of the candidate are
   looked at only, "node" parents of the node only, "stages" links of the later stages are forgotten, "stale" positions are not updated. *)
EXTENDS Pipeline, SequencesExt
CONSTANTS Mistake, Links
N == 5
VARIABLES edges, order, orig, lo, hi, at, moved, known
vars == <<edges, order, orig, lo, hi, at, moved, known>>
All == {<<1, 2>>, <<1, 4>>, <<2, 4>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<3, 4>>, <<1, 3>>}
Some == All \ {<<1, 3>>, <<2, 5>>}
Few == {<<1, 2>>, <<2, 4>>, <<3, 5>>}
Seqs(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Init == /\ \E L \in SUBSET Links, ch \in BOOLEAN :
             edges = SetToSeq({[p |-> l[1], c |-> l[2], t |-> "FS"] : l \in L} \cup (IF ch THEN {[p |-> 2, c |-> 3, t |-> "IFS"]} ELSE {}))
        /\ orig \in {s \in Seqs(Heads(N, edges)) : IsOrder(N, edges, s)}
        /\ order = orig /\ lo \in {0, 1} /\ hi \in {Len(orig) - 1, Len(orig)} /\ at = hi /\ moved = {}
        /\ known = [w \in 1..N |-> IF w \in Heads(N, edges) THEN Pos(orig, w) ELSE 0]
P(w) == IF Mistake = "stale" THEN known[w] ELSE Pos(order, w)
D == IF Mistake = "stages" THEN {<<edges[i].p, edges[i].c>> : i \in DOMAIN edges} ELSE Deps(edges)
HeadsHere == {order[i] : i \in DOMAIN order}
Acceptable(i, j) ==                                   \* order[i] is the node, order[j] the candidate, j < i
   LET node == order[i]  cand == order[j] IN
   /\ cand \notin moved
   /\ <<cand, node>> \notin D
   /\ (Mistake \in {"pair", "node"} \/ \A d \in D : d[1] = cand /\ d[2] \in HeadsHere => ~(j < P(d[2]) /\ P(d[2]) <= i))
   /\ (Mistake \in {"pair", "cand"} \/ \A d \in D : d[2] = node /\ d[1] \in HeadsHere => ~(j <= P(d[1]) /\ P(d[1]) < i))
Step == /\ at > lo /\ at' = at - 1
        /\ \/ order' = order /\ moved' = moved \cup {order[at]}
           \/ /\ order[at] \notin moved
              /\ \E j \in (lo + 1)..(at - 1) : Acceptable(at, j) /\ order' = Swap(order, at, j) /\ moved' = moved \cup {order[at], order[j]}
        /\ UNCHANGED <<edges, orig, lo, hi, known>>
Spec == Init /\ [][Step]_vars
InvOrder == IsOrder(N, edges, order)
InvArea == InArea(orig, order, lo, hi)
=============================================================================
