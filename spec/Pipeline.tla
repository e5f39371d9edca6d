------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The scheduling pipeline: input checked -> order optimised -> scheduled -> *)
(* schedule optimised -> project.                                            *)
(*  works 1..n, edges: seq of [p, c, t] (t = "IFS" inside a chain); an order  *)
(*  lists the heads of chains, every stage of a chain stands where its head is.*)
(***************************************************************************)
EXTENDS Util
IsStage(E, w) == \E i \in DOMAIN E : E[i].c = w /\ E[i].t = "IFS"
Before(E, w) == E[CHOOSE i \in DOMAIN E : E[i].c = w /\ E[i].t = "IFS"].p
RECURSIVE HeadOf(_, _)
HeadOf(E, w) == IF IsStage(E, w) THEN HeadOf(E, Before(E, w)) ELSE w
Heads(n, E) == {w \in 1..n : ~IsStage(E, w)}
Deps(E) == {d \in {<<HeadOf(E, E[i].p), HeadOf(E, E[i].c)>> : i \in DOMAIN E} : d[1] # d[2]}
Pos(order, w) == CHOOSE i \in DOMAIN order : order[i] = w
IsOrder(n, E, order) == /\ Len(order) = Cardinality(Heads(n, E)) /\ {order[i] : i \in DOMAIN order} = Heads(n, E)
                        /\ \A d \in Deps(E) : Pos(order, d[1]) < Pos(order, d[2])
(* an optimiser of the area lo+1..hi leaves the rest of the order alone *)
InArea(a, b, lo, hi) == /\ Len(a) = Len(b) /\ \A i \in DOMAIN a : (i <= lo \/ i > hi) => a[i] = b[i]
Swap(order, i, j) == [order EXCEPT ![i] = order[j], ![j] = order[i]]
(* dividing the workers of two works between them: limits and the contractor's pool are kept *)
SplitOK(q1, q2, cap, n1, n2) == n1 \in q1.min..q1.max /\ n2 \in q2.min..q2.max /\ n1 + n2 <= cap
(* lag strategies: which results may be returned *)
Shortest(execs) == {i \in DOMAIN execs : \A j \in DOMAIN execs : execs[i] <= execs[j]}
=============================================================================
