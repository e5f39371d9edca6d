-------------------------------- MODULE Agency --------------------------------
(***************************************************************************)
(* Blocks of works are given to agents one after another.  Blocks B form a   *)
(* graph; a block comes after its parents and begins after the last of them   *)
(* has ended.  Every agent is asked for an offer [s: begin, e: end]; an offer  *)
(* depends only on what the agent was given before.  A manager picks one:      *)
(*  - by finish: the earliest end, the first agent among equals;               *)
(*  - by trust: the same, the length of an offer counted w/10 times, where w    *)
(*    grows by one each time the agent ends later than it said;                *)
(*  - by prediction: a free agent with the predicted algorithm, else any free    *)
(*    one, else one with the algorithm, else any; among them the one whose      *)
(*    workers are closest to the predicted ones.                               *)
(***************************************************************************)
EXTENDS Sched
CondA(c, name) == IF c THEN {} ELSE {name}
(* edges: set of <<p, c>>; an order of blocks *)
At(ord, b) == CHOOSE i \in DOMAIN ord : ord[i] = b
OrderOk(n, edges, ord) == /\ Len(ord) = n /\ Members(ord) = 1..n
                          /\ \A e \in edges : At(ord, e[1]) < At(ord, e[2])
ParentEnd(edges, end, b) == SetMax({0} \cup {end[e[1]] : e \in {e \in edges : e[2] = b}}) + 1
(* by finish *)
Earliest(offers) == SetMin({offers[a].e : a \in DOMAIN offers})
FirstEarliest(offers) == SetMin({a \in DOMAIN offers : offers[a].e = Earliest(offers)})
(* by trust, exact up to one tick of time (products are computed in binary floating point) *)
Weighted(o, w) == o.s + ((o.e - o.s) * w) \div 10
TrustOk(offers, w, a) == \A x \in DOMAIN offers : Weighted(offers[a], w[a]) <= Weighted(offers[x], w[x]) + 1
TrustNext(o, real, w, w2) ==
   LET d == Weighted(real, w) - Weighted(o, w) IN
   IF d > 1 THEN w2 = w + 1 ELSE IF d < -1 \/ (real = o) THEN w2 = w ELSE w2 \in {w, w + 1}
(* by prediction *)
Class(free, algo) == IF free THEN (IF algo THEN 0 ELSE 1) ELSE (IF algo THEN 2 ELSE 3)
Predicted(cls, mse) ==
   LET best == SetMin({cls[a] : a \in DOMAIN cls})
       C == {a \in DOMAIN cls : cls[a] = best}
       m == SetMin({mse[a] : a \in C}) IN
   SetMin({a \in C : mse[a] = m})
(* what can be reached over a set of pairs on 1..n *)
RECURSIVE Warshall(_, _, _)
Warshall(n, E, k) == IF k = 0 THEN E ELSE
   LET D == TLCEval(Warshall(n, E, k - 1)) IN TLCEval(D \cup {<<i, j>> \in (1..n) \X (1..n) : <<i, k>> \in D /\ <<k, j>> \in D})
Reach(n, E) == Warshall(n, E, n)
=============================================================================
