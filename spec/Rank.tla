--------------------------------- MODULE Rank ---------------------------------
(***************************************************************************)
(* The order in which works are considered.                                  *)
(*  Heads 1..n (one per inseparable chain), Ch[h]: heads that follow h,       *)
(*  w[h]: weight (twice the average duration), g[h]: priority group.          *)
(***************************************************************************)
EXTENDS Util
(* ---- heads of a work graph: N works, edges e: [p, c, t]; a chain is linked by IFS edges *)
Heads(N, E) == {i \in 1..N : ~\E j \in DOMAIN E : E[j].c = i /\ E[j].t = "IFS"}
RECURSIVE HeadOf(_, _, _)
HeadOf(N, E, i) == IF i \in Heads(N, E) THEN i ELSE LET j == CHOOSE j \in DOMAIN E : E[j].c = i /\ E[j].t = "IFS" IN HeadOf(N, E, E[j].p)
ParentsOf(N, E, h) == {HeadOf(N, E, E[j].p) : j \in {j \in DOMAIN E : HeadOf(N, E, E[j].c) = h}} \ {h}
ChildrenOf(N, E, h) == {HeadOf(N, E, E[j].c) : j \in {j \in DOMAIN E : HeadOf(N, E, E[j].p) = h}} \ {h}
(* ---- longest path from a head to the end, not counting the last head; Ch: function head -> set of heads *)
RECURSIVE Longest(_, _, _)
Longest(Ch, w, h) == IF Ch[h] = {} THEN 0 ELSE w[h] + SetMax({Longest(Ch, w, c) : c \in Ch[h]})
(* all of them at once, children before parents: ord is a topological order of the heads *)
RECURSIVE RanksFrom(_, _, _, _, _)
RanksFrom(Ch, w, ord, i, r) ==
   IF i = 0 THEN r ELSE LET h == ord[i] IN
   RanksFrom(Ch, w, ord, i - 1, TLCEval([r EXCEPT ![h] = IF Ch[h] = {} THEN 0 ELSE w[h] + SetMax({r[c] : c \in Ch[h]})]))
Ranks(Ch, w, ord) == RanksFrom(Ch, w, ord, Len(ord), TLCEval([h \in Members(ord) |-> 0]))
(* ---- latest finish times; the last head ends at the sum of all durations *)
RECURSIVE LftFrom(_, _, _, _, _)
LftFrom(Ch, d, ord, i, l) ==
   IF i = 0 THEN l ELSE LET h == ord[i] IN
   LftFrom(Ch, d, ord, i - 1, TLCEval([l EXCEPT ![h] = IF i = Len(ord) THEN SumOver(Members(ord), LAMBDA x : d[x])
                                               ELSE IF Ch[h] = {} THEN 0 ELSE SetMin({l[c] - d[c] : c \in Ch[h]})]))
Lft(Ch, d, ord) == LftFrom(Ch, d, ord, Len(ord), TLCEval([h \in Members(ord) |-> 0]))
(* ---- orders *)
Pos(o, h) == Idx(o, h)
Perm(o, H) == Len(o) = Cardinality(H) /\ Members(o) = H
Linear(Ch, o) == \A h \in Members(o) : \A c \in Ch[h] : c \in Members(o) => Pos(o, h) < Pos(o, c)
Grouped(g, o) == \A i, j \in DOMAIN o : i < j => g[o[i]] <= g[o[j]]
SortedBy(f, g, o) == \A i, j \in DOMAIN o : i < j /\ g[o[i]] = g[o[j]] => f[o[i]] <= f[o[j]]
(* a random order: at every position one of the available heads of the lowest available group *)
Available(Ch, o, i) == LET done == {o[j] : j \in 1..(i - 1)} IN {h \in Members(o) \ done : \A p \in Members(o) : h \in Ch[p] => p \in done}
Greedy(Ch, g, o) == \A i \in DOMAIN o : LET a == Available(Ch, o, i) IN o[i] \in a /\ \A h \in a : g[o[i]] <= g[h]
(* ---- priorities after correction: no work is later than what follows it *)
RECURSIVE CorrFrom(_, _, _, _)
CorrFrom(Ch, ord, i, p) == IF i = 0 THEN p ELSE LET h == ord[i] IN CorrFrom(Ch, ord, i - 1, TLCEval([p EXCEPT ![h] = SetMin({p[h]} \cup {p[c] : c \in Ch[h]})]))
Corrected(Ch, ord, prio) == CorrFrom(Ch, ord, Len(ord), prio)
(* ---- a critical path: consecutive heads from a longest start up to the last head (not included) *)
PathWeight(w, p) == SumSeq([i \in DOMAIN p |-> w[p[i]]], Len(p))
CriticalPath(Ch, w, ord, p) ==
   LET r == TLCEval(Ranks(Ch, w, ord))
       top == SetMax({r[h] : h \in Members(ord)}) IN
   /\ Members(p) \subseteq Members(ord)
   /\ \A i \in DOMAIN p : i < Len(p) => p[i + 1] \in Ch[p[i]]
   /\ IF p = <<>> THEN top = 0 ELSE (\E c \in Ch[p[Len(p)]] : Ch[c] = {}) /\ PathWeight(w, p) = top
=============================================================================
