------------------------------- MODULE RankMC -------------------------------
(* Machines over all small acyclic graphs of heads whose numbering is not topological.
   "ford":   relaxation of reversed edges in the order of edges, with the value of the current class kept aside and an early stop; ends at the ranks;
   "greedy": repeated choice of an available head of the lowest group; gives linear, greedy orders;
   "prio":   correction of priorities, work by work in topological order, each time lowering all ancestors.
   Mistakes: "nosave" (last class not stored), "stop" (stop as soon as one class is unchanged), "parents" (only direct parents are lowered),
   "group" (head of the lowest group taken although a parent waits). *)
EXTENDS Rank
CONSTANTS Part, Mistake, N, W
VARIABLES Ch, w, pw, it, stop, o, p, k
vars == <<Ch, w, pw, it, stop, o, p, k>>
Pairs == {q \in (1..N) \X (1..N) : q[1] # q[2]}
Orders == Permutations(1..N)
Topo(c) == CHOOSE r \in Orders : \A a \in 1..N : \A b \in c[a] : Idx(r, a) < Idx(r, b)
Graphs == {[h \in 1..N |-> {c \in 1..N : <<h, c>> \in s}] : s \in {s \in SUBSET Pairs : \E r \in Orders : \A q \in s : Idx(r, q[1]) < Idx(r, q[2])}}
Init == /\ Ch \in Graphs /\ w \in [1..N -> 1..W]
        /\ pw = [h \in 1..N |-> 0] /\ it = 0 /\ stop = FALSE /\ o = <<>> /\ p = w /\ k = 1
(* edges <<parent, child>> sorted by parent, then child; the relaxed value of a parent is stored when the next parent begins *)
EdgeSeq == LET S == {<<a, b>> \in Pairs : b \in Ch[a]} IN
   LET rank(e) == Cardinality({f \in S : f[1] < e[1] \/ (f[1] = e[1] /\ f[2] < e[2])}) + 1 IN [i \in 1..Cardinality(S) |-> CHOOSE e \in S : rank(e) = i]
RECURSIVE Sweep(_, _, _, _, _)
Sweep(i, cur, val, v, ch) ==        \* cur: current parent, val: its relaxed value, v: stored values, ch: changed
   IF i > Len(EdgeSeq) THEN [v |-> v, cur |-> cur, val |-> val, ch |-> ch] ELSE
   LET e == EdgeSeq[i]
       v1 == IF e[1] # cur THEN [v EXCEPT ![cur] = val] ELSE v
       val1 == IF e[1] # cur THEN v1[e[1]] ELSE val
       new == v1[e[2]] - w[e[1]]
       ch1 == IF Mistake = "stop" /\ e[1] # cur THEN FALSE ELSE ch IN
   IF new < val1 THEN Sweep(i + 1, e[1], new, v1, TRUE) ELSE Sweep(i + 1, e[1], val1, v1, ch1)
Ford == /\ Part = "ford" /\ ~stop /\ it < N /\ EdgeSeq # <<>>
        /\ LET r == Sweep(1, EdgeSeq[1][1], pw[EdgeSeq[1][1]], pw, FALSE) IN
           IF ~r.ch THEN stop' = TRUE /\ pw' = r.v /\ it' = it
           ELSE pw' = (IF Mistake = "nosave" THEN r.v ELSE [r.v EXCEPT ![r.cur] = r.val]) /\ it' = it + 1 /\ stop' = (it + 1 = N)
        /\ UNCHANGED <<Ch, w, o, p, k>>
InvFord == Part = "ford" /\ (stop \/ EdgeSeq = <<>>) => \A h \in 1..N : pw[h] = -Longest(Ch, w, h)
InvRanks == it = 0 /\ k = 1 /\ o = <<>> => LET r == Ranks(Ch, w, Topo(Ch)) IN
   /\ \A h \in 1..N : r[h] = Longest(Ch, w, h)
   /\ \A h \in 1..N : \A c \in Ch[h] : r[h] > r[c]
   /\ LET l == Lft(Ch, w, Topo(Ch)) IN \A h \in 1..N : \A c \in Ch[h] : h # Topo(Ch)[N] => l[h] < l[c]
(* random choice *)
Done == Members(o)
Avail == {h \in (1..N) \ Done : \A q \in 1..N : h \in Ch[q] => q \in Done}
Choice == LET a == IF Mistake = "group" THEN (1..N) \ Done ELSE Avail IN {h \in a : \A x \in a : w[h] <= w[x]}
Pick == Part = "greedy" /\ (\E h \in Choice : o' = Append(o, h)) /\ UNCHANGED <<Ch, w, pw, it, stop, p, k>>
InvGreedy == Part = "greedy" => Linear(Ch, o) /\ (Len(o) = N => Greedy(Ch, w, o)) /\ (Len(o) < N => Choice # {})
(* priorities *)
RECURSIVE Anc(_)
Anc(S) == LET T == S \cup {h \in 1..N : Ch[h] \cap S # {}} IN IF T = S THEN S ELSE Anc(T)
Correct == /\ Part = "prio" /\ k <= N
           /\ LET c == Topo(Ch)[k]
                  bad == {h \in 1..N : c \in Ch[h] /\ p[c] < p[h]}
                  low == IF Mistake = "parents" THEN bad ELSE Anc(bad) IN
              p' = [h \in 1..N |-> IF h \in low THEN Min2(p[h], p[c]) ELSE p[h]]
           /\ k' = k + 1 /\ UNCHANGED <<Ch, w, pw, it, stop, o>>
InvPrio == Part = "prio" /\ k = N + 1 => p = Corrected(Ch, Topo(Ch), w) /\ \A h \in 1..N : \A c \in Ch[h] : p[h] <= p[c]
Spec == Init /\ [][Ford \/ Pick \/ Correct]_vars
=============================================================================
