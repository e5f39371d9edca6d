------------------------------- MODULE RoadsMC -------------------------------
(* All pairs by intermediate places (Floyd-Warshall), with the last place before the goal kept for every pair, on all nets of up to Roads roads.
   Mistake: "last" of several roads between two places the last one counts, "inner" intermediate places in the innermost loop, "oneway" roads lead one
   way, "zero" roads of length 0 are no roads, "step" the last place is that of the intermediate place. *)
EXTENDS Roads
CONSTANTS Mistake, N, NRoads, Lens
VARIABLES roads, d, p, todo
vars == <<roads, d, p, todo>>
One == {[a |-> x[1], b |-> x[2], len |-> x[3]] : x \in {x \in (1..N) \X (1..N) \X Lens : x[1] < x[2]}}
Direct(x, y) == {i \in DOMAIN roads : Joins(roads[i], x, y) /\ (Mistake = "oneway" => roads[i].a = x)}
Len0(x, y) == LET D == Direct(x, y) IN IF D = {} THEN INF ELSE IF Mistake = "last" THEN roads[SetMax(D)].len ELSE SetMin({roads[i].len : i \in D})
Triples == [i \in 1..(N * N * N) |-> LET q == i - 1 IN
             IF Mistake = "inner" THEN <<(q % N) + 1, (q \div (N * N)) + 1, ((q \div N) % N) + 1>>
             ELSE <<(q \div (N * N)) + 1, ((q \div N) % N) + 1, (q % N) + 1>>]
Init == /\ roads \in UNION {[1..k -> One] : k \in 0..NRoads} /\ todo = 0
        /\ d = TLCEval([x \in 1..N |-> [y \in 1..N |-> IF x = y THEN INF ELSE Len0(x, y)]])
        /\ p = TLCEval([x \in 1..N |-> [y \in 1..N |-> x]])
Step == /\ todo < N * N * N /\ todo' = todo + 1 /\ roads' = roads
        /\ LET tr == Triples[todo + 1]  i == tr[1]  u == tr[2]  v == tr[3]
               ok == /\ u # v /\ d[u][i] < INF /\ d[i][v] < INF /\ (Mistake = "zero" => d[u][i] # 0 /\ d[i][v] # 0) /\ d[u][i] + d[i][v] < d[u][v] IN
           /\ d' = IF ok THEN [d EXCEPT ![u][v] = d[u][i] + d[i][v]] ELSE d
           /\ p' = IF ok THEN [p EXCEPT ![u][v] = IF Mistake = "step" THEN i ELSE p[i][v]] ELSE p
Spec == Init /\ [][Step]_vars
RECURSIVE Back(_, _, _)
Back(u, v, k) == IF v = u THEN <<u>> ELSE IF k = 0 THEN <<>> ELSE Append(Back(u, p[u][v], k - 1), v)
Best(x, y) == CHOOSE i \in Direct(x, y) : \A j \in Direct(x, y) : roads[i].len <= roads[j].len
Done == todo = N * N * N
InvDist == Done => \A u \in 1..N : LET f == From(N, roads, DOMAIN roads, u) IN \A v \in 1..N : u # v => d[u][v] = f[v]
InvWay == Done => \A u, v \in 1..N : u # v /\ d[u][v] < INF =>
            LET q == Back(u, v, N) IN
            /\ q # <<>> /\ q[1] = u /\ \A i \in 1..(Len(q) - 1) : Direct(q[i], q[i + 1]) # {}
            /\ IsWay(N, roads, DOMAIN roads, u, v, [i \in 1..(Len(q) - 1) |-> Best(q[i], q[i + 1])])
=============================================================================
