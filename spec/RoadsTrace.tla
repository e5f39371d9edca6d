----------------------------- MODULE RoadsTrace -----------------------------
(* A landscape: [n, roads, holders: places that are depots, near: per place the depots as [d, h] in the order they are tried, routes: [x, y, way],
   built: [x, y, use: roads that may be used, way], got: [x, y, len, bw] of its edges, platforms, stock: per place [m, n] as given, stockgot: as told for
   depots and platforms, cars, works: per work its place, worksgot, ids: ids of its places, others: neighbours as told per place, err] *)
EXTENDS Roads, Json
Traces == JsonDeserialize("traces.json")
VARIABLE t
Judge(Tr) ==
  LET n == Tr.n  R == TLCEval(Tr.roads)  All == DOMAIN R
      H == Members(Tr.holders)
      F == TLCEval([x \in 1..n |-> From(n, R, All, x)])
      Reached(x) == {h \in H : h # x /\ F[x][h] < INF}
      Edge(i) == [x |-> Min2(R[i].a, R[i].b), y |-> Max2(R[i].a, R[i].b), len |-> R[i].len, bw |-> R[i].bw] IN
       Cond(\A x \in (1..n) \ H : LET q == Tr.near[x] IN /\ Len(q) = Cardinality(Reached(x)) /\ {q[i].h : i \in DOMAIN q} = Reached(x)
                                    /\ \A i \in DOMAIN q : q[i].d = F[x][q[i].h] /\ (i > 1 => q[i - 1].d <= q[i].d), "depots by distance")
  \cup Cond(\A q \in Members(Tr.routes) : IsWay(n, R, All, q.x, q.y, q.way), "route")
  \cup Cond(\A q \in Members(Tr.built) : IsWay(n, R, Members(q.use), q.x, q.y, q.way), "route by the roads that can be used")
  \cup Cond(SameBag(Tr.got, [i \in All |-> Edge(i)]), "roads")
  \cup Cond(SameBag(Tr.platforms, SelectSeq([i \in 1..n |-> i], LAMBDA x : x \notin H)), "platforms")
  \cup Cond(Tr.stockgot = Tr.stock /\ Tr.carsgot = Tr.cars, "stocks")
  \cup Cond(Tr.worksgot = Tr.works, "places of works")
  \cup Cond(Distinct(Tr.ids), "ids")
  \cup Cond(\A x \in 1..n : SameBag(Tr.others[x], SelectSeq([i \in All |-> IF R[i].a = x THEN R[i].b ELSE IF R[i].b = x THEN R[i].a ELSE 0], LAMBDA y : y # 0)), "neighbours")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Traces[t].err = "" THEN Judge(Traces[t]) ELSE {"exception:" \o Traces[t].err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
