------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* The acceptance rules of the schedule validator: a plan (rows in any       *)
(* order) of an instance (see Sched) is accepted iff every rule holds.       *)
(* A row: [w, s, f, c, team: seq of [k, n, c]]; w = 0: a work the graph does *)
(* not contain.                                                             *)
(***************************************************************************)
EXTENDS Sched
R_known(I, P) == \A i \in DOMAIN P : P[i].w \in Works(I)
R_all(I, P) == \A w \in Works(I) : IsPlaced(P, w)
R_order(I, P) == \A i \in DOMAIN I.edges :
   (IsPlaced(P, I.edges[i].p) /\ IsPlaced(P, I.edges[i].c)) =>
   LET a == RowOf(P, I.edges[i].p)
       b == RowOf(P, I.edges[i].c) IN a.s <= a.f /\ a.f <= b.s /\ b.s <= b.f
R_contractor(I, P) == \A i \in DOMAIN P : P[i].w \in Works(I) =>
   (I.spec[P[i].w].contractors # <<>> => P[i].c \in Members(I.spec[P[i].w].contractors))
R_service(I, P) == \A i \in DOMAIN P : (P[i].w \in Works(I) /\ I.works[P[i].w].svc = 1) => P[i].s = P[i].f
R_crew(I, P) == \A i \in DOMAIN P : P[i].w \in Works(I) => \A j \in DOMAIN P[i].team :
   \E q \in DOMAIN I.works[P[i].w].reqs :
      LET r == I.works[P[i].w].reqs[q] IN
      r.k = P[i].team[j].k /\ r.min <= P[i].team[j].n /\ P[i].team[j].n <= r.max
(* at every instant nobody has more workers of a kind bound than employed *)
Rows_(P) == {i \in DOMAIN P : P[i].s < P[i].f}
Employed(I, c, k) == IF Cap(I, c, k) < 0 THEN 0 ELSE Cap(I, c, k)
R_employs(I, P) == \A i \in DOMAIN P : \A j \in DOMAIN P[i].team : Cap(I, P[i].team[j].c, P[i].team[j].k) >= 0
R_capacity(I, P) == \A i \in Rows_(P) : \A j \in DOMAIN P[i].team :
   Usage(P, P[i].team[j].c, P[i].team[j].k, P[i].s) <= Employed(I, P[i].team[j].c, P[i].team[j].k)
Broken(I, P) ==
   (IF R_known(I, P) THEN {} ELSE {"known"}) \cup (IF R_all(I, P) THEN {} ELSE {"all"})
   \cup (IF R_order(I, P) THEN {} ELSE {"order"}) \cup (IF R_contractor(I, P) THEN {} ELSE {"contractor"})
   \cup (IF R_service(I, P) THEN {} ELSE {"service"}) \cup (IF R_crew(I, P) THEN {} ELSE {"crew"})
   \cup (IF R_capacity(I, P) THEN {} ELSE {"capacity"})
   \cup (IF R_employs(I, P) THEN {} ELSE {"employs"})
=============================================================================
