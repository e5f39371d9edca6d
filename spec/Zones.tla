------------------------------- MODULE Zones --------------------------------
(***************************************************************************)
(* Access zones.  A zone has a status (0 = not stated); a work may require a *)
(* status of some zones (0 = no requirement) from its start to its finish.   *)
(* A status is changed by a transition [z, from, to, s, f] which takes        *)
(* cost[from][to] and during which the zone is in no status at all.           *)
(*                                                                          *)
(* cfg: [init: seq of status per zone, last: seq of status per zone (0 none),  *)
(*       cost: 3x3 matrix, cost[a+1][b+1]]                                    *)
(* rows: seq of [s, f, req: seq of [z, q]];  trans: seq of [z, from, to, s, f] *)
(***************************************************************************)
EXTENDS Util
Cost(cfg, a, b) == IF b = 0 \/ a = b THEN 0 ELSE cfg.cost[a + 1][b + 1]
OfZone(trans, z) == {i \in DOMAIN trans : trans[i].z = z}
(* status in force at instant t: the last completed change, by completion time *)
Done(trans, z, t) == {i \in OfZone(trans, z) : trans[i].f <= t}
Last(trans, D) == CHOOSE i \in D : \A j \in D : trans[j].f < trans[i].f \/ (trans[j].f = trans[i].f /\ j <= i)
Status(cfg, trans, z, t) == LET D == Done(trans, z, t) IN IF D = {} THEN cfg.init[z] ELSE trans[Last(trans, D)].to
StatusBefore(cfg, trans, z, i) ==
  LET D == {j \in OfZone(trans, z) : trans[j].f <= trans[i].s /\ j # i /\ (trans[j].f < trans[i].f \/ j < i)} IN
  IF D = {} THEN cfg.init[z] ELSE trans[Last(trans, D)].to
Changing(trans, z, t) == \E i \in OfZone(trans, z) : trans[i].s <= t /\ t < trans[i].f
(* pointwise meaning of the property *)
RightStatus(cfg, trans, r) == \A j \in DOMAIN r.req : r.req[j].q # 0 =>
   \A t \in r.s..(r.f - 1) : ~Changing(trans, r.req[j].z, t) /\ Status(cfg, trans, r.req[j].z, t) = r.req[j].q
(* the same at the instants where something can change *)
Instants(trans, r, z) == {r.s} \cup {t \in {trans[i].s : i \in OfZone(trans, z)} \cup {trans[i].f : i \in OfZone(trans, z)} :
                                      r.s <= t /\ t < r.f}
ForceOK(cfg, trans, r) == \A j \in DOMAIN r.req : (r.req[j].q # 0 /\ r.s < r.f) =>
   \A t \in Instants(trans, r, r.req[j].z) :
       ~Changing(trans, r.req[j].z, t) /\ Status(cfg, trans, r.req[j].z, t) = r.req[j].q
(* a real change takes its cost; `at` is the start of the work it was made for *)
TransOK(cfg, trans, i, at) ==
   LET a == StatusBefore(cfg, trans, trans[i].z, i) IN
   /\ trans[i].s <= trans[i].f /\ trans[i].f <= at /\ trans[i].s >= 0
   /\ a = trans[i].to \/ trans[i].f - trans[i].s >= Cost(cfg, a, trans[i].to)
FinalOK(cfg, trans, finish) == \A z \in DOMAIN cfg.last : cfg.last[z] = 0 \/ Status(cfg, trans, z, finish) = cfg.last[z]
(* works with opposite requirements never run together *)
Compatible(a, b) == (a.s < b.f /\ b.s < a.f /\ a.s < a.f /\ b.s < b.f) =>
   \A i \in DOMAIN a.req : \A j \in DOMAIN b.req :
      (a.req[i].z = b.req[j].z /\ a.req[i].q # 0 /\ b.req[j].q # 0) => a.req[i].q = b.req[j].q
=============================================================================
