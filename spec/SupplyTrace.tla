---------------------------- MODULE SupplyTrace -----------------------------
(* Schedules and supply histories with materials. A trace: [cfg, rows, pure: 0|1 per row in field ok, err,
   refused: "" | "work": the request refused after these rows is in works | "project": no schedule for these works, works: seq of [p, need]]. *)
EXTENDS Supply, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, bad
vars == <<t, l, bad>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Row == Tr.rows[l]
At(n) == n \o "@" \o ToString(l)
Step == /\ l <= Len(Tr.rows)
        /\ bad' = bad \cup Cond(Arrive(Row), At("arrival")) \cup Cond(OneTrip(Row), At("trip"))
                      \cup Cond(Driven(Tr.cfg, Row), At("travel")) \cup Cond(Row.pure = 1, At("pure"))
                      \cup Cond(Row.same = 1, At("promise")) \cup Cond(Row.s >= Row.ask, At("early"))
        /\ l' = l + 1 /\ UNCHANGED t
Finish == /\ l = Len(Tr.rows) + 1
          /\ PrintT(<<"VERDICT", t, bad \cup (IF Tr.err # "" THEN {"exception:" \o Tr.err} ELSE
               Cond(DepotsOK(Tr.cfg, Tr.rows), "depot") \cup Cond(VehiclesOK(Tr.cfg, Tr.rows), "vehicles")
               \cup Cond(Tr.refused # "work" \/ NoDepot(Tr.cfg, Tr.rows, Tr.works[1].p, Tr.works[1].need), "refused a work")
               \cup Cond(Tr.refused # "project" \/ ~Plenty(Tr.cfg, Tr.works), "refused a project")
               \cup Cond(\A p \in DOMAIN Tr.cfg.plat : PlatformOK(Tr.cfg, Tr.rows, p), "platform"))>>)
          /\ l' = l + 1 /\ UNCHANGED <<t, bad>>
TraceNext == Step \/ Finish
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
