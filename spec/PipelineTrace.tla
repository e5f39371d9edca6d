--------------------------- MODULE PipelineTrace ---------------------------
(* One run of the pipeline: [n, edges: works and links of the scheduled graph, n0: works of the user's graph, orders: orders before and
   after every order optimiser, areas, seen: the orders given to the schedule optimisers, ids, united: works in the raw and the united
   schedule, rows (sorted), exec, direct: results of the scheduler itself on the graphs the strategy allows, dexec, local: were there
   optimisers, err]. *)
EXTENDS Pipeline, Json
Traces == JsonDeserialize("traces.json")
VARIABLE t
Judge(Tr) ==
  LET E == TLCEval(Tr.edges)
      Oo == Tr.orders IN
       Cond(\A i \in DOMAIN Oo : IsOrder(Tr.n, E, Oo[i]), "order")
  \cup Cond(\A i \in 1..(Len(Oo) - 1) : InArea(Oo[i], Oo[i + 1], Tr.areas[i].lo, Tr.areas[i].hi), "area")
  \cup Cond(\A i \in DOMAIN Tr.seen : IsOrder(Tr.n, E, Tr.seen[i]) /\ (Oo # <<>> => Tr.seen[i] = Oo[Len(Oo)]), "followed")
  \cup Cond(Members(Tr.ids) = 1..Tr.n /\ Distinct(Tr.ids), "raw schedule")
  \cup Cond(Members(Tr.united) = 1..Tr.n0 /\ Distinct(Tr.united), "schedule")
  \cup Cond(Tr.local = 0 => \E i \in DOMAIN Tr.direct : Tr.rows = Tr.direct[i], "same")
  \cup Cond(Tr.local = 0 => \E i \in Shortest(Tr.dexec) : Tr.rows = Tr.direct[i] \/ Tr.exec = Tr.dexec[i], "shortest")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Traces[t].err = "" THEN Judge(Traces[t]) ELSE {"exception:" \o Traces[t].err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
