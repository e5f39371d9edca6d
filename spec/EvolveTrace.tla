----------------------------- MODULE EvolveTrace -----------------------------
(* Runs of the genetic scheduler. A trace: [dl, D, n, G, plateau, ev: seq of calls, res: seq of [time, val, own], pop: seq of values,
   single, size, twin, err]; a call: [f: "time"|"goal", inds: seq of [id, val: seq, time]] (one evaluation of a list of
   individuals; time -1 when the call gave only goal values).  res[i].val: goal value of the i-th returned schedule, as recomputed
   from the schedule.  twin = 1 iff a second run with the same seed did and returned exactly the same. *)
EXTENDS Evolve, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, bad, tv, gv, memo, over
vars == <<t, l, bad, tv, gv, memo, over>>
Tr == Traces[t]
E == Tr.ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ tv = <<>> /\ gv = <<>> /\ memo = {} /\ over = FALSE
Vals(e) == [i \in DOMAIN e.inds |-> e.inds[i].val]
Step == /\ l <= Len(Tr.ev)
        /\ tv' = IF E.f = "time" THEN tv \o Vals(E) ELSE tv
        /\ gv' = IF E.f = "goal" THEN gv \o Vals(E) ELSE gv
        /\ memo' = memo \cup {<<E.f, E.inds[i].id, E.inds[i].val>> : i \in DOMAIN E.inds}
        /\ bad' = bad \cup Cond(\A i \in DOMAIN E.inds : E.inds[i].val[1] >= 0, "value@" \o ToString(l))
                      \cup Cond(Len(E.inds) <= Tr.n, "populationsize@" \o ToString(l))
                      \cup (IF E.f = "goal" /\ Tr.dl = 1 /\ (\E i \in DOMAIN tv : tv[i][1] <= Tr.D)
                            THEN Cond(\A i \in DOMAIN E.inds : \E m \in memo : m[1] = "time" /\ m[2] = E.inds[i].id /\ m[3][1] <= Tr.D, "lategoal@" \o ToString(l))
                            ELSE {})
        /\ over' = (over \/ Cardinality({i \in DOMAIN gv' : gv'[i] \in Front(Members(gv'))}) > Tr.n)
        /\ l' = l + 1 /\ UNCHANGED t
Met == \E i \in DOMAIN tv : tv[i][1] <= Tr.D
Generations == Cardinality({i \in DOMAIN Tr.ev : Tr.ev[i].f = (IF Tr.dl = 1 THEN "time" ELSE "goal")}) - 1
(* the returned schedules: with one goal exactly the best of everything evaluated; with several goals they do not dominate each other,
   contain the first in the order of goals (selection by order) or all that is not dominated (Pareto selection, room for all of it) *)
Vr == {Tr.res[i].val : i \in DOMAIN Tr.res}
Outcome == Cond(Vr \subseteq Members(gv), "evaluated") \cup Cond(Front(Vr) = Vr, "dominated")
   \cup (IF Tr.single = 1 \/ (Tr.multi = 1 /\ ~ over) THEN Cond(Vr = Front(Members(gv)), "front") ELSE {})
   \cup (IF Tr.multi = 0 THEN Cond(\E v \in Vr : Better(gv, v) = 0, "best") ELSE {})
Final ==
   Cond(\A m1 \in memo, m2 \in memo : m1[1] = m2[1] /\ m1[2] = m2[2] => m1[3] = m2[3], "function")
   \cup Cond(Len(Tr.res) >= 1, "result")
   \cup (IF Tr.dl = 0 THEN Outcome
                           \cup (IF Tr.single = 1 /\ Tr.pops = 1 THEN Cond(IsBestOf(Tr.pop, gv, Tr.n), "elite") ELSE {})
         ELSE (IF Met THEN Cond(\A i \in DOMAIN Tr.res : Tr.res[i].time <= Tr.D, "deadline")
                           \cup Outcome
               ELSE Cond(\A i \in DOMAIN Tr.res : \A j \in DOMAIN tv : Tr.res[i].time <= tv[j][1], "earliest")))
   \cup Cond(Generations <= Tr.G + 1, "generations")
   \cup Cond(Tr.twin = 1, "twin")
Finish == /\ l = Len(Tr.ev) + 1
          /\ PrintT(<<"VERDICT", t, bad \cup (IF Tr.err = "" THEN Final ELSE {"exception:" \o Tr.err})>>)
          /\ l' = l + 1 /\ UNCHANGED <<t, bad, tv, gv, memo, over>>
TraceNext == Step \/ Finish
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
