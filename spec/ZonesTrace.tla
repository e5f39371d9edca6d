----------------------------- MODULE ZonesTrace -----------------------------
(* Schedules with zones.  A trace: [cfg, rows: seq of [s, f, req, pre: seq of [z, from, to, s, f]] in the order of
   placement, final: seq of transitions at the end, end: start of the finish work (-1: none), slack: latest moment the
   keeper may need (-1: unknown) per row `lim`, err]. *)
EXTENDS Zones, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, bad
vars == <<t, l, bad>>
Tr == Traces[t]
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
TransOf(tr) == Cat([i \in DOMAIN tr.rows |-> tr.rows[i].pre], Len(tr.rows)) \o tr.final
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Row == Tr.rows[l]
Step == /\ l <= Len(Tr.rows)
        /\ bad' = bad \cup Cond(ForceOK(Tr.cfg, TransOf(Tr), Row), "status@" \o ToString(l))
              \cup Cond(\A i \in 1..(l - 1) : Compatible(Tr.rows[i], Row), "compatible@" \o ToString(l))
              \cup Cond(\A j \in DOMAIN Row.pre : Row.pre[j].f <= Row.s, "card@" \o ToString(l))
              \cup Cond(Row.lim < 0 \/ Row.s <= Row.lim, "late@" \o ToString(l))
              \cup Cond(Row.s >= Row.ask, "early@" \o ToString(l))
              \cup Cond(Row.pure = 1, "pure@" \o ToString(l))
              \cup Cond(Row.can = -1 \/ Row.can = 1, "can@" \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED t
INF == 100000000
AllTrans == LET T == TransOf(Tr) IN UNION {Cond(TransOK(Tr.cfg, T, i, IF i > Len(T) - Len(Tr.final) THEN Tr.end ELSE INF),
                                               "change@" \o ToString(i)) : i \in DOMAIN T}
Finish == /\ l = Len(Tr.rows) + 1
          /\ PrintT(<<"VERDICT", t, bad \cup (IF Tr.err # "" THEN {"exception:" \o Tr.err} ELSE
                 AllTrans \cup Cond(Tr.end < 0 \/ FinalOK(Tr.cfg, TransOf(Tr), Tr.end), "endstatus"))>>)
          /\ l' = l + 1 /\ UNCHANGED <<t, bad>>
TraceNext == Step \/ Finish
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
