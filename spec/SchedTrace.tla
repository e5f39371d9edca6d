----------------------------- MODULE SchedTrace -----------------------------
(* Checks recorded schedules (rows in the order of Schedule.works) against Sched: one Place step per row, total
   verdict per trace.  A trace record: [inst, rows, exec, names: guards to evaluate, err: "" or exception text]. *)
EXTENDS Sched, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, rows, bad
vars == <<t, l, rows, bad>>
Tr == Traces[t]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ rows = <<>> /\ bad = {}
Place == /\ l <= Len(Tr.rows)
         /\ bad' = bad \cup {g \o "@" \o ToString(Tr.rows[l].w) :
                              g \in FailedGuards(Members(Tr.names), Tr.inst, rows, Tr.rows[l])}
         /\ rows' = Append(rows, Tr.rows[l])
         /\ l' = l + 1 /\ UNCHANGED t
EndClauses ==
  IF Tr.err # "" THEN {"exception:" \o Tr.err}
  ELSE LET N == Members(Tr.names) \cup {""} IN
       (IF "complete" \in N /\ ~C_complete(Tr.inst, rows) THEN {"complete"} ELSE {})
  \cup (IF "startatt0" \in N /\ ~C_startatt0(Tr.inst, rows) THEN {"startatt0"} ELSE {})
  \cup (IF "finishlast" \in N /\ ~C_finishlast(Tr.inst, rows) THEN {"finishlast"} ELSE {})
  \cup (IF "exectime" \in N /\ rows # <<>> /\ Tr.exec # SetMax({rows[i].f : i \in DOMAIN rows}) THEN {"exectime"} ELSE {})
  \cup (IF "chaintime" \in N /\ ~C_chaintime(Tr.inst, rows) THEN {"chaintime"} ELSE {})
  \cup (IF "spectime" \in N /\ ~C_spectime(Tr.inst, rows) THEN {"spectime"} ELSE {})
  \cup (IF "chainhold" \in N /\ ~C_chainhold(Tr.inst, rows) THEN {"chainhold"} ELSE {})
Finish == /\ l = Len(Tr.rows) + 1
          /\ PrintT(<<"VERDICT", t, bad \cup EndClauses>>)
          /\ l' = l + 1 /\ UNCHANGED <<t, rows, bad>>
TraceNext == Place \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
