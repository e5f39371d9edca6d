--------------------------- MODULE FeasibleTrace ---------------------------
(* A trace: tasks: seq of [reqs, want, only: seq], caps: seq of seq, runs: seq of [name, out]
   out: "ok" or the name of the exception; empty: 1 if nobody was there at all *)
EXTENDS Feasible, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
Tasks == {[reqs |-> Tr.tasks[i].reqs, want |-> Tr.tasks[i].want, only |-> Members(Tr.tasks[i].only)] : i \in DOMAIN Tr.tasks}
Expected == IF Tr.empty = 1 THEN "ValueError" ELSE IF FeasibleProject(Tasks, Tr.caps) THEN "ok" ELSE "NoSufficientContractorError"
Check == LET e == TLCEval(Expected) IN UNION {Cond(Tr.runs[i].out = e, Tr.runs[i].name \o ":" \o Tr.runs[i].out \o " not " \o e) : i \in DOMAIN Tr.runs}
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Tr.err = "" THEN Check ELSE {"exception:" \o Tr.err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
