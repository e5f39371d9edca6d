---------------------------- MODULE ValidateTrace ----------------------------
(* Verdicts of the validator on plans: [inst, rows, ok: 1 accepted | 0 rejected, must: 1 if it comes from a scheduler]. *)
(* A kind that the contractor does not employ is over its capacity while it is busy; a work of no duration is busy at no
   instant, so such a plan may be accepted or rejected. *)
EXTENDS Validate, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Init == t \in 1..Len(Traces)
Tr == Traces[t]
B == Broken(Tr.inst, Tr.rows)
Next == /\ t > 0
        /\ PrintT(<<"VERDICT", t,
             (IF Tr.ok = 1 THEN {"accepted:" \o b : b \in B \ {"employs"}} ELSE IF B = {} THEN {"rejected"} ELSE {})>>)
        /\ t' = 0
TraceSpec == Init /\ [][Next]_t
=============================================================================
