----------------------------- MODULE ValidateMC -----------------------------
(* The sweep over start and end events that decides the capacity rule, on every small plan of up to N rows (one kind,
   one contractor).  Mistake = "none" | "startsfirst" (events of one instant are not netted: starts are booked before
   ends) | "lateclass" (the first event of an instant is booked with the previous instant). *)
EXTENDS Validate
CONSTANTS N, H, Cap1, Mistake
VARIABLES plan, events, pool, moment, verdict
vars == <<plan, events, pool, moment, verdict>>
I == [works |-> <<>>, edges |-> <<>>, contractors |-> <<[caps |-> <<Cap1>>]>>, spec |-> <<>>]
RowSet == {[w |-> 1, s |-> s, f |-> f, c |-> 1, team |-> <<[k |-> 1, n |-> n, c |-> 1]>>] : s \in 0..H, f \in 0..H, n \in 1..2}
Plans == {p \in UNION {[1..n -> RowSet] : n \in 1..N} : \A i \in DOMAIN p : p[i].s <= p[i].f}
Ev(p) == {<<p[i].s, "start", i>> : i \in DOMAIN p} \cup {<<p[i].f, "end", i>> : i \in DOMAIN p}
Init == plan \in Plans /\ events = Ev(plan) /\ pool = Cap1 /\ moment = -1 /\ verdict = "run"
Net(S) == SumOver({e \in S : e[2] = "end"}, LAMBDA e : plan[e[3]].team[1].n)
          - SumOver({e \in S : e[2] = "start"}, LAMBDA e : plan[e[3]].team[1].n)
Class == LET t == SetMin({e[1] : e \in events}) IN {e \in events : e[1] = t}
Sweep == /\ verdict = "run" /\ events # {}
         /\ LET S == IF Mistake = "startsfirst" /\ {e \in Class : e[2] = "start"} # {} THEN {e \in Class : e[2] = "start"}
                     ELSE IF Mistake = "lateclass" THEN Class \cup (LET R == events \ Class IN
                          IF R = {} THEN {} ELSE {CHOOSE e \in R : \A x \in R : e[1] <= x[1]})
                     ELSE Class IN
            /\ pool' = pool + Net(S)
            /\ events' = events \ S
            /\ moment' = SetMax({e[1] : e \in S})
            /\ verdict' = IF pool' < 0 \/ pool' > Cap1 THEN "reject" ELSE "run"
         /\ UNCHANGED plan
Done == verdict = "run" /\ events = {} /\ verdict' = "accept" /\ UNCHANGED <<plan, events, pool, moment>>
Next == Sweep \/ Done
Spec == Init /\ [][Next]_vars
InvSweep == (verdict = "accept" => R_capacity(I, plan)) /\ (verdict = "reject" => ~R_capacity(I, plan))
(* the rule restated over every instant *)
Everywhere == \A t \in 0..H : SumOver({i \in DOMAIN plan : plan[i].s <= t /\ t < plan[i].f}, LAMBDA i : plan[i].team[1].n) <= Cap1
InvRule == R_capacity(I, plan) = Everywhere
=============================================================================
