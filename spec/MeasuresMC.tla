----------------------------- MODULE MeasuresMC -----------------------------
(* Facts that follow from the measures, on small instances: more people are never slower, peaks are reached at starts, a schedule of rows is
   built row by row and the measures only grow.  Mistake: "talk" everybody waits for everybody: the sign of the cubic term is wrong,
   "closed" a row is busy at its finish too, "events" peaks are looked for at finishes only. *)
EXTENDS Measures
CONSTANTS Mistake, Top
VARIABLES rows, grp
Crews == {<<>>, <<[k |-> 1, n |-> 1, c |-> 1]>>, <<[k |-> 1, n |-> 2, c |-> 3]>>, <<[k |-> 1, n |-> 1, c |-> 1], [k |-> 2, n |-> 2, c |-> 1]>>}
Init == rows = <<>> /\ grp = 1
Add == /\ Len(rows) < 2 + (IF Top > 2 THEN 1 ELSE 0)
       /\ \E s \in 0..Top, d \in 0..2, c \in Crews : rows' = Append(rows, [s |-> s, f |-> s + d, crew |-> c])
       /\ UNCHANGED grp
More == rows = <<>> /\ grp < 8 /\ grp' = grp + 1 /\ UNCHANGED rows
Spec == Init /\ [][Add \/ More]_<<rows, grp>>
T(m, k) == IF Mistake = "talk" THEN -5 * m * m * m + 3 * m * m + (6 * k * k - 1) * m ELSE Talk(m, k)
InvFaster == rows = <<>> => \A m \in grp..8 : grp < m => (grp + 1) * T(grp + 1, m) > grp * T(grp, m) /\ T(grp, m) > 0
InvAlone == \A m \in 1..8 : T(1, m) = 6 * m * m
B(k, t) == IF Mistake = "closed" THEN Sum([i \in DOMAIN rows |-> IF rows[i].s <= t /\ t <= rows[i].f THEN People(rows[i], k) ELSE 0]) ELSE Busy(rows, k, t)
P(k) == LET M == IF Mistake = "events" THEN {rows[i].f : i \in DOMAIN rows} ELSE {rows[i].s : i \in DOMAIN rows} IN IF M = {} THEN 0 ELSE SetMax({B(k, t) : t \in M})
(* the peak is the most people that overlapping rows have at once *)
Overlap(C) == \A i, j \in C : rows[i].s < rows[j].f /\ rows[j].s < rows[i].f
InvPeak == \A k \in {1, 2} : P(k) = SetMax({0} \cup {SumOver(C, LAMBDA i : People(rows[i], k)) : C \in {C \in SUBSET (DOMAIN rows) : C # {} /\ Overlap(C)}})
InvPeakSame == Mistake = "" => \A k \in {1, 2} : P(k) = Peak(rows, k)
InvTotal == \A k \in {1, 2} : Total(rows, {k}) = SumOver(0..(Top + 2), LAMBDA t : B(k, t))
InvSplit == Cost(rows, {1, 2}) = Cost(rows, {1}) + Cost(rows, {2}) /\ PeaksSum(rows, {1, 2}) = PeaksSum(rows, {1}) + PeaksSum(rows, {2})
=============================================================================
