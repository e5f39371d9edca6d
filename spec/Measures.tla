------------------------------ MODULE Measures ------------------------------
(* What a crew needs for a work, and what a schedule uses.
   A row is [s, f, crew: sequence of [k: kind, n, c: cost of one]]; productivities and costs are in hundredths. *)
EXTENDS Util
(* ---- time of a work: q = [k, vol, lo, hi]; n people of one kind do n * Talk(n, hi) / (6 hi^2) * productivity in a unit of time *)
Talk(n, m) == -2 * n * n * n + 3 * n * n + (6 * m * m - 1) * n
Work(n, m, p) == n * Talk(n, m) * p                       \* times 600 m^2
Exact(q, n, p) == (q.vol * 600 * q.hi * q.hi) % Work(n, q.hi, p) = 0
Need(q, n, p) == Ceil(q.vol * 600 * q.hi * q.hi, Work(n, q.hi, p))
(* the time is known up to the rounding of a quotient that is a whole number *)
Needs(q, n, p) == IF Exact(q, n, p) /\ q.vol > 0 THEN {Need(q, n, p), Need(q, n, p) + 1} ELSE {Need(q, n, p)}
Asked(reqs) == {i \in DOMAIN reqs : reqs[i].lo > 0}
Abs(x) == IF x < 0 THEN -x ELSE x
(* ---- use of a schedule *)
People(row, k) == Sum([i \in DOMAIN row.crew |-> IF row.crew[i].k = k THEN row.crew[i].n ELSE 0])
Busy(rows, k, t) == Sum([i \in DOMAIN rows |-> IF rows[i].s <= t /\ t < rows[i].f THEN People(rows[i], k) ELSE 0])
Moments(rows) == {rows[i].s : i \in DOMAIN rows} \cup {rows[i].f : i \in DOMAIN rows}
Peak(rows, k) == LET T == Moments(rows) IN IF T = {} THEN 0 ELSE SetMax({Busy(rows, k, t) : t \in T})
Used(rows, K) == UNION {{rows[i].crew[j].k : j \in DOMAIN rows[i].crew} : i \in DOMAIN rows} \cap K
PeaksSum(rows, K) == SumOver(Used(rows, K), LAMBDA k : Peak(rows, k))
Total(rows, K) == Sum([i \in DOMAIN rows |-> (rows[i].f - rows[i].s) *
                       Sum([j \in DOMAIN rows[i].crew |-> IF rows[i].crew[j].k \in K THEN rows[i].crew[j].n ELSE 0])])
Cost(rows, K) == Sum([i \in DOMAIN rows |-> (rows[i].f - rows[i].s) *
                      Sum([j \in DOMAIN rows[i].crew |-> IF rows[i].crew[j].k \in K THEN rows[i].crew[j].n * rows[i].crew[j].c ELSE 0])])
(* a goal is multiplied by the part of the time that is used when the deadline is missed *)
Late(x, time, deadline) == <<x * Max2(deadline, time), deadline>>
=============================================================================
