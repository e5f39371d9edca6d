----------------------------- MODULE InputHistMC -----------------------------
(* What a history says about two works: every pair of intervals over 0..Top, at one or two sites.
   Wrong: the links are read the other way round. *)
EXTENDS Input
CONSTANTS Top, Sites, Wrong
VARIABLES hist
Iv == {x \in (0..Top) \X (0..Top) : x[1] <= x[2]}
Init == hist \in UNION {[1..k -> Iv \X Iv] : k \in 1..Sites}
Next == UNCHANGED hist
Spec == Init /\ [][Next]_hist
Ev(h) == LET R[k \in 0..Len(h)] == IF k = 0 THEN <<>> ELSE R[k - 1] \o Events(h[k][1][1], h[k][1][2], h[k][2][1], h[k][2][2]) IN R[Len(h)]
Flip(h) == [k \in DOMAIN h |-> <<h[k][2], h[k][1]>>]
D(v) == IF Wrong THEN 3 - v.d ELSE v.d
First(h, k, d) == h[k][d]
Second(h, k, d) == h[k][3 - d]
(* the link was respected by every occurrence, if there is one occurrence: the lag is a part of the first work *)
InvRespected == Len(hist) = 1 =>
  LET v == Verdict(Ev(hist))  x == First(hist, 1, D(v))  y == Second(hist, 1, D(v)) IN
  /\ v.t = "FS" => x[2] <= y[1]
  /\ v.t # "FS" => x[1] <= y[1]
  /\ v.t = "FFS" => (x[2] <= y[2] \/ (v.d = 2 /\ y[1] > x[1] /\ y[2] >= x[2]) \/ x[1] < y[1])
  /\ \A l \in v.lags : l[1] >= 0 /\ l[2] > 0
(* the table order matters for ties only *)
InvMirror == LET v == Verdict(Ev(hist))  w == Verdict(Ev(Flip(hist)))
                 N(d) == Cardinality({i \in DOMAIN Ev(hist) : Ev(hist)[i].d = d})
                 Same == \E k \in DOMAIN hist : LET a == hist[k][1]  b == hist[k][2] IN a[1] = b[1] \/ (a[1] = a[2]) \/ (b[1] = b[2]) IN
             (~Same /\ N(1) # N(2)) => (v.d = 3 - w.d)
(* unanimous history *)
InvUnanimous == (\A k \in DOMAIN hist : hist[k][1][2] <= hist[k][2][1] /\ hist[k][1][1] < hist[k][2][2])
                => LET v == Verdict(Ev(hist)) IN D(v) = 1 /\ v.t = "FS" /\ v.lags = {<<0, 1>>}
=============================================================================
