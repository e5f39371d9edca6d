----------------------------- MODULE DeadlineMC -----------------------------
(* The deadline search: less people for greater k, the time grows with k.  First the least crews are tried (k = Size), then k is bisected between
   1 and Size, and the attempt that is closest to the deadline without missing it is taken.  Time is any non-decreasing function of k.
   Mistake: "full" the fullest crews are never tried, "side" the bisection goes to the wrong side, "last" the last attempt is taken. *)
EXTENDS Search
CONSTANTS Mistake, Size, Vals
VARIABLES time, deadline, lo, hi, good, last, res
vars == <<time, deadline, lo, hi, good, last, res>>
Init == /\ time \in {g \in [1..Size -> 1..Vals] : \A i \in 1..(Size - 1) : g[i] <= g[i + 1]} /\ deadline \in 1..Vals
        /\ lo = 1 /\ hi = Size /\ good = 0 /\ last = 0 /\ res = 0
Least == /\ res = 0 /\ last = 0 /\ time[Size] < deadline /\ res' = Size /\ UNCHANGED <<time, deadline, lo, hi, good, last>>
Bisect == /\ res = 0 /\ hi - lo > 1 /\ ~(last = 0 /\ time[Size] < deadline)
          /\ LET m == (lo + hi) \div 2 IN
             /\ last' = m
             /\ IF (time[m] > deadline) # (Mistake = "side") THEN hi' = m /\ lo' = lo ELSE lo' = m /\ hi' = hi
             /\ good' = (IF time[m] <= deadline /\ (good = 0 \/ time[m] >= time[good]) THEN m ELSE good)
          /\ UNCHANGED <<time, deadline, res>>
Take == /\ res = 0 /\ hi - lo <= 1 /\ ~(last = 0 /\ time[Size] < deadline)
        /\ res' = (CASE Mistake = "last" -> Max2(last, 1)
                     [] Mistake = "full" -> IF good # 0 THEN good ELSE 2
                     [] OTHER -> IF good # 0 THEN good ELSE 1)
        /\ UNCHANGED <<time, deadline, lo, hi, good, last>>
Spec == Init /\ [][Least \/ Bisect \/ Take]_vars
InvKept == res # 0 /\ (\E k \in 1..Size : time[k] <= deadline) => time[res] <= deadline
(* no fewer people would do, up to the least crews which are tried first *)
InvThrifty == res # 0 => \A k \in 1..(Size - 1) : time[k] <= deadline => k <= res
=============================================================================
