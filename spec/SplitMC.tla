------------------------------ MODULE SplitMC ------------------------------
(* Dividing the workers of two independent works of a contractor so that both can run at once.
   Mistake: "nocap" the pool of the contractor is ignored, "maxadd" the maximum is added to the minimum, "mins" minima are not checked. *)
EXTENDS Pipeline
CONSTANT Mistake
VARIABLES q1, q2, cap, n1, n2, done
vars == <<q1, q2, cap, n1, n2, done>>
R == {[min |-> a, max |-> b] : a \in 0..2, b \in 1..4} \cap {q \in [min : 0..2, max : 1..4] : q.min <= q.max}
Init == q1 \in R /\ q2 \in R /\ cap \in 1..5 /\ n1 \in 0..4 /\ n2 \in 0..4 /\ done = FALSE
        /\ n1 \in q1.min..Min2(q1.max, cap) /\ n2 \in q2.min..Min2(q2.max, cap)
Total == IF Mistake = "nocap" THEN n1 + n2 ELSE Min2(n1 + n2, cap)
Need == q1.min + q2.min
Split == /\ ~done /\ (Mistake = "mins" \/ Need <= Total)
         /\ LET rest == Total - Need
                a == Min2(IF Mistake = "maxadd" THEN q1.max ELSE q1.max - q1.min, rest \div 2)
                b == Min2(IF Mistake = "maxadd" THEN q2.max ELSE q2.max - q2.min, rest - a) IN
            n1' = q1.min + a /\ n2' = q2.min + b
         /\ done' = TRUE /\ UNCHANGED <<q1, q2, cap>>
Spec == Init /\ [][Split]_vars
InvSplit == done => SplitOK(q1, q2, cap, n1, n2)
=============================================================================
