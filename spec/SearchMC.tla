------------------------------ MODULE SearchMC ------------------------------
(* Dividing an interval, for all functions with one minimum and values 1..Vals.  Mistake: "left" the minimum is looked for on the wrong side when
   values are equal or greater, "wide" the search stops at three candidates and takes the first, "cut" the right part is cut too far. *)
EXTENDS Search
CONSTANTS Mistake, Vals
VARIABLES f, lo, hi, done
Asc(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
Desc(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y > x}) = i - 1]
\* every function that falls to a minimum and then grows, whatever its length
Init == /\ \E m \in 1..Vals : \E a, b \in SUBSET ((m + 1)..Vals) : f = TLCEval(Desc(a) \o <<m>> \o Asc(b))
        /\ lo = 1 /\ hi = Len(f) /\ done = 0
Step == /\ done = 0
        /\ IF hi - lo > (IF Mistake = "wide" THEN 4 ELSE 2)
           THEN LET x1 == (lo + hi - 1) \div 2  x2 == (lo + hi + 1) \div 2
                    right == IF Mistake = "left" THEN f[x1] > f[x2] ELSE f[x1] < f[x2] IN
                /\ IF right THEN hi' = (IF Mistake = "cut" THEN x1 - 1 ELSE x2) /\ lo' = lo ELSE lo' = x1 /\ hi' = hi
                /\ done' = 0
           ELSE done' = (IF Mistake = "wide" THEN lo ELSE (lo + hi) \div 2) /\ UNCHANGED <<lo, hi>>
        /\ UNCHANGED f
Spec == Init /\ [][Step]_<<f, lo, hi, done>> /\ WF_<<f, lo, hi, done>>(Step)
InvFound == done # 0 => Found(f, done)
InvKept == Mistake = "" => ArgMin(f) \in lo..hi
Ends == <>(done # 0)
=============================================================================
