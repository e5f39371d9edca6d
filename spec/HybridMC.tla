------------------------------- MODULE HybridMC -------------------------------
(* All cycles of N schedulers over populations of values 0..Top.  Elitist: a scheduler never loses the best individual.
   Mistake = "none" | "first" (the first individual is returned) | "start" (the second scheduler is given the population of the start)
   | "worst" (the other end of the order is returned) | "early" (one equal look less). *)
EXTENDS Hybrid
CONSTANTS N, K, Top, Size, Elitist, Mistake
VARIABLES s, out, first, looks, lowest      \* lowest: best value ever handed on
vars == <<s, out, first, looks, lowest>>
Id(x) == x
Pops == UNION {[1..n -> 0..Top] : n \in 1..Size}
Init == /\ \E p \in Pops : s = First(p) /\ first = p /\ lowest = Least(p, Id)
        /\ out = <<>> /\ looks = <<>>
Kk == IF Mistake = "early" /\ K > 1 THEN K - 1 ELSE K
DoLook == /\ s.at = 0 /\ ~s.over
          /\ LET t == Look(s, Kk, Id) IN
             /\ s' = t
             /\ looks' = <<Least(s.pop, Id)>> \o SubSeq(looks, 1, Min2(Len(looks), K))
             /\ out' = IF ~t.over THEN <<>>
                       ELSE IF Mistake = "first" THEN <<s.pop[1]>>
                       ELSE IF Mistake = "worst" THEN <<CHOOSE v \in Members(s.pop) : \A i \in DOMAIN s.pop : s.pop[i] <= v>>
                       ELSE <<Least(s.pop, Id)>>
          /\ UNCHANGED <<first, lowest>>
DoHand == /\ s.at > 0
          /\ LET given == IF Mistake = "start" /\ s.at = 2 THEN first ELSE s.pop IN
             \E p \in Pops : /\ (Elitist => Least(p, Id) <= Least(given, Id))
                             /\ s' = Hand(s, N, p) /\ lowest' = Min2(lowest, Least(p, Id))
          /\ UNCHANGED <<out, first, looks>>
Next == DoLook \/ DoHand
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvBest == s.over => (out # <<>> /\ IsBest(out[1], s.pop, Id))
InvNotWorse == (s.over /\ Elitist) => out[1] <= lowest
(* the run ends exactly when the last K + 1 looks agree *)
InvEnd == s.over => (Len(looks) = K + 1 /\ Cardinality(Members(looks)) = 1)
Ends == <>(s.over)
=============================================================================
