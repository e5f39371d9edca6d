------------------------------ MODULE EvolveMC ------------------------------
(* The search over abstract individuals <<time, goal>>, any offspring.  Mistake = "none" | "comma" (parents are dropped and the
   best of the last population is returned) | "latekept" (late offspring stay in the second stage) | "hofkept" (the best of the
   first stage is not forgotten) | "loose" (the second stage starts although the deadline was missed). *)
EXTENDS Evolve
CONSTANTS D, N, MaxGen, Top, UseDeadline, Mistake
VARIABLES pop, stage, gen, seen, hof, out
vars == <<pop, stage, gen, seen, hof, out>>
Inds == (0..Top) \X (0..Top)
V(st, i) == IF st = 1 /\ UseDeadline THEN i[1] ELSE i[2]
Best(st, S) == CHOOSE x \in S : \A y \in S : V(st, x) <= V(st, y)
Bags(n) == {f \in [1..n -> Inds] : \A i \in 1..(n - 1) : f[i][1] * 10 + f[i][2] <= f[i + 1][1] * 10 + f[i + 1][2]}
RECURSIVE Take(_, _, _)
Take(st, s, n) == IF n = 0 \/ s = <<>> THEN <<>> ELSE
   LET i == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : V(st, s[i]) <= V(st, s[j]) IN
   <<s[i]>> \o Take(st, SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), n - 1)
Init == /\ pop \in Bags(N) /\ stage = 1 /\ gen = 0 /\ seen = Members(pop) /\ hof = Best(1, Members(pop)) /\ out = <<>>
Generation == /\ out = <<>> /\ gen < MaxGen
   /\ \E o \in Bags(N) :
      LET kept == IF stage = 2 /\ Mistake # "latekept" THEN SelectSeq(o, LAMBDA x : x[1] <= D) ELSE o
          all == IF Mistake = "comma" THEN kept ELSE pop \o kept
          nw == Take(stage, all, N) IN
      /\ nw # <<>>
      /\ pop' = nw
      /\ hof' = IF Mistake = "comma" THEN Best(stage, Members(nw)) ELSE Best(stage, Members(nw) \cup {hof})
      /\ seen' = seen \cup Members(kept)
   /\ gen' = gen + 1 /\ UNCHANGED <<stage, out>>
Second == /\ UseDeadline /\ stage = 1 /\ out = <<>> /\ (hof[1] <= D \/ Mistake = "loose")
          /\ LET ok == IF Mistake = "loose" THEN pop ELSE SelectSeq(pop, LAMBDA x : x[1] <= D) IN
             /\ pop' = ok /\ hof' = (IF Mistake = "hofkept" THEN hof ELSE Best(2, Members(ok))) /\ seen' = Members(ok)
          /\ stage' = 2 /\ gen' = 0 /\ UNCHANGED out
Return == /\ out = <<>> /\ (UseDeadline /\ stage = 1 => hof[1] > D)
          /\ out' = <<hof>> /\ UNCHANGED <<pop, stage, gen, seen, hof>>
Spec == Init /\ [][Generation \/ Second \/ Return]_vars
InvBest == out # <<>> => \A x \in seen : V(stage, out[1]) <= V(stage, x)
InvDeadline == (out # <<>> /\ UseDeadline /\ \E x \in seen : x[1] <= D) => out[1][1] <= D
InvMember == hof \in seen
=============================================================================
