------------------------------ MODULE Timeline ------------------------------
(***************************************************************************)
(* The two timelines that schedulers place crews on.                        *)
(*                                                                          *)
(* MOMENTUM keeps, per contractor and worker kind, every reservation          *)
(*   [s, f, team, ind]; a query returns the earliest start not before the     *)
(*   parent time at which the whole crew is free during the whole work.       *)
(* JIT ("just in time") keeps, per contractor and kind, the release time of   *)
(*   each single worker; a query returns the moment at which enough workers   *)
(*   of every kind have been released; only the end of the schedule is used.  *)
(* An independent work holds all workers of its kinds, and in both timelines  *)
(* starts only after everything placed so far on these kinds.                 *)
(*                                                                          *)
(* cap is a function contractor -> kind -> head count.                        *)
(* team is a sequence of [k, n, c] (all of one contractor).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max2(a, b) == IF a >= b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumF(f, D \ {x})

Kinds(team) == {team[i].k : i \in DOMAIN team}
Need(team, k) == SumF([i \in DOMAIN team |-> IF team[i].k = k THEN team[i].n ELSE 0], DOMAIN team)
(* head count of (c,k) held by a reservation *)
Held(cap, r, c, k) ==
   IF r.team = <<>> \/ r.team[1].c # c \/ k \notin Kinds(r.team) THEN 0
   ELSE IF r.ind = 1 THEN cap[c][k] ELSE Need(r.team, k)
UsageAt(cap, R, c, k, t) ==
   SumF([i \in DOMAIN R |-> IF R[i].s <= t /\ t < R[i].f THEN Held(cap, R[i], c, k) ELSE 0], DOMAIN R)

(* ------------------------------------------------------------------ momentum *)
Owner(team) == team[1].c
Touching(R, team) == {i \in DOMAIN R : R[i].team # <<>> /\ R[i].s < R[i].f /\ Owner(R[i].team) = Owner(team)
                                       /\ Kinds(R[i].team) \cap Kinds(team) # {}}
(* the whole crew is free during [st, st+ex) : usage only rises at starts of reservations *)
FreeDuring(cap, R, team, st, ex) ==
   \A k \in Kinds(team) :
     LET T == {st} \cup {R[i].s : i \in {i \in DOMAIN R : st < R[i].s /\ R[i].s < st + ex}} IN
     \A t \in T : UsageAt(cap, R, Owner(team), k, t) + Need(team, k) <= cap[Owner(team)][k]
MomEarliest(cap, R, team, pt, ex, ind) ==
   IF ex = 0 \/ team = <<>> THEN pt
   ELSE LET ends == {R[i].f : i \in Touching(R, team)} IN
        IF ind = 1 THEN MaxOf({pt} \cup ends)
        ELSE LET C == {pt} \cup {e \in ends : e > pt} IN
             MinOf({t \in C : FreeDuring(cap, R, team, t, ex)})
MomCan(cap, R, team, t, ex) == FreeDuring(cap, R, team, t, ex)

(* ----------------------------------------------------------------------- JIT *)
(* bag[c][k] : ascending sequence of the release times of the single workers *)
RECURSIVE InsertN(_, _, _)
InsertN(q, x, n) == IF n = 0 THEN q
   ELSE LET i == Cardinality({j \in DOMAIN q : q[j] <= x}) IN
        InsertN(SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q)), x, n - 1)
JitFind(bag, team, ind) ==
   MaxOf({0} \cup {IF ind = 1 THEN bag[team[i].c][team[i].k][Len(bag[team[i].c][team[i].k])]
                   ELSE bag[team[i].c][team[i].k][team[i].n] :
                   i \in {i \in DOMAIN team : (team[i].n > 0 \/ ind = 1) /\ Len(bag[team[i].c][team[i].k]) > 0}})
JitUpdateKind(q, n, fin, ind) ==
   IF ind = 1 THEN [i \in DOMAIN q |-> fin] ELSE InsertN(SubSeq(q, n + 1, Len(q)), fin, n)
JitUpdate(bag, team, fin, ind) ==
   [c \in DOMAIN bag |-> [k \in DOMAIN bag[c] |->
      IF team # <<>> /\ Owner(team) = c /\ k \in Kinds(team)
      THEN JitUpdateKind(bag[c][k], Need(team, k), fin, ind) ELSE bag[c][k]]]
EmptyBag(cap) == [c \in DOMAIN cap |-> [k \in DOMAIN cap[c] |-> [i \in 1..(IF cap[c][k] > 0 THEN cap[c][k] ELSE 0) |-> 0]]]
=============================================================================
