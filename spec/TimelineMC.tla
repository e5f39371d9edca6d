----------------------------- MODULE TimelineMC -----------------------------
(* Exhaustive / simulated runs of both timelines side by side: the same works are placed on each. *)
EXTENDS Timeline, Json
CONSTANTS Caps, MaxEx, MaxPt, Depth, Inds
VARIABLES cap, R, J, bag, hist
vars == <<cap, R, J, bag, hist>>
C1 == {<<<<2>>>>}
C2 == {<<<<2, 1>>>>, <<<<3>>>>, <<<<2, 2>>, <<1, 2>>>>}
C3 == {<<<<2, 3>>>>, <<<<3>>, <<2>>>>, <<<<2, 2>>, <<3, 1>>>>, <<<<4>>>>, <<<<1, 1>>>>, <<<<3, 3>>>>}
Init == /\ cap \in Caps /\ R = <<>> /\ J = <<>> /\ bag = EmptyBag(cap) /\ hist = <<>>
Teams == UNION {{<<[k |-> k, n |-> n, c |-> c]>> : k \in DOMAIN cap[c], n \in 1..MaxOf({cap[c][k] : k \in DOMAIN cap[c]})} : c \in DOMAIN cap}
         \cup UNION {{<<[k |-> k1, n |-> n1, c |-> c], [k |-> k2, n |-> n2, c |-> c]>> :
                  k1 \in DOMAIN cap[c], k2 \in DOMAIN cap[c], n1 \in 1..2, n2 \in 1..2} : c \in DOMAIN cap}
OkTeam(tm) == /\ \A i \in DOMAIN tm : tm[i].n <= cap[tm[i].c][tm[i].k]
              /\ Cardinality(Kinds(tm)) = Len(tm)
Place(tm, pt, ex, ind) ==
   LET st == MomEarliest(cap, R, tm, pt, ex, ind)
       js == Max2(pt, JitFind(bag, tm, ind)) IN
   /\ R' = IF ex = 0 THEN R ELSE Append(R, [s |-> st, f |-> st + ex, team |-> tm, ind |-> ind])
   /\ J' = Append(J, [s |-> js, f |-> js + ex, team |-> tm, ind |-> ind])
   /\ bag' = JitUpdate(bag, tm, js + ex, ind)
   /\ hist' = Append(hist, [team |-> tm, pt |-> pt, ex |-> ex, ind |-> ind, mom |-> st, jit |-> JitFind(bag, tm, ind), js |-> js])
   /\ UNCHANGED cap
Next == /\ Len(hist) < Depth
        /\ \E tm \in {x \in Teams : OkTeam(x)}, pt \in 0..MaxPt, ex \in 0..MaxEx, ind \in Inds : Place(tm, pt, ex, ind)
SimNext == /\ Len(hist) < Depth
           /\ LET tm == RandomElement({x \in Teams : OkTeam(x)}) IN
              Place(tm, RandomElement(0..MaxPt), RandomElement(0..MaxEx), IF RandomElement(1..6) = 1 THEN 1 ELSE 0)
SimSpec == Init /\ [][SimNext]_vars
Spec == Init /\ [][Next]_vars
View == <<cap, {R[i] : i \in DOMAIN R}, {J[i] : i \in DOMAIN J}, bag, Len(hist)>>
Ends == {0} \cup {R[i].f : i \in DOMAIN R} \cup {J[i].f : i \in DOMAIN J}
InvMomCapacity == \A c \in DOMAIN cap : \A k \in DOMAIN cap[c] : \A t \in 0..MaxOf(Ends) : UsageAt(cap, R, c, k, t) <= cap[c][k]
InvJitCapacity == \A c \in DOMAIN cap : \A k \in DOMAIN cap[c] : \A t \in 0..MaxOf(Ends) : UsageAt(cap, J, c, k, t) <= cap[c][k]
(* no earlier start than the one returned would have done *)
InvMomEarliest == \A i \in DOMAIN hist : LET h == hist[i] IN
   (h.ex > 0 /\ h.ind = 0 /\ i = Len(hist)) =>
      \A t \in h.pt..(h.mom - 1) : ~FreeDuring(cap, SubSeq(R, 1, Len(R) - 1), h.team, t, h.ex)
InvBag == \A c \in DOMAIN cap : \A k \in DOMAIN cap[c] :
   /\ Len(bag[c][k]) = cap[c][k]
   /\ \A i \in 1..(Len(bag[c][k]) - 1) : bag[c][k][i] <= bag[c][k][i + 1]
(* the crew a JIT query waits for is really free from then on *)
InvJitSound == \A tm \in {x \in Teams : OkTeam(x)} : FreeDuring(cap, J, tm, JitFind(bag, tm, 0), MaxOf(Ends) + 1)
Dump == Len(hist) = Depth => PrintT(<<"BEH", ToJson([cap |-> cap, hist |-> hist])>>)
=============================================================================
