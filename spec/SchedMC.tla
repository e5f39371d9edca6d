------------------------------ MODULE SchedMC ------------------------------
(***************************************************************************)
(* Exhaustive checking of the Sched machine on every tiny instance.         *)
(* Two real works between the start and the finish service works, one kind  *)
(* of worker, one or two contractors, every kind of edge between the works  *)
(* and every kind of specification.  Place(r) is enabled exactly when all   *)
(* guards of Sched hold; the invariants restate the user-level properties   *)
(* independently (over every instant / every edge / every chain) so that    *)
(* "each guard held at each step" is shown to imply them.                   *)
(* The same set of instances is printed (DumpSpec) and run through the real *)
(* schedulers by the harness.                                               *)
(***************************************************************************)
EXTENDS Sched, Json

CONSTANTS Horizon, Vols, Limits, CapSets, EdgeKinds, SpecKinds, T0s

Req(v, l) == [k |-> 1, vol |-> v, min |-> l[1], max |-> l[2]]
Svc(id) == [id |-> id, svc |-> 1, reqs |-> <<>>, vol |-> 0, prio |-> 1, chain |-> 0]
Wk(id, q, ch) == [id |-> id, svc |-> 0, reqs |-> <<q>>, vol |-> q.vol, prio |-> 1, chain |-> ch]
Edge(p, c, lag, t) == [p |-> p, c |-> c, lag |-> lag, t |-> t]
Free == [contractors |-> <<>>, workers |-> <<-1>>, time |-> -1, indep |-> 0]
SpecOf(k, ncon) ==
   CASE k = "none" -> Free
     [] k = "contractor" -> [Free EXCEPT !.contractors = <<ncon>>]
     [] k = "crew" -> [Free EXCEPT !.workers = <<1>>]
     [] k = "time" -> [Free EXCEPT !.time = 2]
     [] k = "indep" -> [Free EXCEPT !.indep = 1]
MkInst(v1, v2, l1, l2, caps, ek, sk, t0) ==
   LET ch == IF ek = "IFS" THEN 1 ELSE 0
       q1 == Req(v1, l1)
       q2 == IF ch = 1 THEN Req(v2, l1) ELSE Req(v2, l2)
       mid == CASE ek = "none" -> <<>>
                [] ek = "FS0" -> <<Edge(2, 3, 0, "FS")>>
                [] ek = "FS1" -> <<Edge(2, 3, 1, "FS")>>
                [] ek = "IFS" -> <<Edge(2, 3, 0, "IFS")>>
       ends == <<Edge(1, 2, 0, "FS")>>
               \o (IF ek = "none" THEN <<Edge(1, 3, 0, "FS"), Edge(2, 4, 0, "FS")>> ELSE <<>>)
               \o <<Edge(3, 4, 0, "FS")>> IN
   [kinds |-> <<"driver">>,
    works |-> <<Svc("start"), Wk("wa", q1, 0), Wk("wb", q2, ch), Svc("zfinish")>>,
    edges |-> mid \o ends,
    contractors |-> [c \in DOMAIN caps |-> [caps |-> <<caps[c]>>]],
    t0 |-> t0,
    spec |-> <<Free, SpecOf(sk, Len(caps)), Free, Free>>]
(* a contractor that can do everything, also under the specification *)
CanAll(I) == \A w \in {2, 3} : \E c \in DOMAIN I.contractors :
      /\ I.contractors[c].caps[1] >= SetMax({I.works[w].reqs[1].min, 1})
      /\ LET s == I.spec[Head_(I, w)] IN
         /\ s.contractors # <<>> => c \in Members(s.contractors)
         /\ s.workers[1] >= 0 => /\ s.workers[1] <= I.contractors[c].caps[1]
                                 /\ s.workers[1] >= I.works[w].reqs[1].min
                                 /\ s.workers[1] <= I.works[w].reqs[1].max
Instances == {I \in {MkInst(v1, v2, l1, l2, caps, ek, sk, t0) :
                       v1 \in Vols, v2 \in Vols, l1 \in Limits, l2 \in Limits, caps \in CapSets,
                       ek \in EdgeKinds, sk \in SpecKinds, t0 \in T0s} : CanAll(I)}

LimitsQ == {<<1, 2>>, <<2, 2>>}
CapsQ == {<<2>>, <<1, 2>>}
LimitsT == {<<0, 1>>, <<1, 2>>, <<2, 2>>, <<1, 3>>}
CapsT == {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 2>>}

VARIABLES I, P
vars == <<I, P>>
Init == I \in Instances /\ P = <<>>
Team(w, c, n) == IF I.works[w].reqs = <<>> THEN <<>> ELSE <<[k |-> 1, n |-> n, c |-> c]>>
Durations(w, n) ==
   IF I.works[w].reqs = <<>> THEN {0}
   ELSE IF I.spec[Head_(I, w)].time >= 0 THEN 0..I.spec[Head_(I, w)].time
   ELSE ReqDurations(I.works[w].reqs[1], n) \ {INF}
GuardsOff == {"startlast"}
Place(w, c, n, s, d) ==
   LET r == [w |-> w, s |-> s, f |-> s + d, c |-> c, team |-> Team(w, c, n)] IN
   /\ FailedGuards(GuardNames, I, P, r) = {}
   /\ w = 1 => s = I.t0
   /\ P' = Append(P, r)
Ready == {w \in Works(I) : ~IsPlaced(P, w) /\ \A i \in Preds(I, w) : IsPlaced(P, I.edges[i].p)}
Counts(w) == IF I.works[w].reqs = <<>> THEN {0} ELSE I.works[w].reqs[1].min..I.works[w].reqs[1].max
Cons(w) == IF I.works[w].reqs = <<>> THEN {1} ELSE DOMAIN I.contractors
(* the guards discard every other crew and every other work anyway (InvLimits, InvPrefix check it on wider choices) *)
Next == /\ \E w \in Ready : \E c \in Cons(w), n \in Counts(w), s \in I.t0..Horizon :
             \E d \in Durations(w, n) : Place(w, c, n, s, d)
        /\ UNCHANGED I
WideNext == /\ \E w \in Works(I), c \in DOMAIN I.contractors, n \in 0..3, s \in 0..Horizon :
                 \E d \in Durations(w, n) : Place(w, c, n, s, d)
            /\ UNCHANGED I
WideSpec == Init /\ [][WideNext]_vars
Spec == Init /\ [][Next]_vars
SymP == <<I, {P[i] : i \in DOMAIN P}>>       \* the order of placing is irrelevant to the invariants

Complete == \A w \in Works(I) : IsPlaced(P, w)
(* ------------------------------------------------------------------ invariants (stated over instants, edges, chains) *)
InvOnce == \A w \in Works(I) : Cardinality(Rows(P, w)) <= 1
InvCapacityAlways == \A c \in DOMAIN I.contractors, t \in 0..(Horizon + 6) :
      Usage(P, c, 1, t) <= Cap(I, c, 1)
InvPrecedence == \A i \in DOMAIN I.edges :
      IsPlaced(P, I.edges[i].c) => /\ IsPlaced(P, I.edges[i].p)
                                   /\ RowOf(P, I.edges[i].c).s >= RowOf(P, I.edges[i].p).f + I.edges[i].lag
InvPrefix == \A w \in Works(I) : IsPlaced(P, w) => \A i \in Preds(I, w) : IsPlaced(P, I.edges[i].p)
InvChain == \A w \in Works(I) : (IsHeadless(I, w) /\ IsPlaced(P, w)) =>
      /\ RowOf(P, w).c = RowOf(P, ChainParent(I, w)).c
      /\ CrewN(RowOf(P, w), 1) = CrewN(RowOf(P, ChainParent(I, w)), 1)
      /\ RowOf(P, w).s = RowOf(P, ChainParent(I, w)).f      \* no other predecessors in these instances
InvLimits == \A i \in DOMAIN P : \A j \in DOMAIN I.works[P[i].w].reqs :
      LET q == I.works[P[i].w].reqs[j] IN CrewN(P[i], 1) \in q.min..q.max
InvSpec == \A i \in DOMAIN P : LET s == I.spec[Head_(I, P[i].w)] IN
      /\ (s.contractors # <<>> /\ P[i].team # <<>>) => P[i].c \in Members(s.contractors)
      /\ (s.workers[1] >= 0 /\ I.works[P[i].w].reqs # <<>>) => CrewN(P[i], 1) = s.workers[1]
      /\ s.indep = 1 => \A t \in P[i].s..(P[i].f - 1) : \A j \in DOMAIN P :
            (Head_(I, P[j].w) # Head_(I, P[i].w) /\ P[j].s <= t /\ t < P[j].f /\ P[i].team # <<>>) =>
               (TeamCount(P[j], P[i].c, 1) = 0 \/ CrewN(P[i], 1) = 0)
InvT0 == \A i \in DOMAIN P : P[i].s >= I.t0
InvFinish == Complete => \A i \in DOMAIN P : P[i].f <= RowOf(P, Len(I.works)).s
(* a chain whose stages follow each other holds its crew *)
InvHold == Complete => C_chainhold(I, P)
(* the machine never gets stuck before the horizon: some placement is always possible *)
LastEnd == SetMax({0} \cup {P[i].f : i \in DOMAIN P})
InvProgress == (~Complete /\ LastEnd + 3 <= Horizon) => ENABLED Next
DumpInit == I \in Instances /\ P = <<>>
DumpSpec == DumpInit /\ [][FALSE]_vars
DumpInv == PrintT(<<"INST", ToJson(I)>>)
=============================================================================
