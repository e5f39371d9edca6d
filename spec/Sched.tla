------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* The abstract machine that every SAMPO scheduler implements: works of a   *)
(* project are placed one after another on the crews of contractors.        *)
(*                                                                          *)
(* An instance I (see harness/gen.py) has                                   *)
(*   I.works        sequence of [svc, reqs: seq of [k,vol,min,max], prio]    *)
(*   I.edges        sequence of [p, c, lag, t]   t \in {"FS","IFS","FFS"}    *)
(*   I.contractors  sequence of [caps: seq of Int]   (-1: no such crew)      *)
(*   I.t0           the project start handed to the scheduler               *)
(*   I.spec         sequence of [contractors, workers, time, indep]          *)
(* A row r places one work: [w, s, f, c, team: seq of [k, n, c]].            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n - 1)
Sum(f) == SumSeq(f, Len(f))
RECURSIVE SumFun(_, _)
SumFun(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumFun(f, D \ {x})
SumOver(D, Op(_)) == SumFun([x \in D |-> Op(x)], D)
Ceil(a, b) == IF a <= 0 THEN 0 ELSE (a + b - 1) \div b
INF == 100000000

Works(I) == 1..Len(I.works)
Preds(I, w) == {i \in DOMAIN I.edges : I.edges[i].c = w}          \* incoming edge numbers
IsHeadless(I, w) == \E i \in Preds(I, w) : I.edges[i].t = "IFS"
ChainParent(I, w) == I.edges[CHOOSE i \in Preds(I, w) : I.edges[i].t = "IFS"].p
RECURSIVE Head_(_, _)
Head_(I, w) == IF IsHeadless(I, w) THEN Head_(I, ChainParent(I, w)) ELSE w
ChainOf(I, h) == {w \in Works(I) : Head_(I, w) = h}

Rows(P, w) == {i \in DOMAIN P : P[i].w = w}
IsPlaced(P, w) == Rows(P, w) # {}
RowOf(P, w) == P[CHOOSE i \in Rows(P, w) : TRUE]

(* head count of kind k of contractor c bound at instant t by the rows P *)
TeamCount(r, c, k) == SumOver({j \in DOMAIN r.team : r.team[j].k = k /\ r.team[j].c = c}, LAMBDA j : r.team[j].n)
Usage(P, c, k, t) == SumOver({i \in DOMAIN P : P[i].s <= t /\ t < P[i].f}, LAMBDA i : TeamCount(P[i], c, k))

Cap(I, c, k) == IF c \in DOMAIN I.contractors /\ k \in DOMAIN I.contractors[c].caps
                THEN I.contractors[c].caps[k] ELSE -1

(* ---------------------------------------------------------------- durations *)
(* crew productivity with n of at most m people: n * cc(n,m), cc rational     *)
CommNum(n, m) == n * (-2 * n * n * n + 3 * n * n + (6 * m * m - 1) * n)
CommDen(m) == 6 * m * m
ReqOf(I, w, k) == {j \in DOMAIN I.works[w].reqs : I.works[w].reqs[j].k = k}
CrewN(r, k) == SumOver({j \in DOMAIN r.team : r.team[j].k = k}, LAMBDA j : r.team[j].n)
(* exact working time of one requirement as a pair <<num, den>> (vol / productivity) *)
ReqTime(q, n) == <<q.vol * CommDen(q.max), CommNum(n, q.max)>>
(* admissible durations: the code computes in binary floating point, so an exact integral quotient may round up *)
ReqDurations(q, n) ==
   IF q.min = 0 THEN {0}
   ELSE IF n < q.min \/ CommNum(n, q.max) <= 0 THEN {INF}
   ELSE LET t == ReqTime(q, n) IN
        IF t[1] % t[2] = 0 /\ t[2] # CommDen(q.max) THEN {t[1] \div t[2], t[1] \div t[2] + 1} ELSE {Ceil(t[1], t[2])}
(* a simpler estimator handed to the schedulers by the harness: the machine must use the estimator it is given *)
LinDuration(I, r) ==
   LET qs == I.works[r.w].reqs IN
   IF r.team = <<>> \/ qs = <<>> THEN 0
   ELSE 1 + SetMax({0} \cup {Ceil(qs[j].vol, SetMax({1, CrewN(r, qs[j].k)})) : j \in {j \in DOMAIN qs : qs[j].min > 0}})
Linear(I) == "est" \in DOMAIN I /\ I.est = "linear"
DurationOK(I, r) ==
   LET qs == I.works[r.w].reqs
       d == r.f - r.s IN
   IF Linear(I) THEN d = LinDuration(I, r)
   ELSE IF r.team = <<>> \/ qs = <<>> THEN d = 0
   ELSE /\ \A j \in DOMAIN qs : \E x \in ReqDurations(qs[j], CrewN(r, qs[j].k)) : x <= d
        /\ d = 0 \/ \E j \in DOMAIN qs : d \in ReqDurations(qs[j], CrewN(r, qs[j].k))

(* ------------------------------------------------------- guards of Place(r) *)
(* Each guard has a name: the trace verdict names the guards that fail.       *)
G_known(I, P, r) == r.w \in Works(I)
G_once(I, P, r) == ~IsPlaced(P, r.w)
G_t0(I, P, r) == r.s >= I.t0
G_span(I, P, r) == r.s <= r.f /\ r.f < INF
G_predplaced(I, P, r) == \A i \in Preds(I, r.w) : IsPlaced(P, I.edges[i].p)
G_precedence(I, P, r) == \A i \in Preds(I, r.w) :
      IsPlaced(P, I.edges[i].p) => r.s >= RowOf(P, I.edges[i].p).f + I.edges[i].lag
G_service(I, P, r) == I.works[r.w].reqs = <<>> => r.s = r.f
G_onecontractor(I, P, r) == \A j \in DOMAIN r.team : r.team[j].c = r.c /\ r.c \in DOMAIN I.contractors
G_crewexists(I, P, r) == \A j \in DOMAIN r.team : Cap(I, r.team[j].c, r.team[j].k) >= r.team[j].n
(* a crew for every requirement (a requirement for nobody may stay unmanned), within its limits, and nobody else *)
G_crewlimits(I, P, r) ==
   /\ \A j \in DOMAIN I.works[r.w].reqs :
        LET q == I.works[r.w].reqs[j] IN q.min <= CrewN(r, q.k) /\ CrewN(r, q.k) <= q.max
   /\ \A j \in DOMAIN r.team : r.team[j].n > 0 => ReqOf(I, r.w, r.team[j].k) # {}
   /\ \A j \in DOMAIN r.team : r.team[j].n >= 0
G_capacity(I, P, r) ==
   LET Q == Append(P, r)
       T == {r.s} \cup {P[i].s : i \in {i \in DOMAIN P : r.s <= P[i].s /\ P[i].s < r.f}} IN
   r.s < r.f => \A j \in DOMAIN r.team : \A t \in T :
        Usage(Q, r.team[j].c, r.team[j].k, t) <= Cap(I, r.team[j].c, r.team[j].k)
G_duration(I, P, r) == I.spec[Head_(I, r.w)].time < 0 => DurationOK(I, r)
(* specification of the work (only heads of chains carry one) *)
WSpec(I, w) == I.spec[Head_(I, w)]
Members(s) == {s[i] : i \in DOMAIN s}
G_speccontractor(I, P, r) ==
   (WSpec(I, r.w).contractors # <<>> /\ (r.team # <<>> \/ r.c # 0)) => r.c \in Members(WSpec(I, r.w).contractors)
G_speccrew(I, P, r) == \A k \in DOMAIN WSpec(I, r.w).workers :
      (WSpec(I, r.w).workers[k] >= 0 /\ ReqOf(I, r.w, k) # {}) => CrewN(r, k) = WSpec(I, r.w).workers[k]
(* inseparable chains: one crew, one contractor; a stage starts when its predecessor stage ends, unless another
   predecessor of the stage holds it back *)
SameTeam(a, b) == /\ \A i \in DOMAIN a.team : CrewN(b, a.team[i].k) = CrewN(a, a.team[i].k)
                  /\ \A i \in DOMAIN b.team : CrewN(b, b.team[i].k) = CrewN(a, b.team[i].k)
G_chaincrew(I, P, r) == (IsHeadless(I, r.w) /\ IsPlaced(P, ChainParent(I, r.w))) =>
      LET q == RowOf(P, ChainParent(I, r.w)) IN q.c = r.c /\ SameTeam(q, r)
OtherPreds(I, w) == {i \in Preds(I, w) : Head_(I, I.edges[i].p) # Head_(I, w)}
G_chaingap(I, P, r) == (IsHeadless(I, r.w) /\ IsPlaced(P, ChainParent(I, r.w))) =>
      LET q == RowOf(P, ChainParent(I, r.w)) IN
      r.s = q.f \/ (r.s > q.f /\ OtherPreds(I, r.w) # {})

(* an independent work shares its kinds of workers (of its contractor) with nobody while it is running *)
Overlap(a, b) == a.s < b.f /\ b.s < a.f /\ a.s < a.f /\ b.s < b.f
ShareKind(a, b) == \E i \in DOMAIN a.team : a.team[i].n > 0 /\ TeamCount(b, a.team[i].c, a.team[i].k) > 0
G_independent(I, P, r) == \A i \in DOMAIN P :
      (/\ Head_(I, P[i].w) # Head_(I, r.w) /\ (WSpec(I, r.w).indep = 1 \/ WSpec(I, P[i].w).indep = 1)
       /\ Overlap(P[i], r)) => ~ShareKind(r, P[i])

(* precedence restricted to the edges that touch an inseparable chain *)
InChain(I, w) == Cardinality(ChainOf(I, Head_(I, w))) > 1
G_chainprec(I, P, r) == \A i \in Preds(I, r.w) :
      (IsPlaced(P, I.edges[i].p) /\ (InChain(I, r.w) \/ InChain(I, I.edges[i].p))) =>
         r.s >= RowOf(P, I.edges[i].p).f + I.edges[i].lag

GuardNames == {"chainprec", "independent", "known", "once", "t0", "span", "predplaced", "precedence", "service", "onecontractor", "crewexists",
               "crewlimits", "capacity", "duration", "speccontractor", "speccrew", "chaincrew", "chaingap"}
Guard(g, I, P, r) ==
   CASE g = "chainprec" -> G_chainprec(I, P, r)
     [] g = "independent" -> G_independent(I, P, r)
     [] g = "known" -> G_known(I, P, r)
     [] g = "once" -> G_once(I, P, r)
     [] g = "t0" -> G_t0(I, P, r)
     [] g = "span" -> G_span(I, P, r)
     [] g = "predplaced" -> G_predplaced(I, P, r)
     [] g = "precedence" -> G_precedence(I, P, r)
     [] g = "service" -> G_service(I, P, r)
     [] g = "onecontractor" -> G_onecontractor(I, P, r)
     [] g = "crewexists" -> G_crewexists(I, P, r)
     [] g = "crewlimits" -> G_crewlimits(I, P, r)
     [] g = "capacity" -> G_capacity(I, P, r)
     [] g = "duration" -> G_duration(I, P, r)
     [] g = "speccontractor" -> G_speccontractor(I, P, r)
     [] g = "speccrew" -> G_speccrew(I, P, r)
     [] g = "chaincrew" -> G_chaincrew(I, P, r)
     [] g = "chaingap" -> G_chaingap(I, P, r)
FailedGuards(names, I, P, r) == IF ~G_known(I, P, r) THEN {"known"} ELSE {g \in names \cap GuardNames : ~Guard(g, I, P, r)}

(* --------------------------------------------------- clauses of a finished run *)
C_complete(I, P) == \A w \in Works(I) : Cardinality(Rows(P, w)) = 1
C_startatt0(I, P) == IsPlaced(P, 1) => RowOf(P, 1).s = I.t0 /\ RowOf(P, 1).f = I.t0
C_finishlast(I, P) == IsPlaced(P, Len(I.works)) => \A i \in DOMAIN P : P[i].f <= RowOf(P, Len(I.works)).s
(* working time of a whole chain: what the estimator predicts / what the specification of the work assigns *)
ChainTime(I, P, h) == SumOver(ChainOf(I, h), LAMBDA w : RowOf(P, w).f - RowOf(P, w).s)
DurLow(I, r) == LET qs == I.works[r.w].reqs IN
   IF Linear(I) THEN LinDuration(I, r) ELSE IF r.team = <<>> \/ qs = <<>> THEN 0
   ELSE SetMax({0} \cup {SetMin(ReqDurations(qs[j], CrewN(r, qs[j].k))) : j \in DOMAIN qs})
DurHigh(I, r) == LET qs == I.works[r.w].reqs IN
   IF Linear(I) THEN LinDuration(I, r) ELSE IF r.team = <<>> \/ qs = <<>> THEN 0
   ELSE SetMax({0} \cup {SetMax(ReqDurations(qs[j], CrewN(r, qs[j].k))) : j \in DOMAIN qs})
C_spectime(I, P) == C_complete(I, P) => \A h \in {w \in Works(I) : ~IsHeadless(I, w)} :
   I.spec[h].time >= 0 => ChainTime(I, P, h) = I.spec[h].time
C_chaintime(I, P) == C_complete(I, P) => \A h \in {w \in Works(I) : ~IsHeadless(I, w)} :
   LET d == ChainTime(I, P, h) IN
   IF I.spec[h].time >= 0 THEN d = I.spec[h].time
   ELSE /\ SumOver(ChainOf(I, h), LAMBDA w : DurLow(I, RowOf(P, w))) <= d
        /\ d <= SumOver(ChainOf(I, h), LAMBDA w : DurHigh(I, RowOf(P, w)))
(* the crew of an inseparable chain is nobody else's between the start of its first and the end of its last stage *)
ChainRow(I, P, h) == LET C == ChainOf(I, h) IN
   [w |-> h, s |-> SetMin({RowOf(P, w).s : w \in C}), f |-> SetMax({RowOf(P, w).f : w \in C}), c |-> RowOf(P, h).c,
    team |-> RowOf(P, h).team]
C_chainhold(I, P) ==
   C_complete(I, P) =>
   LET hs == {w \in Works(I) : ~IsHeadless(I, w)}
       Q == [h \in hs |-> ChainRow(I, P, h)] IN
   \A h \in hs : \A j \in DOMAIN Q[h].team : Q[h].s < Q[h].f =>
       SumOver({g \in hs : Q[g].s <= Q[h].s /\ Q[h].s < Q[g].f},
               LAMBDA g : TeamCount(Q[g], Q[h].team[j].c, Q[h].team[j].k))
       <= Cap(I, Q[h].team[j].c, Q[h].team[j].k)
=============================================================================
