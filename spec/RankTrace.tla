------------------------------ MODULE RankTrace ------------------------------
(* Orders, ranks and paths recorded from the code. A trace:
   works: seq of [reqs: seq of [k, vol, min, max], prio]; e: seq of [p, c, t]; caps: seq (contractor) of seq (kind) (-1: none);
   spec: seq (work) of [contractors: seq, workers: seq (kind) of amount or -1];
   heads: seq; par, ch: seq (by position in heads) of seq of heads; rank2: seq (by position) of twice the rank;
   heft, topo, lft, rlft: seq of heads; d: seq (by position) durations given to the rules; lf, ls: seq (by position) computed times;
   cp: path of heads; dur: seq (work) of scheduled durations; cps: path of heads; pcp: project path (works);
   prio2: seq (work) corrected priorities; prio1: given ones;
   run: [order: seq of heads, con: seq (by position in heads) of contractor, team: seq (by position) of seq (kind) of counts] or order <<>>;
   hrun: node order returned by the HEFT scheduler; err *)
EXTENDS Rank, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
Wk == Tr.works
NW == Len(Wk)
E == Tr.e
Hs == Tr.heads
P(h) == Idx(Hs, h)
RECURSIVE LastIn(_)
LastIn(i) == IF \E j \in DOMAIN E : E[j].p = i /\ E[j].t = "IFS" THEN LET j == CHOOSE j \in DOMAIN E : E[j].p = i /\ E[j].t = "IFS" IN LastIn(E[j].c) ELSE i
Check ==      \* everything is one LET, so that TLC computes each value once per trace
LET
wk == Wk
hs == Hs
HS == Heads(NW, E)
HO == TLCEval([i \in 1..NW |-> HeadOf(NW, E, i)])
ChF == TLCEval([h \in HS |-> {HO[E[j].c] : j \in {j \in DOMAIN E : HO[E[j].p] = h}} \ {h}])
PaF == TLCEval([h \in HS |-> {HO[E[j].p] : j \in {j \in DOMAIN E : HO[E[j].c] = h}} \ {h}])
ChW == TLCEval([i \in 1..NW |-> {E[j].c : j \in {j \in DOMAIN E : E[j].p = i}}])
Chain == TLCEval([h \in HS |-> {i \in 1..NW : HO[i] = h}])
G == TLCEval([h \in HS |-> wk[h].prio])
KS == 1..Len(Tr.caps[1])
(* time of work i for a crew of head h given by amounts of kinds *)
TimeOf(h, i, n) == IF wk[h].reqs = <<>> \/ wk[i].reqs = <<>> THEN 0 ELSE
   1 + SetMax({0} \cup {Ceil(wk[i].reqs[j].vol, Max2(1, n[wk[i].reqs[j].k])) : j \in {j \in DOMAIN wk[i].reqs : wk[i].reqs[j].min > 0}})
MinCrew == TLCEval([h \in HS |-> [k \in KS |-> SumOver({j \in DOMAIN wk[h].reqs : wk[h].reqs[j].k = k}, LAMBDA j : wk[h].reqs[j].min)]])
MaxCrew == TLCEval([h \in HS |-> [k \in KS |-> SumOver({j \in DOMAIN wk[h].reqs : wk[h].reqs[j].k = k}, LAMBDA j : wk[h].reqs[j].max)]])
ChainTime(h, n) == SumOver(Chain[h], LAMBDA i : TimeOf(h, i, n))
W2 == TLCEval([h \in HS |-> ChainTime(h, MinCrew[h]) + ChainTime(h, MaxCrew[h]) + 2])
GroupRank == TLCEval(Ranks(TLCEval([x \in HS |-> {c \in ChF[x] : G[c] = G[x]}]), W2, hs))
D == TLCEval([h \in HS |-> Tr.d[P(h)]])
LF == TLCEval(Lft(ChF, D, hs))
NegRank == TLCEval([h \in HS |-> -GroupRank[h]])
HeftOk(o) == Perm(o, HS) /\ Grouped(G, o) /\ SortedBy(NegRank, G, o)
SW == TLCEval([h \in HS |-> 2 * SumOver(Chain[h], LAMBDA i : Tr.dur[i]) + 2])
(* ---- the latest-finish-time scheduler: crews and contractors are assigned head by head *)
NC == Len(Tr.caps)
run == Tr.run
Want(h, k) == Tr.spec[h].workers[k]
Kinds == TLCEval([h \in HS |-> {wk[h].reqs[j].k : j \in DOMAIN wk[h].reqs}])
Accepted == TLCEval([h \in HS |-> {c \in 1..NC : (Tr.spec[h].contractors = <<>> \/ c \in Members(Tr.spec[h].contractors))
                 /\ \A k \in Kinds[h] : Tr.caps[c][k] >= MinCrew[h][k] /\ (Want(h, k) >= 0 => Tr.caps[c][k] >= Want(h, k))}])
Amount(h, c) == TLCEval([k \in KS |-> IF k \notin Kinds[h] THEN 0 ELSE IF Want(h, k) >= 0 THEN Want(h, k) ELSE Min2(Tr.caps[c][k], MaxCrew[h][k])])
Dur == TLCEval([h \in HS |-> [c \in 1..NC |-> ChainTime(h, Amount(h, c)) + 1]])
RunDur == TLCEval([h \in HS |-> Dur[h][run.con[P(h)]]])
(* score: share of the durations of the accepted contractors + share of assignments so far; a least one is taken *)
Assigned(c, i) == 1 + Cardinality({j \in 1..(i - 1) : run.con[j] = c})
AssignOk(i) ==
   LET h == hs[i]
       A == Accepted[h]
       dsum == SumOver(A, LAMBDA c : Dur[h][c])
       asum == NC + i - 1
       score(c) == Dur[h][c] * asum + Assigned(c, i) * dsum
       mine == score(run.con[i]) IN
   run.con[i] \in A /\ \A c \in A : mine <= score(c)
RunChecks ==
   IF run.order = <<>> THEN {} ELSE
   Cond(\A i \in DOMAIN hs : run.con[i] \in Accepted[hs[i]], "run:accepted")
   \cup Cond(\A i \in DOMAIN hs : AssignOk(i), "run:even")
   \cup (IF \E i \in DOMAIN hs : run.con[i] \notin 1..NC THEN {} ELSE
        Cond(\A i \in DOMAIN hs : run.team[i] = Amount(hs[i], run.con[i]), "run:team")
        \cup Cond(Perm(run.order, HS) /\ Grouped(G, run.order) /\ SortedBy(TLCEval(Lft(ChF, RunDur, hs)), G, run.order), "run:order"))
IN
   Cond(Members(hs) = HS /\ Distinct(hs) /\ Linear(ChF, hs), "heads")
   \cup (IF Members(hs) # HS THEN {} ELSE
     Cond(\A h \in HS : Members(Tr.ch[P(h)]) = ChF[h], "children") \cup Cond(\A h \in HS : Members(Tr.par[P(h)]) = PaF[h], "parents")
     \cup Cond(LET r == Ranks(ChF, W2, hs) IN \A h \in HS : Tr.rank2[P(h)] = r[h], "rank")
     \cup Cond(HeftOk(Tr.heft), "heft") \cup Cond(Tr.hrun = <<>> \/ HeftOk(Tr.hrun), "heftrun")
     \cup Cond(Perm(Tr.topo, HS) /\ Grouped(G, Tr.topo) /\ ((\A h \in HS : \A c \in ChF[h] : G[h] <= G[c]) => Linear(ChF, Tr.topo)), "topo")
     \cup Cond(\A h \in HS : Tr.lf[P(h)] = LF[h] /\ Tr.ls[P(h)] = LF[h] - D[h], "latest")
     \cup Cond(Perm(Tr.lft, HS) /\ Grouped(G, Tr.lft) /\ SortedBy(LF, G, Tr.lft) /\ Linear(ChF, Tr.lft), "lft")
     \cup Cond(Perm(Tr.rlft, HS) /\ Greedy(ChF, G, Tr.rlft), "rlft")
     \cup Cond(CriticalPath(ChF, W2, hs, Tr.cp), "criticalgraph")
     \cup Cond(CriticalPath(ChF, SW, hs, Tr.cps), "criticalschedule")
     \cup Cond(Tr.pcp = [i \in DOMAIN Tr.cps |-> LastIn(Tr.cps[i])], "criticalproject")
     \cup RunChecks)
   \cup Cond(LET c == Corrected(ChW, Tr.nodes, Tr.prio1) IN \A i \in 1..NW : Tr.prio2[i] = c[i], "priorities")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Tr.err = "" THEN Check ELSE {"exception:" \o Tr.err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
