----------------------------- MODULE HybridTrace -----------------------------
(* Populations of the library. A trace: [G, K, n, inds: seq of chromosomes (see Genome), vals: their values as ranks, inf, damaged: 0|1 each,
   dec: what they stand for, as text; calls: seq of [who: 0 start | i, given: seq of ids, made: seq of ids],
   out: <<id>> if the individual was asked for, final: <<text>> if the schedule was; back: seq of [who, ids, vals],
   heur: seq of [rows, id, order], pops: first populations that should be equal, size, err] *)
EXTENDS Hybrid, Genome, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Tr == Traces[t]
G == Tr.G
V(i) == Tr.vals[i]
Team(r, k) == SumOver({j \in DOMAIN r.team : r.team[j].k = k}, LAMBDA j : r.team[j].n)
Manned(c, h) == \E k \in DOMAIN c.res[h] : c.res[h][k] > 0
RowsFit(c, rows) == \A i \in DOMAIN rows :
   /\ \A k \in DOMAIN c.res[rows[i].h] : Team(rows[i], k) = c.res[rows[i].h][k]
   /\ Manned(c, rows[i].h) => rows[i].c = c.con[rows[i].h]
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
        /\ s = First(<<>>)
(* one call of a population scheduler: before a round the cycle looks *)
Ready == IF s.at = 0 /\ l > 1 THEN Look(s, Tr.K, V) ELSE s
Call == /\ l <= Len(Tr.calls)
        /\ LET E == Tr.calls[l]
               r == TLCEval(Ready) IN
           IF l = 1
           THEN /\ s' = First(E.made)
                /\ bad' = bad \cup Cond(E.who = 0, "start")
           ELSE /\ s' = (IF r.over THEN r ELSE Hand(r, Tr.n, E.made))
                /\ bad' = bad \cup Cond(~r.over, "went on") \cup Cond(r.over \/ E.who = r.at, "turn")
                          \cup Cond(E.given = r.pop, "handed on")
        /\ l' = l + 1 /\ UNCHANGED t
Ends_ == IF Tr.calls = <<>> THEN {} ELSE
   LET r == Ready IN
   Cond(r.over, "stopped early") \cup Cond(r.at = 0, "turn")
   \cup Cond(\A i \in DOMAIN Tr.out : IsBest(Tr.out[i], r.pop, V), "best")
   \cup Cond(\A i \in DOMAIN Tr.final : \E x \in Members(r.pop) : IsBest(x, r.pop, V) /\ Tr.dec[x] = Tr.final[i], "schedule")
Chromosomes == UNION {Wrong(G, Tr.inds[i]) : i \in {i \in DOMAIN Tr.inds : Tr.damaged[i] = 0}}
   \cup Cond(\A i \in DOMAIN Tr.inds : (Tr.inf[i] = 1) = ~Correct(G, Tr.inds[i]), "judged")
Backs == UNION {Cond(Tr.back[b].vals = [j \in DOMAIN Tr.back[b].ids |-> V(Tr.back[b].ids[j])], "values " \o Tr.back[b].who) : b \in DOMAIN Tr.back}
First_ == Cond(\A p \in DOMAIN Tr.pops : Len(Tr.pops[p]) = Tr.size, "size") \cup Cond(\A p \in DOMAIN Tr.pops : Tr.pops[p] = Tr.pops[1], "processes")
Heur == UNION {Cond(RowsFit(Tr.inds[Tr.heur[i].id], Tr.heur[i].rows), "crews") \cup Cond(Tr.inds[Tr.heur[i].id].order = Tr.heur[i].order, "order") : i \in DOMAIN Tr.heur}
Finish == /\ l = Len(Tr.calls) + 1
          /\ PrintT(<<"VERDICT", t, IF Tr.err # "" THEN {"exception:" \o Tr.err} ELSE bad \cup Ends_ \cup Chromosomes \cup Backs \cup First_ \cup Heur>>)
          /\ l' = l + 1 /\ UNCHANGED <<t, s, bad>>
TraceNext == Call \/ Finish
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
