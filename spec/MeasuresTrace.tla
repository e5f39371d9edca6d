---------------------------- MODULE MeasuresTrace ----------------------------
(* kind "time": [reqs, crew: sequence of [k, n, plo, phi: productivity], res (-1: never), again]; kind "use": [rows, filter: kinds or <<>> (all),
   kinds, time, deadline, peaks: sequence of [k, n], usage: sequence of [k, t, n], fit: results of the goals in hundredths, none: results
   without a schedule, err]. *)
EXTENDS Measures, Json
Traces == JsonDeserialize("traces.json")
VARIABLE t
Inf == 2000000000
In(crew, k) == \E i \in DOMAIN crew : crew[i].k = k
M(crew, k) == crew[Idx([i \in DOMAIN crew |-> crew[i].k], k)]
TimeOf(Tr) ==
  LET A == Asked(Tr.reqs)
      Has(i) == In(Tr.crew, Tr.reqs[i].k) /\ M(Tr.crew, Tr.reqs[i].k).n >= Tr.reqs[i].lo
      Slow(i) == LET q == Tr.reqs[i]  m == M(Tr.crew, q.k) IN IF m.plo = 0 THEN -1 ELSE SetMax(Needs(q, m.n, m.plo))
      Fast(i) == LET q == Tr.reqs[i]  m == M(Tr.crew, q.k) IN Need(q, m.n, m.phi)
      Sure(i) == LET q == Tr.reqs[i]  m == M(Tr.crew, q.k) IN m.plo = m.phi IN
  CASE Tr.crew = <<>> -> Cond(Tr.res = 0, "no crew")
    [] Tr.crew # <<>> /\ \E i \in A : ~Has(i) -> Cond(Tr.res = -1, "not enough people")
    [] OTHER -> Cond(IF Tr.res >= 0 THEN \A i \in A : Fast(i) <= Tr.res ELSE \E i \in A : Slow(i) = -1, "too fast")
           \cup Cond((\E i \in A : Slow(i) = -1) \/ Tr.res <= SetMax({0} \cup {Slow(i) : i \in A}), "too slow")
           \cup Cond(Tr.again = 1, "same again")
UseOf(Tr) ==
  LET K == IF Tr.all = 1 THEN Members(Tr.kinds) ELSE Members(Tr.filter)
      R == TLCEval(Tr.rows)
      ps == PeaksSum(R, K)
      Goal(i) == CASE i \in {1, 8} -> <<Tr.time, 1>> [] i \in {2, 9} -> <<ps, 1>> [] i = 3 -> <<Total(R, K), 1>> [] i = 4 -> <<Tr.time + ps, 1>>
                   [] i = 5 -> Late(ps, Tr.time, Tr.deadline) [] OTHER -> Late(Cost(R, K), Tr.time, Tr.deadline)
      (* costs (goals 6 and 7) are in hundredths already; 7 is the plain cost *)
      Ok(i) == IF i = 7 THEN Tr.fit[7] = Cost(R, K)
               ELSE LET g == Goal(i)  u == IF i = 6 THEN 1 ELSE 100 IN
                    (g[2] = 1 /\ Tr.fit[i] = g[1] * u) \/ (g[2] # 1 /\ 2 * Abs(Tr.fit[i] * g[2] - g[1] * u) <= g[2] + 2) IN
       Cond(\A p \in Members(Tr.peaks) : p.n = Peak(R, p.k), "peak")
  \cup Cond({p.k : p \in Members(Tr.peaks)} = Used(R, K), "kinds")
  \cup Cond(\A u \in Members(Tr.usage) : u.n = Busy(R, u.k, u.t), "usage")
  \cup UNION {Cond(Ok(i), "goal " \o ToString(i)) : i \in DOMAIN Tr.fit}
  \cup Cond(\A i \in DOMAIN Tr.none : Tr.none[i] = Inf, "without a schedule")
  \cup Cond(Tr.costs = [i \in DOMAIN R |-> Cost(<<R[i]>>, Members(Tr.kinds))], "cost of a work")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Traces[t].err # "" THEN {"exception:" \o Traces[t].err}
                                                     ELSE IF Traces[t].kind = "time" THEN TimeOf(Traces[t]) ELSE UseOf(Traces[t])>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
