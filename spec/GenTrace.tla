------------------------------ MODULE GenTrace ------------------------------
(* One thing that was generated; both: what two processes with the same seed made of it. *)
EXTENDS Gen, Json
Traces == JsonDeserialize("traces.json")
VARIABLE t
Graph(Tr) ==
  LET E == TLCEval(Members(Tr.edges))  n == Tr.nodes
      hs == Tr.handing IN
       Cond(Borders(Tr.p, Tr.works, Len(hs), Tr.works <= 48 /\ Len(hs) = 1), "borders")
  \cup Cond(Tr.small = 0 \/ (30 <= n /\ n <= 50), "small graph")
  \cup Cond(n = Tr.works + 2 /\ Distinct(Tr.ids) /\ Len(Tr.ids) = n, "works")
  \cup Cond(\A e \in E : 1 <= e[1] /\ e[1] < e[2] /\ e[2] <= n, "order")
  \cup Cond({e[2] : e \in E} = 2..n /\ {e[1] : e \in E} = 1..(n - 1), "one start and one finish")
  \cup Cond(\A q \in Members(Tr.reqs) : 0 < q.lo /\ q.lo <= q.hi /\ q.vol >= 0, "requirements")
  \cup (* a cluster is handed over after an earlier one, or begins after the road of an earlier one *)
       Cond(\A i \in DOMAIN hs : hs[i].c = 1 \/
              CASE Tr.mode = "SEQUENTIAL" -> \E j \in DOMAIN hs : hs[j].c = hs[i].c - 1 /\ j \in Members(hs[i].after)
                [] Tr.mode = "PARALLEL" -> \E j \in DOMAIN hs : hs[j].c = 1 /\ j \in Members(hs[i].after)
                [] OTHER -> \E c \in Members(hs[i].roads) : c < hs[i].c, "mode")
  \cup Cond({hs[i].c : i \in DOMAIN hs} = 1..SetMax({hs[i].c : i \in DOMAIN hs}), "clusters")
Staff(Tr) ==
  LET K == Members(Tr.kinds) IN
       Cond({Tr.got[i].k : i \in DOMAIN Tr.got} = K /\ Len(Tr.got) = Cardinality(K), "kinds")
  \cup Cond(\A i \in DOMAIN Tr.got : \A j \in DOMAIN Tr.ask : Tr.ask[j].k = Tr.got[i].k =>
              Scaled(Tr.got[i].n, Tr.ask[j].n, Tr.scale) /\ (Tr.sigma = 0 => Tr.got[i].n * 100 + 100 > Tr.ask[j].n * Tr.scale), "numbers")
ByGraph(Tr) ==
  IF Tr.scale < 100 THEN Cond(Tr.refused = 1, "scale") ELSE
       Cond(Tr.refused = 0, "refused")
  \cup Cond({Tr.got[i].k : i \in DOMAIN Tr.got} = Kinds(Tr.reqs) /\ Len(Tr.got) = Cardinality(Kinds(Tr.reqs)), "kinds")
  \cup Cond(\A g \in Members(Tr.got) : g.k \in Kinds(Tr.reqs) => Scaled(g.n, Needed(Tr.reqs, g.k, Tr.how), Tr.scale) /\ g.n * 100 + 100 > Needed(Tr.reqs, g.k, Tr.how) * Tr.scale, "numbers")
  \cup Cond(\A q \in Members(Tr.reqs) : \E g \in Members(Tr.got) : g.k = q.k /\ g.n >= q.lo, "cannot do a work")
Materials(Tr) ==
  LET lo == Tr.bottom  hi == Tr.top IN
  IF lo > Len(Tr.names) \/ hi > Len(Tr.names) THEN Cond(Tr.refused = 1, "refused")
  ELSE Cond(Tr.refused = 0, "refused")
       \cup UNION {LET w == Tr.works[i]  ks == [j \in DOMAIN w.mats |-> w.mats[j].k] IN
              IF w.svc = 1 THEN Cond(ks = <<>>, "service work")
              ELSE Cond(lo <= Len(ks) /\ Len(ks) <= hi, "number of kinds") \cup Cond(Distinct(ks) /\ Members(ks) \subseteq Members(Tr.names), "kinds")
                   \cup Cond(\A j \in DOMAIN ks : 52 <= w.mats[j].n /\ w.mats[j].n <= 345, "amount") : i \in DOMAIN Tr.works}
(* names: sequence of [old, add]: what was added to the old name ("?" something else) *)
Names(Tr) ==
  LET old == {Tr.names[i].old : i \in DOMAIN Tr.names}  new == {<<Tr.names[i].old, Tr.names[i].add>> : i \in DOMAIN Tr.names} IN
       Cond(\A i \in DOMAIN Tr.names : Tr.names[i].add # "?", "another name")
  \cup Cond(IF Tr.want <= Cardinality(old) THEN \A i \in DOMAIN Tr.names : Tr.names[i].add = "" ELSE Cardinality(new) <= Tr.want, "number of names")
  \cup Cond(Tr.want > Cardinality(old) /\ old # {} => \A i \in DOMAIN Tr.names : Tr.names[i].add # "", "no new name")
  \cup Cond(Tr.rest = 1, "nothing else changes")
Land(Tr) ==
       Cond(\A i \in DOMAIN Tr.where : Len(Tr.where[i].at) = (IF Tr.where[i].svc = 1 THEN 0 ELSE 1), "one place")
  \cup Cond(\A i, j \in DOMAIN Tr.where : Tr.where[i].chain = Tr.where[j].chain /\ Tr.where[i].svc = 0 /\ Tr.where[j].svc = 0 => Tr.where[i].at = Tr.where[j].at, "place of a chain")
  \cup Cond(\A w \in Members(Tr.where) : \A p \in Members(w.at) : \A m \in DOMAIN w.need : w.need[m] <= Tr.plat[p][m], "room for materials")
  \cup Cond(Tr.depots > 0 /\ Tr.reach = Tr.places, "depots can be reached")
  \cup Cond(Tr.carry = 1, "vehicles")
(* works of a sampler: qs are requirements of a work, ls those of a work made like it (scale in percent) *)
Like(qs, ls, scale) ==
  /\ Len(ls) = Len(qs)
  /\ \A i \in DOMAIN ls : /\ ls[i].k = qs[i].k /\ ls[i].lo = qs[i].lo /\ ls[i].hi >= ls[i].lo
                          /\ ls[i].hi \in {qs[i].lo} \cup {x \in 0..1000 : 2 * 100 * x - 2 * qs[i].hi * scale \in -100..100}
                          /\ ls[i].vol * 100 = qs[i].vol * scale
Sampled(Tr) ==
       Cond(\A x \in Members(Tr.made) : Distinct([i \in DOMAIN x.reqs |-> x.reqs[i].k]) /\ x.reqs # <<>>, "kinds")
  \cup Cond(\A x \in Members(Tr.made) : \A q \in Members(x.reqs) : Tr.vlo <= q.vol /\ q.vol <= Tr.vhi /\ q.lo = Tr.clo /\ q.hi = Tr.chi, "borders")
  \cup Cond(\A x \in Members(Tr.made) : Tr.wlo <= x.volume /\ x.volume <= Tr.whi, "volume")
  \cup Cond(\A x \in Members(Tr.made) : Like(x.reqs, x.like, Tr.scale), "similar work")
  \cup Cond(Tr.rest = 1, "rest of the work")
Judge(Tr) ==
  (CASE Tr.kind = "graph" -> Graph(Tr) [] Tr.kind = "staff" -> Staff(Tr) [] Tr.kind = "bygraph" -> ByGraph(Tr) [] Tr.kind = "materials" -> Materials(Tr)
     [] Tr.kind = "names" -> Names(Tr) [] Tr.kind = "land" -> Land(Tr) [] OTHER -> Sampled(Tr))
  \cup Cond(\A i, j \in DOMAIN Tr.both : Tr.both[i] = Tr.both[j], "follows the seed")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Traces[t].err = "" THEN Judge(Traces[t]) ELSE {"exception:" \o Traces[t].err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
