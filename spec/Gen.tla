--------------------------------- MODULE Gen ---------------------------------
(* Synthetic projects: graphs of clusters, contractors for them, kinds of materials, names, landscapes. *)
EXTENDS Util
(* the borders of a graph: p = [cc, bottom, top], the works and clusters it has; small: no cluster could be taken *)
Borders(p, works, clusters, small) ==
  /\ p.bottom > 0 => works >= p.bottom \/ (p.cc > 0 /\ clusters = p.cc)
  /\ p.bottom = 0 /\ p.top > 0 => (works <= p.top \/ small)
  /\ (p.cc > 0 => clusters <= p.cc)
  /\ p.cc > 0 /\ p.bottom = 0 /\ p.top = 0 => clusters = p.cc
(* ---- contractors *)
Value(q, how) == CASE how = "min" -> q.lo [] how = "max" -> q.hi [] OTHER -> (q.lo + q.hi) \div 2
Needed(reqs, k, how) == SetMax({Value(reqs[i], how) : i \in {i \in DOMAIN reqs : reqs[i].k = k}})
Kinds(reqs) == {reqs[i].k : i \in DOMAIN reqs}
(* n people where p are asked for, times s / 100 *)
Scaled(n, p, s) == IF s >= 100 THEN p <= n /\ n * 100 <= p * s ELSE 0 <= n /\ n <= p
=============================================================================
