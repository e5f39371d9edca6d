----------------------------- MODULE InputTrace -----------------------------
(* One table that was read: [names, given: links [p, c, t, lag], hist, all, change, links: links of the graph, reqs: per work rows
   [k, v, lo, hi], want: what the table says about each work (fields), got: the same fields in the graph, reqsgot, n: works in the graph,
   people: rows of the table of contractors, peoplegot, back: fields and links of the graph written as a table and read again, back_links,
   subs: [p, s, pr: probability in percent], subsgot: added works [p, s, ends: they precede the finish, only: their only parent], kept, err] *)
EXTENDS Input, Json
Traces == JsonDeserialize("traces.json")
VARIABLE t
Given(Tr) == {[p |-> g.p, c |-> g.c, t |-> g.t, lags |-> {<<g.lag, 100>>}, w |-> Inf] : g \in Members(Tr.given)}
Out(Tr) == Members(Tr.links)
Same(l, o) == l.p = o.p /\ l.c = o.c
Judge(Tr) ==
  LET H == TLCEval(IF Tr.all = 1 /\ Tr.change = 0 THEN {} ELSE HistLinks(Tr.names, Tr.hist))
      E == TLCEval(Links(Given(Tr), H, Tr.all = 1, Tr.change = 1))
      O == TLCEval(Out(Tr))
      Kept == TLCEval({l \in E : \E o \in O : Same(l, o)})
      Reqs(i) == SelectSeq(Tr.reqs[i], LAMBDA q : 0 < q.lo /\ q.lo <= q.hi) IN
       Cond(Tr.n = Len(Tr.names) /\ Tr.got = Tr.want, "works")
  \cup Cond(\A i \in DOMAIN Tr.reqs : SameBag(Reqs(i), Tr.reqsgot[i]), "requirements")
  \cup Cond(\A o \in O : \E l \in E : Same(l, o), "no other links")
  \cup Cond(Len(Tr.links) = Cardinality(O) /\ \A o \in O : \A l \in E : Same(l, o) => l.t = o.t, "type")
  \cup Cond(\A o \in O : \A l \in E : Same(l, o) => LeastLag(o.lag, l.lags), "lag")
  \cup Cond(Acyclic(Kept), "loop")
  \cup Cond(\A l \in E \ Kept : MayDrop(E, l), "lost link")
  \cup Cond(Tr.peoplegot = Tr.people, "contractors")
  \cup Cond(Tr.back = 0 \/ (SameBag(Tr.back_links, Tr.links) /\ SameBag(Tr.back_works, Tr.got) /\ Tr.back_reqs = Tr.reqsgot), "written and read")
  \cup Cond(\A s \in Members(Tr.subs) : (s.pr = 100 => Count(Tr.subsgot, [p |-> s.p, s |-> s.s]) = 1), "added work")
  \cup Cond(\A g \in Members(Tr.subsgot) : \E s \in Members(Tr.subs) : s.p = g.p /\ s.s = g.s /\ s.pr > 0, "not asked for")
  \cup Cond(Tr.subsgot = <<>> \/ Distinct(Tr.subsgot), "added twice")
  \cup Cond(Tr.kept = 1, "kept")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Traces[t].err = "" THEN Judge(Traces[t]) ELSE {"exception:" \o Traces[t].err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
