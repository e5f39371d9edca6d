----------------------------- MODULE RestructTrace -----------------------------
(* Restructured graphs. A trace: [G: [w: seq of [vol, reqs, keep], e], opt: 0|1, nodes: seq of [w, i, id, vol (in 1/S), reqs, keep, prio],
   e: seq of [p: node index, c, t, lag], ends: <<start node, finish node>> indices, same: 0|1, err].
   keep: text of everything that is not divided; prio of G.w as given. *)
EXTENDS Restruct, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
G == Tr.G
opt == Tr.opt = 1
N == Tr.nodes
Nm(n) == <<n.w, n.i>>
Check ==
   LET names == {Nm(N[i]) : i \in DOMAIN N} IN
   Cond(names = NewNodes(G, opt) /\ Len(N) = Cardinality(names), "nodes")
   \cup Cond({[p |-> Nm(N[Tr.e[i].p]), c |-> Nm(N[Tr.e[i].c]), t |-> Tr.e[i].t, lag |-> Tr.e[i].lag] : i \in DOMAIN Tr.e} = NewEdges(G, opt), "edges")
   \cup (IF names # NewNodes(G, opt) THEN {} ELSE
         Cond(\A i \in DOMAIN N : LET C == Cuts(G, N[i].w, opt) IN N[i].vol = Share(C, N[i].i) * G.w[N[i].w].vol, "volume")
         \cup Cond(\A i \in DOMAIN N : LET C == Cuts(G, N[i].w, opt) IN
                     /\ Len(N[i].reqs) = Len(G.w[N[i].w].reqs)
                     /\ \A r \in DOMAIN N[i].reqs : N[i].reqs[r] = Amount(C, N[i].i, G.w[N[i].w].reqs[r]), "amounts"))
   \cup Cond(\A i \in DOMAIN N : N[i].keep = G.w[N[i].w].keep, "attributes")
   \cup Cond(\A i \in DOMAIN N : N[i].name = (IF Last(G, N[i].w, opt) = 0 THEN G.w[N[i].w].name ELSE G.w[N[i].w].name \o "_stage_" \o ToString(N[i].i)), "name")
   \cup Cond(\A i \in DOMAIN Tr.e : N[Tr.e[i].p].prio <= N[Tr.e[i].c].prio, "priorities")
   \cup Cond(\A i \in DOMAIN N : N[i].prio <= G.w[N[i].w].prio, "priorityraised")
   \cup Cond((\A i \in DOMAIN G.e : G.w[G.e[i].p].prio <= G.w[G.e[i].c].prio) => \A i \in DOMAIN N : N[i].prio = G.w[N[i].w].prio, "prioritychanged")
   \cup Cond(Nm(N[Tr.ends[1]]) = <<1, 0>> /\ Nm(N[Tr.ends[2]]) = <<Len(G.w), 0>>, "ends")
   \cup Cond(Tr.same = 1, "frame")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Tr.err = "" THEN Check ELSE {"exception:" \o Tr.err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
