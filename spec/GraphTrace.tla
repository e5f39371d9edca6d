------------------------------ MODULE GraphTrace ------------------------------
(* Steps of histories over real work graphs.  A trace:
   [op, pre: seq of graphs [n: seq of tags, k: seq of keep texts, id: seq of ids, e: seq of [p, c, t, lag], s, f] (operands, by tag),
    x: tag, a: tag, b: tag, ins: seq of edges, change: 0|1, off, same: 0|1 (operands untouched), err,
    R: [nodes: seq of [tag, id, keep, par, chi (seq of [o: index of the other end, t, lag]), parents, children, neigh, chain, chainself: seq of
        indices, son, father: index or 0, w], s, f, count, dict: seq of [id, o], adj: seq of [i, j, w]]]  (index 0: not of this graph)
   Part "edit" compares the result with the operation; part "shape" checks that the result is a consistent work graph. *)
EXTENDS Graph, Json
CONSTANT Part
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
Abs(d) == [n |-> Members(d.n), s |-> d.s, f |-> d.f, e |-> Members(d.e)]
R == Tr.R
N == R.nodes
RI == 1..Len(N)
Tag(i) == IF i \in RI THEN N[i].tag ELSE 0 - 1
REdges == UNION {{[p |-> Tag(N[i].par[j].o), c |-> N[i].tag, t |-> N[i].par[j].t, lag |-> N[i].par[j].lag] : j \in DOMAIN N[i].par} : i \in RI}
Res == [n |-> {N[i].tag : i \in RI}, s |-> Tag(R.s), f |-> Tag(R.f), e |-> REdges]
P1 == Abs(Tr.pre[1])
P2 == Abs(Tr.pre[2])
Expected == CASE Tr.op = "delete" -> Delete(P1, Tr.x)
              [] Tr.op = "insert" -> Insert(P1, Tr.x, Members(Tr.ins))
              [] Tr.op = "union" -> Union(P1, Tr.a, Tr.b, P2)
              [] Tr.op = "addedges" -> [P1 EXCEPT !.e = @ \cup Members(Tr.ins)]
              [] OTHER -> P1                  \* build, simplify, copies
Allowed == IF Tr.op = "obstruct" THEN UNION {Obstruct(P1, P2, x) : x \in P1.n} ELSE {Expected}
KeepOf == UNION {{<<Tr.pre[q].n[i], Tr.pre[q].k[i]>> : i \in DOMAIN Tr.pre[q].n} : q \in DOMAIN Tr.pre} \cup {<<Tr.x, Tr.xk>>}
IdOf == UNION {{<<Tr.pre[q].n[i], Tr.pre[q].id[i]>> : i \in DOMAIN Tr.pre[q].n} : q \in DOMAIN Tr.pre} \cup {<<Tr.x, Tr.xid>>}
OldIds == UNION {Members(Tr.pre[q].id) : q \in DOMAIN Tr.pre}
Edit ==
   Cond(\E G \in Allowed : Res.n = G.n /\ Len(N) = Cardinality(Res.n), "works")
   \cup Cond(\E G \in Allowed : Res.e = G.e, "edges")
   \cup Cond(\E G \in Allowed : \A x \in Res.n \cap G.n : After(Deps(Res.e), x) = After(Deps(G.e), x), "order")
   \cup Cond(\A G \in Allowed : Res.s = G.s /\ Res.f = G.f, "ends")
   \cup Cond(\A i \in RI : <<N[i].tag, N[i].keep>> \in KeepOf, "attributes")
   \cup Cond(Cardinality({N[i].id : i \in RI}) = Len(N), "uniqueids")
   \cup (IF Tr.change = 0 THEN Cond(\A i \in RI : <<N[i].tag, N[i].id>> \in IdOf, "ids")
         ELSE IF Tr.op = "simplify" THEN Cond(\A i \in DOMAIN Tr.pre[1].n : \E j \in RI : N[j].tag = Tr.pre[1].n[i] /\ N[j].id = ToString(Tr.off + i - 1), "ids")
         ELSE Cond(\A i \in RI : N[i].id \notin OldIds \/ N[i].tag = Tr.x, "ids"))
   \cup Cond(Tr.same = 1, "frame")
ParE == {<<N[i].par[j].o, i, N[i].par[j].t, N[i].par[j].lag, Cardinality({k \in 1..j : N[i].par[k] = N[i].par[j]})>> : <<i, j>> \in {<<i, j>> \in RI \X (1..99) : j \in DOMAIN N[i].par}}
ChiE == {<<i, N[i].chi[j].o, N[i].chi[j].t, N[i].chi[j].lag, Cardinality({k \in 1..j : N[i].chi[k] = N[i].chi[j]})>> : <<i, j>> \in {<<i, j>> \in RI \X (1..99) : j \in DOMAIN N[i].chi}}
Ends(s) == LET d == SelectSeq(s, Dep) IN [j \in DOMAIN d |-> d[j].o]
Of(s, ty) == LET d == SelectSeq(s, LAMBDA y : y.t = ty) IN [j \in DOMAIN d |-> d[j].o]
RECURSIVE Down(_)
Down(i) == LET k == Of(N[i].chi, "IFS") IN IF k = <<>> \/ k[1] <= i THEN <<i>> ELSE <<i>> \o Down(k[1])
Behind == Tr.op = "obstruct" /\ R.f \in RI /\ N[R.f].chi # <<>>        \* an obstruction may come after the finish of the project
Shape ==
   Cond(ParE = ChiE, "twosided")
   \cup Cond(\A i \in RI : \A j \in DOMAIN N[i].par : N[i].par[j].o \in 1..(i - 1), "topological")
   \cup Cond(R.s = 1 /\ N[1].par = <<>> /\ \A i \in RI : i # 1 => N[i].par # <<>>, "start")
   \cup Cond(Behind \/ (R.f = Len(N) /\ \A i \in RI : i # Len(N) => N[i].chi # <<>>), "finish")
   \cup Cond(R.count = Len(N) /\ Len(R.dict) = Len(N) /\ {<<R.dict[i].id, R.dict[i].o>> : i \in DOMAIN R.dict} = {<<N[i].id, i>> : i \in RI}, "index")
   \cup Cond(\A i \in RI : N[i].parents = Ends(N[i].par) /\ N[i].children = Ends(N[i].chi), "neighbours")
   \cup Cond(\A i \in RI : N[i].neigh = Of(N[i].par, "SS"), "startstart")
   \cup Cond(\A i \in RI : LET u == Of(N[i].par, "IFS") d == Of(N[i].chi, "IFS") IN
        /\ N[i].father = (IF u = <<>> THEN 0 ELSE u[1]) /\ N[i].son = (IF d = <<>> THEN 0 ELSE d[1])
        /\ N[i].chain = (IF u = <<>> /\ d # <<>> THEN Down(i) ELSE <<>>)
        /\ N[i].chainself = (IF u = <<>> /\ d # <<>> THEN Down(i) ELSE <<i>>), "chain")
   \cup Cond({<<R.adj[k].i, R.adj[k].j>> : k \in DOMAIN R.adj} = UNION {{<<i, N[i].children[j]>> : j \in DOMAIN N[i].children} : i \in {i \in RI : N[i].w > 0}}
             /\ \A k \in DOMAIN R.adj : R.adj[k].w = N[R.adj[k].i].w, "matrix")
Check == IF Tr.err # "" THEN {"exception:" \o Tr.err} ELSE IF Part = "edit" THEN Edit ELSE Shape
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, Check>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
