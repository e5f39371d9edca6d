----------------------------- MODULE AgencyTrace -----------------------------
(* Recorded from the code. kind "run": [inst: all blocks as one Sched instance (the finish of a block holds the start of the next ones by one
   tick), of: block of each work, n, edges: seq of <<p, c>>, agents: seq of [cons: seq of contractor numbers], mode: "finish"|"trust"|"pred",
   auctions: seq of [b, t: asked not to begin before, offers: seq of [s, e] (by agent), a, real: [s, e] of the confirmed offer, shadow: [s, e] the
   offer of an agent that was only ever given what this one was given, or [-1, -1], w, w2: trust before and after, free, algo: seq of 0|1, mse,
   last: seq of ends of the last block by agent, after the auction],
   blocks: seq of [b, s, e, a, rows: works of the block's schedule], names, valid: 1 when validate_block_schedule accepts].
   kind "graph": [n, edges, of, own: seq of <<work, work>> edges inside of blocks, first, last: works by block, all: seq of <<work, work>> edges of the
   united graph, 0 the added start, -1 the added finish, m: works, ord, ord2: orders of the blocks and of those of a copy, edges2: edges of the copy,
   same: 1 when the original was left alone]; kind "gen": [type, n, edges, layers: seq of seq of blocks]; err *)
EXTENDS Agency, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
E == Members(Tr.edges)
RowsOf == LET f[i \in 0..Len(Tr.blocks)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o Tr.blocks[i].rows IN f[Len(Tr.blocks)]
RECURSIVE Place(_, _, _, _)
Place(I, P, todo, names) == IF todo = <<>> THEN {} ELSE
   FailedGuards(names, I, P, Head(todo)) \cup Place(I, TLCEval(Append(P, Head(todo))), Tail(todo), names)
(* rows of a later block may lie before those of an earlier one on other crews, so capacity is looked at over all rows at once *)
Au == Tr.auctions
EndOf == [b \in 1..Tr.n |-> Tr.blocks[At([i \in DOMAIN Tr.blocks |-> Tr.blocks[i].b], b)].e]
AuctionOk(x, k) ==
   CondA(x.t = ParentEnd(E, EndOf, x.b), "parenttime")
   \cup CondA(Len(x.offers) = (IF Tr.mode = "pred" THEN 0 ELSE Len(Tr.agents)), "offers")
   \cup (CASE Tr.mode = "finish" -> CondA(x.a = FirstEarliest(x.offers), "winner")
           [] Tr.mode = "trust" -> CondA(TrustOk(x.offers, x.w, x.a), "winner")
                                   \cup CondA(TrustNext(x.offers[x.a], x.real, x.w[x.a], x.w2[x.a]), "trust")
                                   \cup CondA(\A a \in DOMAIN x.w : a # x.a => x.w2[a] = x.w[a], "trustofothers")
           [] OTHER -> CondA(x.a = Predicted([a \in DOMAIN x.mse |-> Class(x.free[a] = 1, x.algo[a] = 1)], x.mse), "winner"))
   \cup CondA(Tr.mode # "finish" \/ x.shadow.e = -1 \/ x.offers[x.a] = x.real, "confirmed")
   \cup CondA(x.shadow.e = -1 \/ x.shadow = x.real, "offerhistory")
   \cup CondA(LET y == Tr.blocks[k] IN y.b = x.b /\ y.s = x.real.s /\ y.e = x.real.e /\ y.a = x.a, "block")
   \cup CondA(\A a \in DOMAIN x.last : x.last[a] = IF a = x.a THEN x.real.e ELSE IF k = 1 THEN 0 ELSE Au[k - 1].last[a], "lasttask")
   \cup CondA(Tr.mode # "pred" \/ \A a \in DOMAIN x.free : (x.free[a] = 1) <=> (x.t > (IF k = 1 THEN 0 ELSE Au[k - 1].last[a])), "free")
BlockOk(y) ==
   CondA(\A i \in DOMAIN y.rows : y.rows[i].w # 0 /\ Tr.of[y.rows[i].w] = y.b, "foreignwork")
   \cup CondA(y.rows # <<>> /\ y.e = SetMax({y.rows[i].f : i \in DOMAIN y.rows}) /\ \A i \in DOMAIN y.rows : y.rows[i].s >= y.s, "blockspan")
   \cup CondA(\A i \in DOMAIN y.rows : y.rows[i].team # <<>> => y.rows[i].c \in Members(Tr.agents[y.a].cons), "agentcontractor")
Run ==
   LET ord == [i \in DOMAIN Au |-> Au[i].b]
       P == TLCEval(RowsOf) IN
   IF ~OrderOk(Tr.n, E, ord) \/ Len(Tr.blocks) # Tr.n THEN {"order"} ELSE
   UNION {AuctionOk(Au[k], k) : k \in DOMAIN Au} \cup UNION {BlockOk(Tr.blocks[k]) : k \in DOMAIN Tr.blocks}
   \cup Place(Tr.inst, <<>>, P, Members(Tr.names))
   \cup CondA(C_complete(Tr.inst, P), "complete") \cup CondA(C_chainhold(Tr.inst, P), "chainhold")
   \cup CondA(Tr.valid = 1, "refused")
Graph ==
   LET n == Tr.m + 2
       g(x) == IF x = 0 THEN Tr.m + 1 ELSE IF x = -1 THEN Tr.m + 2 ELSE x
       real == TLCEval({<<g(e[1]), g(e[2])>> : e \in Members(Tr.all)})
       own == Members(Tr.own)
       between == {<<Tr.last[e[1]], Tr.first[e[2]]>> : e \in E}
       want == TLCEval(own \cup between \cup {<<Tr.m + 1, Tr.first[b]>> : b \in 1..Tr.n} \cup {<<Tr.last[b], Tr.m + 2>> : b \in 1..Tr.n}) IN
   CondA(own \subseteq real, "ownedges") \cup CondA(\A e \in Members(Tr.all) : e[1] >= -1 /\ e[2] >= -1, "unknownwork")
   \cup (IF \A e \in Members(Tr.all) : e[1] >= -1 /\ e[2] >= -1 THEN CondA(Reach(n, real) = Reach(n, want), "precedence") ELSE {})
   \cup CondA(OrderOk(Tr.n, E, Tr.ord), "toposort")
   \cup CondA(OrderOk(Tr.n, E, Tr.ord2) /\ Members(Tr.edges2) = E /\ Tr.same = 1, "copy")
Gen ==
   LET L == Tr.layers
       gs == Tr.n + 1  ge == Tr.n + 2
       inner == {e \in E : e[1] <= Tr.n /\ e[2] <= Tr.n} IN
   IF Tr.type = "QUEUES" THEN
      \* layers: services and queues alternate
      CondA(E = UNION {{<<x, y>> : x \in Members(L[i]), y \in Members(L[i + 1])} : i \in 1..(Len(L) - 1)} /\ Len(Tr.edges) = Cardinality(E), "queues")
      \cup CondA(Tr.sizes = [i \in 1..((Len(L) - 1) \div 2) |-> Len(L[2 * i])], "queuesizes")
      \cup CondA(\A i \in DOMAIN L : i % 2 = 1 => Len(L[i]) = 1, "services")
   ELSE
   CondA(Tr.nodes = Tr.n + 2 /\ Len(Tr.edges) = Cardinality(E), "blocks")
   \cup CondA(E \ inner = {<<gs, b>> : b \in 1..Tr.n} \cup {<<b, ge>> : b \in 1..Tr.n}, "ends")
   \cup CondA(CASE Tr.type = "SEQUENTIAL" -> inner = {<<b, b + 1>> : b \in 1..(Tr.n - 1)}
               [] Tr.type = "PARALLEL" -> inner = {}
               [] OTHER -> \A e \in inner : e[1] < e[2], "shape")
Check == CASE Tr.kind = "run" -> Run [] Tr.kind = "graph" -> Graph [] OTHER -> Gen
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Tr.err = "" THEN Check ELSE {"exception:" \o Tr.err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
