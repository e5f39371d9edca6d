----------------------------- MODULE GenomeTrace -----------------------------
(* Operations of the genetic scheduler on chromosomes. A trace: [G, ev: seq of events, err].  Events:
   [op: "mate"|"mate_order"|"mate_resources"|"mutate"|"mutate_order"|"mutate_resources"|"mutate_borders"|"zones",
    opt, before: seq, after: seq, kept: 0|1]
   [op: "judge", c, ok]                     the library's own check
   [op: "encode"|"decode", c, rows: seq of [h, s, f, c, team: seq of [k, n]]]  *)
EXTENDS Genome, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, bad
vars == <<t, l, bad>>
Tr == Traces[t]
G == Tr.G
E == Tr.ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Team(r, k) == SumOver({j \in DOMAIN r.team : r.team[j].k = k}, LAMBDA j : r.team[j].n)
Manned(c, h) == \E k \in DOMAIN c.res[h] : c.res[h][k] > 0
RowsFit(c, rows) == \A i \in DOMAIN rows :
   /\ \A k \in DOMAIN c.res[rows[i].h] : Team(rows[i], k) = c.res[rows[i].h][k]
   /\ Manned(c, rows[i].h) => rows[i].c = c.con[rows[i].h]
Held(c, rows) == \A i \in DOMAIN rows : (rows[i].s < rows[i].f /\ rows[i].c > 0) => \A k \in DOMAIN c.res[rows[i].h] :
   SumOver({j \in DOMAIN rows : rows[j].c = rows[i].c /\ rows[j].s <= rows[i].s /\ rows[i].s < rows[j].f}, LAMBDA j : Team(rows[j], k))
   <= c.brd[rows[i].c][k]
Fails ==
   CASE E.op = "judge" -> Cond((E.ok = 1) = Correct(G, E.c), "judge")
     [] E.op = "encode" -> Cond(RowsFit(E.c, E.rows), "encode") \cup Wrong(G, E.c)
     [] E.op = "decode" -> Cond(RowsFit(E.c, E.rows), "decode") \cup Cond(Held(E.c, E.rows), "decodeborder")
                           \cup Cond({E.rows[i].h : i \in DOMAIN E.rows} = H(G), "decodeall")
     [] E.op = "roundtrip" -> Cond(\A h \in H(G) : Manned(E.c, h) => E.c.con[h] = E.d.con[h], "roundtripcontractor")
                              \cup Cond(E.c.res = E.d.res, "roundtrip")
     [] OTHER ->
        UNION {{E.op \o "." \o w : w \in Wrong(G, E.after[i])} : i \in DOMAIN E.after}
        \cup Cond(E.kept = 1, "kept")
        \cup (IF E.op \in {"mate_order", "mutate_order"} THEN Cond(\A i \in DOMAIN E.after : SameRes(E.before[i], E.after[i]) /\ SameBrd(E.before[i], E.after[i]), "frame") ELSE {})
        \cup (IF E.op \in {"mate_resources", "mutate_resources", "mutate_borders"} THEN Cond(\A i \in DOMAIN E.after : SameOrder(E.before[i], E.after[i]), "frame") ELSE {})
        \cup (IF E.op = "mutate_resources" THEN Cond(\A i \in DOMAIN E.after : SameBrd(E.before[i], E.after[i]), "frame") ELSE {})
        \cup (IF E.op = "mutate_borders" THEN Cond(\A i \in DOMAIN E.after : SameRes(E.before[i], E.after[i]), "frame") ELSE {})
        \cup (IF E.op \in {"mate", "mate_resources"} THEN Cond(Exchanged(G, E.before[1], E.before[2], E.after[1], E.after[2]), "exchange") ELSE {})
        \cup (IF E.op \in {"mate", "mate_resources"} /\ E.opt = 0 THEN Cond(\A i \in DOMAIN E.after : SameBrd(E.before[i], E.after[i]), "frame") ELSE {})
Step == /\ l <= Len(Tr.ev)
        /\ bad' = bad \cup {f \o "@" \o ToString(l) : f \in Fails}
        /\ l' = l + 1 /\ UNCHANGED t
Finish == /\ l = Len(Tr.ev) + 1
          /\ PrintT(<<"VERDICT", t, bad \cup Cond(Tr.err = "", "exception:" \o Tr.err)>>)
          /\ l' = l + 1 /\ UNCHANGED <<t, bad>>
TraceNext == Step \/ Finish
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
