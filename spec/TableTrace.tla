------------------------------ MODULE TableTrace ------------------------------
(* Tables recorded from the code. A trace:
   rows: seq of [b: base number, k: stage, s, f, vol, cost, svc: 0|1, id, name, gname, bid, bname, bgname: texts, crew, con, ex (a further naming column): texts];
   par: seq of <<row, row>>; tab: order of the rows in the table; cols: seq (by table row) of
     [id, name, con, crew, gname, cost, vol, s, f, d]; dict: seq of <<id, row>>; exec: time;
   pure: seq of ids; uni: seq of [b, s, f, vol, cost, id, name, gname, crew, con, d, ws, wf, wvol, wcost, wid: same values of the work object];
   uni2: as uni, united once more; uexec: time; mer: seq of [b, s, f, vol, cost, id, name, gname, crew];
   after: cols read again at the end; err *)
EXTENDS Table, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
R == Tr.rows
Par == Members(Tr.par)
Col(i) == [id |-> R[i].id, name |-> R[i].name, con |-> R[i].con, crew |-> R[i].crew, gname |-> R[i].gname, cost |-> R[i].cost,
           vol |-> R[i].vol, s |-> R[i].s, f |-> R[i].f, ex |-> R[i].ex, d |-> R[i].f - R[i].s]
Last(b) == R[LastOf(R, b)]
UniOk(u) ==
   LET x == United(R, u.b)
       l == Last(u.b) IN
   Cond(u.s = x.s, "start") \cup Cond(u.f = x.f, "finish") \cup Cond(u.vol = x.vol, "volume") \cup Cond(u.cost = x.cost, "cost")
   \cup Cond(u.id = l.bid, "id") \cup Cond(u.name = l.bname /\ u.gname = l.bgname, "name") \cup Cond(u.crew = l.crew, "crew") 
Times(seq) == \A i, j \in DOMAIN seq : i < j => seq[i].s <= seq[j].s
Bs(seq) == {seq[i].b : i \in DOMAIN seq}
One(seq, tag) ==
   Cond(Bs(seq) = Bases(R) /\ Len(seq) = Cardinality(Bases(R)), tag \o "works")
   \cup (IF Bs(seq) \subseteq Bases(R) THEN {tag \o c : c \in UNION {UniOk(seq[i]) : i \in DOMAIN seq}} ELSE {})
   \cup Cond(Times(seq), tag \o "order")
Check ==
   Cond(Permutation(R, Tr.tab), "rows")
   \cup (IF ~Permutation(R, Tr.tab) THEN {} ELSE
      Cond(ByStart(R, Tr.tab), "bystart") \cup Cond(ParentsFirst(R, Par, Tr.tab), "parentsfirst")
      \cup Cond(Len(Tr.cols) = Len(R) /\ \A i \in DOMAIN Tr.cols : Tr.cols[i] = Col(Tr.tab[i]), "columns")
      \cup Cond(Members(Tr.dict) = {<<R[i].id, i>> : i \in DOMAIN R} /\ Len(Tr.dict) = Len(R), "dict")
      \cup Cond(Tr.exec = SetMax({R[i].f : i \in DOMAIN R}), "exec")
      \cup Cond(Tr.pure = SelectSeq([i \in DOMAIN Tr.tab |-> IF R[Tr.tab[i]].svc = 1 THEN "" ELSE R[Tr.tab[i]].id], LAMBDA x : x # ""), "pure"))
   \cup One(Tr.uni, "united:") \cup One(Tr.uni2, "twice:") \cup One(Tr.mer, "merged:")
   \cup Cond(Tr.uexec = SetMax({R[i].f : i \in DOMAIN R}), "united:exec")
   \cup Cond(\A i \in DOMAIN Tr.uni : Tr.uni[i].d = Tr.uni[i].f - Tr.uni[i].s /\ Tr.uni[i].con = Last(Tr.uni[i].b).con /\ Tr.uni[i].ex = Last(Tr.uni[i].b).ex, "united:row")
   \cup Cond(\A i \in DOMAIN Tr.uni : LET u == Tr.uni[i] IN u.ws = u.s /\ u.wf = u.f /\ u.wvol = u.vol /\ u.wcost = u.cost /\ u.wid = u.id, "united:object")
   \cup Cond(Tr.after = Tr.cols, "source")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Tr.err = "" THEN Check ELSE {"exception:" \o Tr.err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
