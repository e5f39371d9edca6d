--------------------------- MODULE TimelineTrace ---------------------------
(* Recorded calls on real timelines, checked against Timeline. A trace: [kind: "mom"|"jit", cap, ev, err]. *)
EXTENDS Timeline, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, R, bag, bad
vars == <<t, l, R, bag, bad>>
Tr == Traces[t]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ R = <<>> /\ bag = EmptyBag(Traces[t].cap) /\ bad = {}
E == Tr.ev[l]
If(c, name) == IF c THEN {} ELSE {name \o "@" \o ToString(l)}
Find ==
   IF Tr.kind = "mom"
   THEN If(E.st = MomEarliest(Tr.cap, R, E.team, E.pt, E.ex, E.ind), "earliest")
        \cup If(E.st >= E.pt, "parent")
        \cup If(E.ex = 0 \/ E.team = <<>> \/ FreeDuring(Tr.cap, R, E.team, E.st, E.ex), "feasible")
        \cup If(E.ft = E.st + E.ex, "finish") \cup If(E.st2 = E.st, "pure")
        \cup If(E.want < 0 \/ E.want = E.st, "replay")
   ELSE If(E.st = JitFind(bag, E.team, E.ind), "release")
        \cup If(E.st2 = E.st, "pure") \cup If(E.want < 0 \/ E.want = E.st, "replay")
Can ==
   LET free == IF Tr.kind = "mom" THEN IF E.ind = 1 THEN MomEarliest(Tr.cap, R, E.team, E.at, E.ex, 1) = E.at ELSE FreeDuring(Tr.cap, R, E.team, E.at, E.ex)
               ELSE JitFind(bag, E.team, E.ind) <= E.at IN
   If((E.res = 1) = (free /\ E.ready = 1), "can")
(* rows of one placement (a chain): [s, f] in order; the crew is held from the first start to the last finish *)
Put == LET first == E.rows[1].s
           last == E.rows[Len(E.rows)].f IN
       If(first = E.at, "placedat") \cup If(E.till < 0 \/ last = E.till, "placedtill")
       \cup If(\A i \in 1..(Len(E.rows) - 1) : E.rows[i].f <= E.rows[i + 1].s, "order")
       \cup If(first = last \/ E.team = <<>> \/ FreeDuring(Tr.cap, R, E.team, first, last - first), "overcommit")
Step == /\ l <= Len(Tr.ev)
        /\ bad' = bad \cup (CASE E.op = "find" -> Find [] E.op = "can" -> Can [] E.op = "put" -> Put)
        /\ IF E.op = "put"
           THEN /\ R' = IF E.rows[1].s = E.rows[Len(E.rows)].f THEN R
                        ELSE Append(R, [s |-> E.rows[1].s, f |-> E.rows[Len(E.rows)].f, team |-> E.team, ind |-> E.ind])
                /\ bag' = IF Tr.kind = "jit" THEN JitUpdate(bag, E.team, E.rows[Len(E.rows)].f, E.ind) ELSE bag
           ELSE UNCHANGED <<R, bag>>
        /\ l' = l + 1 /\ UNCHANGED t
Finish == /\ l = Len(Tr.ev) + 1
          /\ PrintT(<<"VERDICT", t, bad \cup (IF Tr.err = "" THEN {} ELSE {"exception:" \o Tr.err})>>)
          /\ l' = l + 1 /\ UNCHANGED <<t, R, bag, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
=============================================================================
