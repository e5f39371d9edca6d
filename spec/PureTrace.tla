----------------------------- MODULE PureTrace -----------------------------
(* Histories recorded from the code: seq of events
   [op: "run" | "other" | "reset", cfg, at: seq of slots, new: seq of slots, before, after: seq of contents, res];
   "reset": the objects are made anew (also: the history goes on in another process); contents are numbers. *)
EXTENDS Pure, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
RECURSIVE Go(_, _, _, _)
Go(i, obj, memo, bad) ==
   IF i > Len(Tr.ev) THEN bad ELSE
   LET e == Tr.ev[i]
       use == Used(e.before, e.at)
       b == TLCEval(bad \cup Cond(e.op = "reset" \/ e.before = obj, "between")
            \cup Cond(e.op = "reset" \/ Kept(e.before, e.after, Members(e.new)), "changed:" \o e.what)
            \cup Cond(e.op # "run" \/ ~Known(memo, e.cfg, use) \/ Result(memo, e.cfg, use) = e.res, (IF e.seg = 1 THEN "repeat:" ELSE "process:") \o e.what)) IN
   Go(i + 1, e.after, IF e.op = "run" THEN TLCEval(Remember(memo, e.cfg, use, e.res)) ELSE memo, b)
Check == Go(1, <<>>, {}, {})
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Tr.err = "" THEN Check ELSE {"exception:" \o Tr.err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
