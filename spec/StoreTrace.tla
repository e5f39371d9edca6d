------------------------------ MODULE StoreTrace ------------------------------
(* Histories of one class, recorded from the code.  A trace: [c, ign: seq of field names, fields: seq of names, first: seq of texts,
   steps: seq of [op: "save"|"load"|"copy"|"set"|"check", o, b: object numbers, s: number of the saved form, f: field number, x: text,
                  all: seq (by object) of seq of texts (by field) -- every live object after the step,
                  out: seq (by saved form) of texts after the step], err] *)
EXTENDS Store, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t
Tr == Traces[t]
Ign == Members(Tr.ign)
Names == Tr.fields
AsVal(seq) == [c |-> Tr.c, v |-> [f \in Members(Names) |-> seq[Idx(Names, f)]]]
Nil == [c |-> "none", v |-> [f \in Members(Names) |-> "None"]]
NO == 4
NS == 3
St(live, saved, texts) == [live |-> live, saved |-> saved, texts |-> texts]
Step(st, e) ==
   CASE e.op = "save" -> St(st.live, Save(st.live, st.saved, e.o, e.s, Ign), [st.texts EXCEPT ![e.s] = e.out[e.s]])
     [] e.op = "load" -> St(Load(st.live, st.saved, e.s, e.o), st.saved, st.texts)
     [] e.op = "copy" -> St(Copy(st.live, e.o, e.b), st.saved, st.texts)
     [] e.op = "set" -> St(Set(st.live, e.o, Names[e.f], e.x), st.saved, st.texts)
     [] OTHER -> st
RECURSIVE Run(_, _)
Run(st, i) ==
   IF i > Len(Tr.steps) THEN {} ELSE
   LET e == Tr.steps[i]
       n == Step(st, e)
       bad == {o \in 1..NO : n.live[o].c # "none" /\ n.live[o] # AsVal(e.all[o])} IN
   Cond(bad = {}, "value@" \o e.op \o ToString(i))
   \cup Cond(\A q \in 1..NS : n.texts[q] = e.out[q], "savedchanged@" \o ToString(i))
   \cup Cond(e.op = "save" => \A q \in 1..NS : q # e.s /\ n.saved[q] = n.saved[e.s] => n.texts[q] = n.texts[e.s], "unstable@" \o ToString(i))
   \cup (IF bad # {} THEN {} ELSE Run(n, i + 1))
Start == St([o \in 1..NO |-> IF o = 1 THEN AsVal(Tr.first) ELSE Nil], [s \in 1..NS |-> Nil], [s \in 1..NS |-> ""])
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Tr.err = "" THEN Run(Start, 1) ELSE {"exception:" \o Tr.err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
