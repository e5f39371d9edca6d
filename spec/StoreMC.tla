------------------------------- MODULE StoreMC -------------------------------
(* All histories of saving, loading, copying and changing two objects with two saved forms.
   Mistake: "consume" (a saved form loses something when it is loaded), "alias" (changing an object changes what was saved from it),
   "shallow" (changing a copy changes the original). *)
EXTENDS Store
CONSTANTS Mistake, Steps
VARIABLES live, saved, want, k, from
vars == <<live, saved, want, k, from>>
Fields == {"a", "b", "i"}
Ign == {"i"}
Nil == [c |-> "none", v |-> [f \in Fields |-> "None"]]
Val(x, y) == [c |-> "C", v |-> ("a" :> x @@ "b" :> y @@ "i" :> x)]
Init == live = <<Val("x", "y"), Val("y", "y")>> /\ saved = <<Nil, Nil>> /\ want = <<Nil, Nil>> /\ k = 0 /\ from = <<0, 0>>
DoSave == \E o \in 1..2, s \in 1..2 : /\ live[o].c = "C"
             /\ saved' = Save(live, saved, o, s, Ign) /\ want' = [want EXCEPT ![s] = Strip(live[o], Ign)]
             /\ from' = [from EXCEPT ![s] = o] /\ UNCHANGED live
DoLoad == \E s \in 1..2, o \in 1..2 : /\ saved[s].c = "C" /\ live' = Load(live, saved, s, o)
             /\ saved' = (IF Mistake = "consume" THEN [saved EXCEPT ![s].v["b"] = "None"] ELSE saved)
             /\ from' = [q \in 1..2 |-> IF from[q] = o THEN 0 ELSE from[q]] /\ UNCHANGED want
DoSet == \E o \in 1..2, f \in Fields, x \in {"x", "z"} : /\ live' = Set(live, o, f, x)
             /\ saved' = (IF Mistake = "alias" THEN [s \in 1..2 |-> IF from[s] = o /\ f \notin Ign THEN [saved[s] EXCEPT !.v[f] = x] ELSE saved[s]] ELSE saved)
             /\ UNCHANGED <<want, from>>
Next == k < Steps /\ k' = k + 1 /\ (DoSave \/ DoLoad \/ DoSet)
Spec == Init /\ [][Next]_vars
InvSaved == \A s \in 1..2 : saved[s] = want[s]
InvIgnored == \A s \in 1..2 : saved[s].v["i"] = "None"
=============================================================================
