----------------------------- MODULE FeasibleMC -----------------------------
(* Schedulers as players: tasks 1, 2, 3 (3 after 1) become ready, are started with any crew of any contractor that has the workers free,
   and end at any later time. A feasible project is always finished, whatever is chosen; an infeasible one never is.
   Mistake: "total" (workers of all contractors are taken together), "any" (one contractor per kind is enough), "noreturn". *)
EXTENDS Feasible
CONSTANTS Mistake, Full
Kinds == 1..2
Cs == 1..2
Amt == 0..2
VARIABLES req, want, caps, only, st, crew
vars == <<req, want, caps, only, st, crew>>
Tasks == 1..3
Reqs(t) == <<[k |-> 1, min |-> req[t][1], max |-> 2], [k |-> 2, min |-> req[t][2], max |-> 2]>>
Free == [k \in Kinds |-> -1]
Want(t) == IF t = 1 THEN want ELSE Free
Only(t) == IF t = 1 THEN only ELSE {}
Init == /\ req \in [Tasks -> {<<0, 1>>, <<1, 0>>, <<1, 2>>, <<2, 0>>}] /\ caps \in [Cs -> [Kinds -> IF Full THEN -1..2 ELSE {-1, 1, 2}]]
        /\ (Full \/ req[3] = <<1, 0>>)
        /\ want \in {Free, [k \in Kinds |-> IF k = 1 THEN 2 ELSE -1]} /\ only \in {{}, {1}}
        /\ st = [t \in Tasks |-> "wait"] /\ crew = [t \in Tasks |-> [c |-> 0, n |-> <<0, 0>>]]
Used(c, k) == SumOver({t \in Tasks : (st[t] = "run" \/ (Mistake = "noreturn" /\ st[t] = "done")) /\ crew[t].c = c}, LAMBDA t : crew[t].n[k])
Ready(t) == st[t] = "wait" /\ (t = 3 => st[1] = "done")
Start(t) == Ready(t) /\ \E c \in Cs, a \in Amt, b \in Amt :
   /\ (Only(t) = {} \/ c \in Only(t)) /\ a >= req[t][1] /\ b >= req[t][2] /\ (Want(t)[1] >= 0 => a = Want(t)[1])
   /\ caps[c][1] - Used(c, 1) >= a /\ caps[c][2] - Used(c, 2) >= b
   /\ st' = [st EXCEPT ![t] = "run"] /\ crew' = [crew EXCEPT ![t] = [c |-> c, n |-> <<a, b>>]]
End(t) == st[t] = "run" /\ st' = [st EXCEPT ![t] = "done"] /\ UNCHANGED crew
Next == (\E t \in Tasks : Start(t) \/ End(t)) /\ UNCHANGED <<req, want, caps, only>>
Spec == Init /\ [][Next]_vars
All == {[reqs |-> Reqs(t), want |-> Want(t), only |-> Only(t)] : t \in Tasks}
Judge == CASE Mistake = "total" -> \A x \in All : \A i \in 1..2 : caps[1][i] + caps[2][i] >= Amount(x.reqs[i], x.want)
           [] Mistake = "any" -> \A x \in All : \A i \in 1..2 : \E c \in Cs : caps[c][i] >= Amount(x.reqs[i], x.want)
           [] OTHER -> FeasibleProject(All, caps)
Done == \A t \in Tasks : st[t] = "done"
Stuck == ~Done /\ ~ENABLED Next
InvFinish == Judge => ~Stuck
InvNever == ~Judge => ~Done
=============================================================================
