------------------------------- MODULE PureMC -------------------------------
(* All histories of runs (some failing) of two schedulers on two projects that share contractors; F is any function of
   configuration and contents.  Objects: 1, 2 graphs; 3 contractors; 4 the last schedule returned.
   Mistake: "leak" (a run changes the contractors it was given), "state" (a scheduler remembers its previous project),
   "failleak" (a run that is refused leaves a graph changed), "share" (a run changes the schedule returned before). *)
EXTENDS Pure
CONSTANTS Mistake, Steps
Cfg == {"a", "b"}
Contents == 0..1
Results == 0..1
VARIABLES obj, memo, f, st, last, k, log
vars == <<obj, memo, f, st, last, k, log>>
Dom == Cfg \X Contents \X Contents
Init == /\ obj = <<0, 1, 0, 0>> /\ memo = {} /\ k = 0 /\ st = [c \in Cfg |-> 0] /\ last = 0 /\ log = TRUE
        /\ f \in [Dom -> Results]
Bump(x) == 1 - x
Run(c, p) ==
   LET r == f[<<c, obj[p], obj[3]>>]
       res == IF Mistake = "state" /\ st[c] # 0 /\ st[c] # p THEN Bump(r) ELSE r
       o1 == IF Mistake = "leak" /\ c = "b" THEN [obj EXCEPT ![3] = Bump(@)] ELSE obj
       o2 == IF Mistake = "failleak" /\ r = 0 THEN [o1 EXCEPT ![p] = Bump(@)] ELSE o1
       o3 == [o2 EXCEPT ![4] = IF Mistake = "share" /\ k > 0 THEN Bump(@) ELSE @] IN
   /\ memo' = Remember(memo, c, Used(obj, <<p, 3>>), res)
   /\ st' = [st EXCEPT ![c] = p]
   /\ obj' = (IF k = 0 THEN [o3 EXCEPT ![4] = res] ELSE o3)
   /\ log' = Kept(obj, obj', IF k = 0 THEN {4} ELSE {})
(* the user replaces contents *)
Edit(i) == obj' = [obj EXCEPT ![i] = Bump(@)] /\ UNCHANGED <<memo, st>> /\ log' = TRUE
Next == k < Steps /\ k' = k + 1 /\ UNCHANGED <<f, last>> /\ ((\E c \in Cfg, p \in 1..2 : Run(c, p)) \/ \E i \in 1..3 : Edit(i))
Spec == Init /\ [][Next]_vars
InvFunctional == Functional(memo)
InvKept == log
=============================================================================
