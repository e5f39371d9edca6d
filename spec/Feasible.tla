------------------------------ MODULE Feasible ------------------------------
(***************************************************************************)
(* Which projects can be scheduled at all.  Workers come back when a work is *)
(* done, so every task (head of an inseparable chain) can be judged alone.    *)
(*  reqs: seq of [k, min, max];  want: seq (kind) of assigned crew, -1: free   *)
(*  only: set of permitted contractors, {} = all;  caps[c][k], -1: no such kind*)
(***************************************************************************)
EXTENDS Util
Amount(q, want) == IF want[q.k] >= 0 THEN Max2(q.min, want[q.k]) ELSE q.min
Able(reqs, want, only, caps, c) == /\ only = {} \/ c \in only
                                   /\ \A i \in DOMAIN reqs : caps[c][reqs[i].k] >= Amount(reqs[i], want)
CanDo(reqs, want, only, caps) == \E c \in DOMAIN caps : Able(reqs, want, only, caps, c)
(* heads: set of tasks, each [reqs, want, only] *)
FeasibleProject(tasks, caps) == \A t \in tasks : CanDo(t.reqs, t.want, t.only, caps)
=============================================================================
