-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Scheduling as a function of its inputs.  Objects (graphs, specifications, *)
(* contractors, landscapes, returned schedules) have contents; a run reads    *)
(* some of them and gives a result.                                           *)
(*  obj: seq of contents of the objects;  memo: set of [cfg, use, res]         *)
(*  cfg names the scheduler with its parameters and seed, use the contents     *)
(*  it was given, res the result (a schedule, or a refusal).                   *)
(***************************************************************************)
EXTENDS Util
Used(obj, at) == [i \in DOMAIN at |-> obj[at[i]]]
(* one result per configuration and inputs *)
Known(memo, cfg, use) == \E m \in memo : m.cfg = cfg /\ m.use = use
Result(memo, cfg, use) == (CHOOSE m \in memo : m.cfg = cfg /\ m.use = use).res
Functional(memo) == \A x, y \in memo : x.cfg = y.cfg /\ x.use = y.use => x.res = y.res
Remember(memo, cfg, use, res) == memo \cup {[cfg |-> cfg, use |-> use, res |-> res]}
(* only the slots in `new` may change (objects made by the operation itself) *)
Kept(before, after, new) == \A i \in DOMAIN before : i \notin new => after[i] = before[i]
=============================================================================
