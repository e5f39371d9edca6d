-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Objects, their saved forms and the operations between them.                 *)
(*  A value is [c: class, v: field values]; Ign(c) are the fields of class c   *)
(*  that are deliberately not saved.                                           *)
(*  live: objects by name; saved: saved forms by name (each a value).          *)
(***************************************************************************)
EXTENDS Util
Strip(val, ign) == [c |-> val.c, v |-> [f \in DOMAIN val.v |-> IF f \in ign THEN "None" ELSE val.v[f]]]
Save(live, saved, o, s, ign) == [saved EXCEPT ![s] = Strip(live[o], ign)]
Load(live, saved, s, o) == [live EXCEPT ![o] = saved[s]]
Copy(live, a, b) == [live EXCEPT ![b] = live[a]]
Set(live, o, f, x) == [live EXCEPT ![o].v[f] = x]
=============================================================================
