-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Work graphs and the operations that edit them.                              *)
(*  g = [n: set of works, e: set of edges [p, c, t, lag], s, f: works]         *)
(* Edge types: FS IFS FFS (dependencies), SS FF (weak).  Works in a chain of   *)
(* IFS edges form one task.                                                    *)
(***************************************************************************)
EXTENDS Util
Dep(e) == e.t \in {"FS", "IFS", "FFS"}
Deps(E) == {e \in E : Dep(e)}
Succ(E, X) == {e.c : e \in {x \in E : x.p \in X}}
Pred(E, X) == {e.p : e \in {x \in E : x.c \in X}}
RECURSIVE ReachFrom(_, _)
ReachFrom(E, X) == LET Y == X \cup Succ(E, X) IN IF Y = X THEN X ELSE ReachFrom(E, Y)
RECURSIVE CoReach(_, _)
CoReach(E, X) == LET Y == X \cup Pred(E, X) IN IF Y = X THEN X ELSE CoReach(E, Y)
After(E, x) == ReachFrom(E, Succ(E, {x}))          \* works that follow x
Acyclic(E) == \A e \in E : e.p \notin ReachFrom(E, {e.c})
IFS(E) == {e \in E : e.t = "IFS"}
Task(g, x) == ReachFrom(IFS(g.e), CoReach(IFS(g.e), {x}))
WF(g) == /\ \A e \in g.e : e.p \in g.n /\ e.c \in g.n
         /\ Acyclic(g.e)
         /\ \A x \in g.n : x # g.s => \E e \in Deps(g.e) : e.c = x
         /\ \A x \in g.n : x # g.f => \E e \in Deps(g.e) : e.p = x
         /\ \A e \in g.e : e.c # g.s /\ e.p # g.f
         /\ \A a \in IFS(g.e), b \in IFS(g.e) : (a.p = b.p \/ a.c = b.c) => a = b
FS(p, c) == [p |-> p, c |-> c, t |-> "FS", lag |-> 0]
(* the task of x is removed; works that were connected only through it stay in order *)
Delete(g, x) ==
   LET C == Task(g, x)
       D == Deps(g.e)
       In == {e \in D : e.p \in C /\ e.c \in C}
       out(p) == Succ(D, ReachFrom(In, Succ(D, {p}) \cap C)) \ C IN
   [n |-> g.n \ C, s |-> g.s, f |-> g.f,
    e |-> {e \in g.e : e.p \notin C /\ e.c \notin C} \cup UNION {{FS(p, c) : c \in IF Succ(D, {p}) \cap C = {} THEN {} ELSE out(p)} : p \in g.n \ C}]
(* a new work x with the given incoming and outgoing edges *)
Insert(g, x, E) == [n |-> g.n \cup {x}, s |-> g.s, f |-> g.f, e |-> g.e \cup E]
(* the works of h are put between a and b of g: a takes the place of the start of h, b of its finish *)
Union(g, a, b, h) ==
   LET r(x) == IF x = h.s THEN a ELSE IF x = h.f THEN b ELSE x IN
   [n |-> g.n \cup (h.n \ {h.s, h.f}), s |-> g.s, f |-> g.f,
    e |-> g.e \cup {[p |-> r(e.p), c |-> r(e.c), t |-> e.t, lag |-> e.lag] : e \in h.e}]
(* the whole of h is put after x, before one of the works that follow x directly (if there is any) *)
Obstruct(g, h, x) ==
   LET base == g.e \cup h.e \cup {FS(x, h.s)}
       kids == Succ(Deps(g.e), {x}) IN
   {[n |-> g.n \cup h.n, s |-> g.s, f |-> g.f, e |-> E] : E \in IF kids = {} THEN {base} ELSE {base \cup {FS(h.f, c)} : c \in kids}}
=============================================================================
