------------------------------- MODULE GraphMC -------------------------------
(* Every history of edits starting from every small graph.  Invariants: the graph stays well formed, and for works that were there
   all the time the order of any two never changes except by an insertion between them.
   Mistake: "nobypass", "one" (only the named work of a task is removed), "roots" (edges of the slave's start are forgotten). *)
EXTENDS Graph
CONSTANTS Mistake, Steps, Mid
VARIABLES g, old, k
vars == <<g, old, k>>
W == 1..(Mid + 2)
F == Mid + 2
Closed(E) == E \cup {FS(1, x) : x \in {y \in 2..(Mid + 1) : ~ \E e \in Deps(E) : e.c = y}}
               \cup {FS(x, F) : x \in {y \in 2..(Mid + 1) : ~ \E e \in Deps(E) : e.p = y}}
Pairs == {<<p, c>> \in (2..(Mid + 1)) \X (2..(Mid + 1)) : p < c}
Edge(q, t) == IF t = "no" THEN {} ELSE {[p |-> q[1], c |-> q[2], t |-> t, lag |-> 0]}
Graphs == {G \in {[n |-> W, s |-> 1, f |-> F, e |-> Closed(UNION {Edge(q, h[q]) : q \in Pairs})] : h \in [Pairs -> {"no", "FS", "IFS", "SS"}]} : WF(G)}
Slave(i) == [n |-> {100 * i, 100 * i + 1, 100 * i + 2, 100 * i + 3}, s |-> 100 * i, f |-> 100 * i + 3,
             e |-> {FS(100 * i, 100 * i + 1), [p |-> 100 * i + 1, c |-> 100 * i + 2, t |-> "IFS", lag |-> 0], FS(100 * i + 2, 100 * i + 3)}]
Init == g \in Graphs /\ old = g /\ k = 0
Del(x) == IF Mistake = "nobypass" THEN [n |-> g.n \ Task(g, x), s |-> g.s, f |-> g.f, e |-> {e \in g.e : e.p \notin Task(g, x) /\ e.c \notin Task(g, x)}]
          ELSE IF Mistake = "one" THEN [n |-> g.n \ {x}, s |-> g.s, f |-> g.f, e |-> {e \in g.e : e.p # x /\ e.c # x} \cup
              {FS(a, b) : a \in Pred(IFS(g.e), {x}), b \in Succ(Deps(g.e), {x})}]
          ELSE Delete(g, x)
Un(a, b, h) == IF Mistake = "roots" THEN [Union(g, a, b, h) EXCEPT !.e = @ \ {FS(a, c) : c \in h.n}] ELSE Union(g, a, b, h)
Next == k < Steps /\ k' = k + 1 /\ UNCHANGED old /\
   (\/ \E x \in g.n \ {g.s, g.f} : g' = Del(x)
    \/ \E a \in g.n, b \in g.n : /\ b \in After(Deps(g.e), a)
                                 /\ \/ g' = Insert(g, 10 + k, {FS(a, 10 + k), FS(10 + k, b)})
                                    \/ g' = Un(a, b, Slave(k + 1)))
Spec == Init /\ [][Next]_vars
InvWF == WF(g)
InvOrder == \A x \in old.n \cap g.n : After(Deps(old.e), x) \cap g.n = After(Deps(g.e), x) \cap old.n
InvTask == \A x \in old.n : x \in g.n => Task(old, x) \subseteq g.n
=============================================================================
