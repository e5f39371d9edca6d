------------------------------- MODULE TableMC -------------------------------
(* Two machines over small schedules.
   1. Ordering: rows are taken by start; a class of equal starts is emitted in rounds, each round the rows without waiting parents.
   2. Uniting: rows of a work are united; the time, volume, cost and order of the project must be those of its stages.
   Mistakes: "sortid" (equal starts listed in order of rows), "lastvol" (volume of the last stage), "mins" (start of the last stage). *)
EXTENDS Table
CONSTANTS Mistake, N, Horizon
VARIABLES rows, par, ord, todo
vars == <<rows, par, ord, todo>>
Forward == {q \in (1..N) \X (1..N) : q[1] # q[2]}
Acyclic(p) == \E r \in Permutations(1..N) : \A q \in p : r[q[1]] < r[q[2]]
(* N rows: works of one or two stages: row i belongs to work b[i] *)
BaseMaps == {m \in [1..N -> 1..N] : m[1] = 1 /\ \A i \in 2..N : m[i] \in {m[i-1], m[i-1] + 1}}
Stage(m, i) == Cardinality({j \in 1..(i-1) : m[j] = m[i]})
Init == /\ \E m \in BaseMaps, s \in [1..N -> 0..Horizon], d \in [1..N -> 0..1] :
             rows = [i \in 1..N |-> [b |-> m[i], k |-> Stage(m, i), s |-> s[i], f |-> s[i] + d[i], vol |-> i, cost |-> 2 * i]]
        /\ par \in {p \in SUBSET Forward : Cardinality(p) <= 2 /\ Acyclic(p)}
        /\ \A i, j \in 1..N : rows[i].b = rows[j].b /\ rows[j].k = rows[i].k + 1 => rows[j].s >= rows[i].f /\ <<i, j>> \in par
        /\ \A q \in par : rows[q[2]].s >= rows[q[1]].f
        /\ ord = <<>> /\ todo = {}
Left == DOMAIN rows \ Members(ord)
Class == {i \in Left : \A j \in Left : rows[i].s <= rows[j].s}
Ready == {i \in Class : Mistake = "sortid" \/ \A j \in Class : <<j, i>> \notin par}
Emit == Left # {} /\ \E i \in Ready : (Mistake = "sortid" => i = SetMin(Class)) /\ ord' = Append(ord, i) /\ UNCHANGED <<rows, par, todo>>
Spec == Init /\ [][Emit]_vars
InvOrder == ByStart(rows, ord) /\ ParentsFirst(rows, par, ord)
InvProgress == Left # {} => Ready # {}
U(b) == LET x == United(rows, b) IN
   IF Mistake = "lastvol" THEN [x EXCEPT !.vol = rows[LastOf(rows, b)].vol] ELSE IF Mistake = "mins" THEN [x EXCEPT !.s = rows[LastOf(rows, b)].s] ELSE x
InvUnited == ord = <<>> =>
   /\ SetMax({U(b).f : b \in Bases(rows)}) = SetMax({rows[i].f : i \in DOMAIN rows})
   /\ SumOver(Bases(rows), LAMBDA b : U(b).vol) = SumOver(DOMAIN rows, LAMBDA i : rows[i].vol)
   /\ SumOver(Bases(rows), LAMBDA b : U(b).cost) = SumOver(DOMAIN rows, LAMBDA i : rows[i].cost)
   /\ \A i \in DOMAIN rows : U(rows[i].b).s <= rows[i].s /\ rows[i].f <= U(rows[i].b).f
=============================================================================
