-------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* A schedule as a table.  A row is [b: base work, k: stage (0.. in chain    *)
(* order), s: start, f: finish, vol, cost, svc].  A work cut into stages has  *)
(* one row per stage; uniting gives one row per work.                        *)
(***************************************************************************)
EXTENDS Util
(* an order of rows is fine: by start, parents first among equal starts *)
ByStart(rows, ord) == \A i, j \in DOMAIN ord : i < j => rows[ord[i]].s <= rows[ord[j]].s
ParentsFirst(rows, par, ord) ==      \* par: set of pairs of rows
   \A i, j \in DOMAIN ord : i < j /\ rows[ord[i]].s = rows[ord[j]].s => <<ord[j], ord[i]>> \notin par
Permutation(rows, ord) == Len(ord) = Len(rows) /\ Members(ord) = DOMAIN rows
StagesOf(rows, b) == {i \in DOMAIN rows : rows[i].b = b}
FirstOf(rows, b) == CHOOSE i \in StagesOf(rows, b) : \A j \in StagesOf(rows, b) : rows[i].k <= rows[j].k
LastOf(rows, b) == CHOOSE i \in StagesOf(rows, b) : \A j \in StagesOf(rows, b) : rows[i].k >= rows[j].k
Bases(rows) == {rows[i].b : i \in DOMAIN rows}
United(rows, b) == [b |-> b, s |-> rows[FirstOf(rows, b)].s, f |-> rows[LastOf(rows, b)].f,
   vol |-> SumOver(StagesOf(rows, b), LAMBDA i : rows[i].vol), cost |-> SumOver(StagesOf(rows, b), LAMBDA i : rows[i].cost)]
UnitedRows(rows) == {United(rows, b) : b \in Bases(rows)}
=============================================================================
