------------------------------- MODULE Evolve -------------------------------
(***************************************************************************)
(* The genetic search as a machine over evaluated individuals.  A value is a  *)
(* sequence of numbers, smaller is better.  Without a deadline: evaluate the   *)
(* first population, then generations of offspring; the best of everything    *)
(* evaluated is kept and returned.  With a deadline: first by time until it is *)
(* met by all (or the generations are used up), then - if it was met - by the  *)
(* goal among individuals that meet it.                                       *)
(***************************************************************************)
EXTENDS Util
Dom(x, y) == (\A i \in DOMAIN x : x[i] <= y[i]) /\ \E i \in DOMAIN x : x[i] < y[i]
Front(V) == {v \in V : ~ \E u \in V : Dom(u, v)}
RECURSIVE LexLess(_, _, _)
LexLess(x, y, i) == IF i > Len(x) THEN FALSE ELSE x[i] < y[i] \/ (x[i] = y[i] /\ LexLess(x, y, i + 1))
(* number of entries of the sequence s that are better than v *)
Better(s, v) == Cardinality({i \in DOMAIN s : LexLess(s[i], v, 1)})
Same(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
(* best is the bag of the n best entries of all *)
IsBestOf(best, all, n) ==
   /\ Len(best) = Min2(n, Len(all))
   /\ \A i \in DOMAIN best : Same(best, best[i]) = Min2(Same(all, best[i]), n - Better(all, best[i]))
=============================================================================
