-------------------------------- MODULE Hybrid --------------------------------
(***************************************************************************)
(* A cycle of population schedulers.  A population is a sequence of           *)
(* individuals; val(x) is the value of one (less is better).                  *)
(*  "look":  the best value is compared with the one seen before: K equal      *)
(*           ones in a row end the run with the best of this population        *)
(*  "hand":  the schedulers of the cycle are given the population one after    *)
(*           another, each what the one before made                           *)
(***************************************************************************)
EXTENDS Util
Least(pop, val(_)) == CHOOSE v \in {val(pop[i]) : i \in DOMAIN pop} : \A i \in DOMAIN pop : v <= val(pop[i])
IsBest(x, pop, val(_)) == x \in Members(pop) /\ val(x) = Least(pop, val)
(* a state: [pop, at: 0 look | 1..n the scheduler whose turn it is, cur: seq (empty: nothing seen yet), flat: equal looks in a row, over] *)
First(p) == [pop |-> p, at |-> 0, cur |-> <<>>, flat |-> 0, over |-> FALSE]
Look(s, K, val(_)) ==
   LET v == Least(s.pop, val)
       f == IF s.cur = <<v>> THEN s.flat + 1 ELSE 0 IN
   [s EXCEPT !.cur = <<v>>, !.flat = f, !.over = (s.cur = <<v>> /\ f = K), !.at = IF s.cur = <<v>> /\ f = K THEN 0 ELSE 1]
Hand(s, n, p) == [s EXCEPT !.pop = p, !.at = IF s.at = n THEN 0 ELSE s.at + 1]
=============================================================================
