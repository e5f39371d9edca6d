------------------------------ MODULE GenomeMC ------------------------------
(* Operators on chromosomes of a small project: they lead from valid chromosomes to valid chromosomes only.
   Mistake = "none" | "nochild" (a moved work ignores its children) | "middle" (the crossover cuts the middle of the other
   parent instead of filling in the missing works) | "rows" (the crossover exchanges crews without contractors)
   | "borders" (borders are lowered below the crews). *)
EXTENDS Genome
CONSTANTS Mistake, MaxSteps
VARIABLES a, b, n
vars == <<a, b, n>>
G == [H |-> 6, par |-> <<<<>>, <<1>>, <<1, 2>>, <<1>>, <<4>>, <<3, 5>>>>, prio |-> <<1, 1, 1, 1, 1, 1>>,
      lo |-> <<<<0>>, <<1>>, <<1>>, <<2>>, <<0>>, <<0>>>>, hi |-> <<<<0>>, <<3>>, <<1>>, <<2>>, <<0>>, <<0>>>>,
      spec |-> <<<<1, 1>>, <<1, 1>>, <<1, 0>>, <<1, 1>>, <<1, 1>>, <<1, 1>>>>, caps |-> <<<<3>>, <<2>>>>, has |-> <<<<1>>, <<1>>>>, nz |-> 0, ns |-> 1]
Orders == {<<1, 2, 3, 4, 5, 6>>, <<1, 4, 5, 2, 3, 6>>, <<1, 4, 2, 5, 3, 6>>}
Chrom(o, r2, c2, c4) == [order |-> o, res |-> <<<<0>>, <<r2>>, <<1>>, <<2>>, <<0>>, <<0>>>>, con |-> <<1, c2, 1, c4, 1, 1>>,
                         brd |-> <<<<3>>, <<2>>>>, zone |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>]
Init == /\ n = 0
        /\ \E o \in Orders, rc \in {<<1, 1>>, <<3, 1>>, <<1, 2>>, <<2, 2>>} : a = Chrom(o, rc[1], rc[2], 1)
        /\ \E o \in Orders, rc \in {<<1, 1>>, <<3, 1>>, <<1, 2>>, <<2, 2>>} : b = Chrom(o, rc[1], rc[2], 2)
MateOrder == \E hd \in 1..2, tl \in 1..2 :
   a' = [a EXCEPT !.order = IF Mistake = "middle" THEN SubSeq(a.order, 1, hd) \o SubSeq(b.order, hd + 1, 6 - tl) \o SubSeq(a.order, 6 - tl + 1, 6)
                            ELSE TwoPoint(a.order, b.order, hd, tl)] /\ UNCHANGED b
MateRows == \E S \in SUBSET (2..5) :
   /\ a' = [a EXCEPT !.res = [h \in 1..6 |-> IF h \in S THEN b.res[h] ELSE a.res[h]],
                     !.con = IF Mistake = "rows" THEN @ ELSE [h \in 1..6 |-> IF h \in S THEN b.con[h] ELSE a.con[h]],
                     !.brd = [x \in {1, 2} |-> <<Max2(a.brd[x][1], b.brd[x][1])>>]]
   /\ b' = [b EXCEPT !.res = [h \in 1..6 |-> IF h \in S THEN a.res[h] ELSE b.res[h]],
                     !.con = IF Mistake = "rows" THEN @ ELSE [h \in 1..6 |-> IF h \in S THEN a.con[h] ELSE b.con[h]],
                     !.brd = [x \in {1, 2} |-> <<Max2(a.brd[x][1], b.brd[x][1])>>]]
MoveOK(o, i, j) == LET r == RemoveAt_(o, i) IN
   /\ j \in 2..5
   /\ \A p \in DOMAIN r : r[p] \in Members(G.par[o[i]]) => p < j
   /\ Mistake = "nochild" \/ \A p \in DOMAIN r : o[i] \in Members(G.par[r[p]]) => p >= j
MutateOrder == \E i \in 2..5, j \in 2..5 : i # j /\ MoveOK(a.order, i, j) /\ a' = [a EXCEPT !.order = Move(a.order, i, j)] /\ UNCHANGED b
MutateRes == \E h \in 2..5, x \in 1..2, r \in 0..3 :
   /\ G.spec[h][x] = 1 /\ r >= G.lo[h][1] /\ r <= Min2(G.hi[h][1], a.brd[x][1])
   /\ a' = [a EXCEPT !.con[h] = x, !.res[h] = <<r>>] /\ UNCHANGED b
MutateBrd == \E x \in 1..2, v \in 0..3 :
   /\ v <= G.caps[x][1]
   /\ Mistake = "borders" \/ \A h \in H(G) : a.con[h] = x => a.res[h][1] <= v
   /\ a' = [a EXCEPT !.brd[x] = <<v>>] /\ UNCHANGED b
Next == n < MaxSteps /\ n' = n + 1 /\ (MateOrder \/ MateRows \/ MutateOrder \/ MutateRes \/ MutateBrd)
Spec == Init /\ [][Next]_vars
InvValid == Valid(G, a) /\ Valid(G, b)
InvCorrect == Correct(G, a) /\ Correct(G, b)
View == <<a, b>>
=============================================================================
