------------------------------- MODULE Genome -------------------------------
(***************************************************************************)
(* Chromosomes of the genetic scheduler.  G describes the project by its      *)
(* heads of inseparable chains, 1..G.H (1: start, some other: finish):        *)
(*  G.par[h]   seq of heads that must come before h      G.prio[h]  priority  *)
(*  G.lo[h][k], G.hi[h][k]  limits of the crew           G.spec[h][c] \in {0,1}*)
(*  G.caps[c][k]  workers employed       G.has[c][k] \in {0,1}                *)
(*  G.nz, G.ns  number of zones / zone statuses                              *)
(* Chromosome c: [order: seq of heads, res: H x K, con: H, brd: C x K,        *)
(*                zone: H x nz]                                              *)
(***************************************************************************)
EXTENDS Util
H(G) == 1..G.H
Perm(G, o) == Len(o) = G.H /\ Members(o) = H(G)
Topo(G, o) == \A i \in DOMAIN o : Members(G.par[o[i]]) \subseteq Members(SubSeq(o, 1, i))
Grouped(G, o) == \A i \in 1..(Len(o) - 1) : G.prio[o[i]] <= G.prio[o[i + 1]]
Crew(G, c) == \A h \in H(G) : \A k \in DOMAIN c.res[h] : G.lo[h][k] <= c.res[h][k] /\ c.res[h][k] <= G.hi[h][k]
Able(G, c) == \A h \in H(G) : /\ c.con[h] \in DOMAIN G.caps /\ G.spec[h][c.con[h]] = 1
                              /\ \A k \in DOMAIN c.res[h] : c.res[h][k] > 0 => G.has[c.con[h]][k] = 1
Within(G, c) == \A h \in H(G) : \A k \in DOMAIN c.res[h] : c.res[h][k] <= c.brd[c.con[h]][k]
Borders(G, c) == \A x \in DOMAIN G.caps : \A k \in DOMAIN G.caps[x] : 0 <= c.brd[x][k] /\ c.brd[x][k] <= G.caps[x][k]
ZonesOK(G, c) == \A h \in H(G) : \A z \in 1..G.nz : c.zone[h][z] \in 0..(G.ns - 1)
Wrong(G, c) == Cond(Perm(G, c.order), "permutation") \cup Cond(Perm(G, c.order) => Topo(G, c.order), "topological")
          \cup Cond(Perm(G, c.order) => Grouped(G, c.order), "groups")
          \cup Cond(Crew(G, c), "crew") \cup Cond(Able(G, c), "contractor") \cup Cond(Able(G, c) => Within(G, c), "border")
          \cup Cond(Borders(G, c), "borders") \cup Cond(ZonesOK(G, c), "zones")
Valid(G, c) == Wrong(G, c) = {}
(* what the library itself checks before it evaluates a chromosome *)
UsedC(G, c) == {c.con[h] : h \in H(G)}
Correct(G, c) == /\ Topo(G, c.order)
                 /\ \A h \in H(G) : \A p \in Members(G.par[h]) : G.prio[p] <= G.prio[h]
                 /\ \A h \in H(G) : G.spec[h][c.con[h]] = 1
                 /\ Within(G, c)
                 /\ \A x \in UsedC(G, c) : \A k \in DOMAIN G.caps[x] : c.brd[x][k] <= G.caps[x][k]
(* ------------------------------------------------------------- operators *)
SameOrder(a, b) == a.order = b.order
SameRes(a, b) == a.res = b.res /\ a.con = b.con
SameBrd(a, b) == a.brd = b.brd
(* one-point / uniform exchange of the rows of two parents *)
Exchanged(G, a, b, x, y) == \A h \in H(G) :
   \/ x.res[h] = a.res[h] /\ x.con[h] = a.con[h] /\ y.res[h] = b.res[h] /\ y.con[h] = b.con[h]
   \/ x.res[h] = b.res[h] /\ x.con[h] = b.con[h] /\ y.res[h] = a.res[h] /\ y.con[h] = a.con[h]
(* the two-point crossover of orders: keep the head and the tail of p, take the middle in the order of q *)
TwoPoint(p, q, hd, tl) ==
   LET n == Len(p)
       keep == Members(SubSeq(p, 1, hd)) \cup Members(SubSeq(p, n - tl + 1, n)) IN
   SubSeq(p, 1, hd) \o Filter(q, Members(q) \ keep) \o SubSeq(p, n - tl + 1, n)
RemoveAt_(o, i) == SubSeq(o, 1, i - 1) \o SubSeq(o, i + 1, Len(o))
InsertAt_(o, i, x) == SubSeq(o, 1, i - 1) \o <<x>> \o SubSeq(o, i, Len(o))
Move(o, i, j) == InsertAt_(RemoveAt_(o, i), j, o[i])
=============================================================================
