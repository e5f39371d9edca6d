-------------------------------- MODULE Roads --------------------------------
(* A net of places 1..n and roads [a, b, len, bw] (both directions); two places may be joined by several roads. *)
EXTENDS Util
INF == 100000000
Joins(r, x, y) == (r.a = x /\ r.b = y) \/ (r.a = y /\ r.b = x)
Next1(roads, D, d) == [x \in DOMAIN d |-> SetMin({d[x]} \cup {d[roads[i].a] + roads[i].len : i \in {i \in D : roads[i].b = x}}
                                                          \cup {d[roads[i].b] + roads[i].len : i \in {i \in D : roads[i].a = x}})]
RECURSIVE Relax(_, _, _, _)
Relax(roads, D, d, k) == IF k = 0 THEN d ELSE LET e == TLCEval(Next1(roads, D, d)) IN IF e = d THEN d ELSE Relax(roads, D, e, k - 1)
(* shortest ways from x by the roads of D; INF: none *)
From(n, roads, D, x) == LET d == Relax(roads, D, [y \in 1..n |-> IF y = x THEN 0 ELSE INF], n) IN [y \in 1..n |-> IF d[y] >= INF THEN INF ELSE d[y]]
(* a way is a sequence of roads; where it leads from x (0: it is broken) *)
RECURSIVE Follow(_, _, _)
Follow(roads, way, x) ==
  IF way = <<>> \/ x = 0 THEN x
  ELSE LET r == roads[way[1]] IN Follow(roads, Tail(way), IF r.a = x THEN r.b ELSE IF r.b = x THEN r.a ELSE 0)
Length(roads, way) == Sum([i \in DOMAIN way |-> roads[way[i]].len])
(* a shortest way from x to y by the roads of D; none exists: the empty one *)
IsWay(n, roads, D, x, y, way) ==
  LET d == From(n, roads, D, x)[y] IN
  IF d = INF THEN way = <<>>
  ELSE way # <<>> /\ Members(way) \subseteq D /\ Follow(roads, way, x) = y /\ Length(roads, way) = d
=============================================================================
