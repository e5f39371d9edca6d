------------------------------- MODULE Supply -------------------------------
(***************************************************************************)
(* Materials.  Works consume materials that stand at their platform; when a  *)
(* platform has too little, a depot fills it up, its vehicles going by roads. *)
(*                                                                          *)
(* cfg: [plat: seq (platform) of seq (material) of capacity = initial stock,   *)
(*       depot: seq of [stock: seq per material, vehicles, node],              *)
(*       carry: seq (per material) of units one vehicle takes,                 *)
(*       roads: seq of [a, b, len, bw], nodes: number of land nodes, speed]    *)
(*       platform i is land node i.                                           *)
(* row: [s, p, need: seq per material, dl: seq of [m, n, s, f, h]]             *)
(***************************************************************************)
EXTENDS Util
INF == 100000000
(* ---------------------------------------------------------------- roads *)
RoadTime(cfg, r) == Ceil(r.len, cfg.speed)
Usable(cfg, v) == {i \in DOMAIN cfg.roads : cfg.roads[i].bw >= v}
Step_(cfg, v, d) == [x \in DOMAIN d |-> SetMin({d[x]} \cup
   {d[cfg.roads[i].a] + RoadTime(cfg, cfg.roads[i]) : i \in {i \in Usable(cfg, v) : cfg.roads[i].b = x}} \cup
   {d[cfg.roads[i].b] + RoadTime(cfg, cfg.roads[i]) : i \in {i \in Usable(cfg, v) : cfg.roads[i].a = x}})]
RECURSIVE Relax(_, _, _, _)
Relax(cfg, v, d, n) == IF n = 0 THEN d ELSE Relax(cfg, v, Step_(cfg, v, d), n - 1)
(* least travelling time from land node x to every land node with v vehicles at once *)
Travel(cfg, v, x) == Relax(cfg, v, [y \in 1..cfg.nodes |-> IF y = x THEN 0 ELSE INF], cfg.nodes)

Vehicles(cfg, r) == SetMax({0} \cup {Ceil(r.dl[i].n, cfg.carry[r.dl[i].m]) : i \in DOMAIN r.dl})
Arrive(r) == \A i \in DOMAIN r.dl : 0 <= r.dl[i].s /\ r.dl[i].s <= r.dl[i].f /\ r.dl[i].f <= r.s /\ r.dl[i].n > 0
OneTrip(r) == \A i, j \in DOMAIN r.dl : r.dl[i].s = r.dl[j].s /\ r.dl[i].f = r.dl[j].f /\ r.dl[i].h = r.dl[j].h
Driven(cfg, r) == r.dl = <<>> \/ LET d == r.dl[1] IN
   d.f - d.s >= Travel(cfg, 1, cfg.depot[d.h].node)[r.p]
(* --------------------------------------------------------------- depots *)
Taken(rows, h, m) == SumOver({x \in (DOMAIN rows) \X (1..10) : x[2] \in DOMAIN rows[x[1]].dl /\ rows[x[1]].dl[x[2]].h = h
                                                             /\ rows[x[1]].dl[x[2]].m = m}, LAMBDA x : rows[x[1]].dl[x[2]].n)
DepotsOK(cfg, rows) == \A h \in DOMAIN cfg.depot : \A m \in DOMAIN cfg.carry : Taken(rows, h, m) <= cfg.depot[h].stock[m]
Trips(rows) == {i \in DOMAIN rows : rows[i].dl # <<>>}
Back(cfg, r) == r.dl[1].f + Travel(cfg, 1, r.p)[cfg.depot[r.dl[1].h].node]
VehiclesOK(cfg, rows) == \A i \in Trips(rows) :
   SumOver({j \in Trips(rows) : /\ rows[j].dl[1].h = rows[i].dl[1].h /\ rows[j].dl[1].s <= rows[i].dl[1].s
                                /\ rows[i].dl[1].s < Back(cfg, rows[j])}, LAMBDA j : Vehicles(cfg, rows[j]))
   <= cfg.depot[rows[i].dl[1].h].vehicles
(* ------------------------------------------------------------- platforms *)
Delivered(r, m) == SumOver({i \in DOMAIN r.dl : r.dl[i].m = m}, LAMBDA i : r.dl[i].n)
Serve(stock, r) == [m \in DOMAIN stock |-> stock[m] + Delivered(r, m) - r.need[m]]
ServeOK(cap, stock, r) == \A m \in DOMAIN stock :
   /\ stock[m] + Delivered(r, m) <= cap[m]
   /\ stock[m] + Delivered(r, m) >= r.need[m]
(* works that start at the same instant are served in some order *)
RECURSIVE SomeOrder(_, _, _, _)
SomeOrder(cap, stock, rows, S) ==
   S = {} \/ \E i \in S : ServeOK(cap, stock, rows[i]) /\ SomeOrder(cap, Serve(stock, rows[i]), rows, S \ {i})
After(stock, rows, S) == [m \in DOMAIN stock |-> stock[m] + SumOver(S, LAMBDA i : Delivered(rows[i], m) - rows[i].need[m])]
RECURSIVE PlatformFrom(_, _, _, _)
PlatformFrom(cap, stock, rows, S) ==
   S = {} \/ LET t == SetMin({rows[i].s : i \in S})
                 G == {i \in S : rows[i].s = t} IN
             SomeOrder(cap, stock, rows, G) /\ PlatformFrom(cap, After(stock, rows, G), rows, S \ G)
Nothing(r) == r.dl = <<>> /\ \A m \in DOMAIN r.need : r.need[m] = 0
PlatformOK(cfg, rows, p) ==
   PlatformFrom(cfg.plat[p], cfg.plat[p], rows, {i \in DOMAIN rows : rows[i].p = p /\ ~Nothing(rows[i])})
(* ------------------------------------------------------------- refusals *)
Left(cfg, rows, h, m) == cfg.depot[h].stock[m] - Taken(rows, h, m)
(* no depot can fill the platform up with all materials of which it has too few for the work *)
NoDepot(cfg, rows, p, need) ==
   LET stock == After(cfg.plat[p], rows, {i \in DOMAIN rows : rows[i].p = p})
       short == {m \in DOMAIN need : need[m] > stock[m]} IN
   short # {} /\ \A h \in DOMAIN cfg.depot : \E m \in short : Left(cfg, rows, h, m) < cfg.plat[p][m] - stock[m]
(* in any order of works some depot has enough for every fill-up they may ask for *)
Plenty(cfg, works) == \E h \in DOMAIN cfg.depot : \A m \in DOMAIN cfg.carry :
   SumOver({i \in DOMAIN works : works[i].need[m] > 0}, LAMBDA i : cfg.plat[works[i].p][m]) <= cfg.depot[h].stock[m]
=============================================================================
