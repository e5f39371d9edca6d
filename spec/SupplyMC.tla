------------------------------ MODULE SupplyMC ------------------------------
(* The supply keeper: serves works in the order of their start; fills a platform up when a material is short.
   Mistake = "none" | "forget" (the materials found on the platform are not consumed when another one is delivered)
   | "vehicles" (vehicles on their way are not counted). *)
EXTENDS Supply
CONSTANTS Depth, Mistake, MaxNeed
VARIABLES rows, stock, seen
vars == <<rows, stock, seen>>
cfg == [plat |-> <<<<2, 2>>>>, depot |-> <<[stock |-> <<4, 3>>, vehicles |-> 2, node |-> 2]>>, carry |-> <<1, 2>>,
        roads |-> <<[a |-> 1, b |-> 2, len |-> 6, bw |-> 5]>>, nodes |-> 2, speed |-> 5]
M == {1, 2}
Init == rows = <<>> /\ stock = cfg.plat[1] /\ seen = cfg.plat[1]
Now == SetMax({0} \cup {rows[i].s : i \in DOMAIN rows})
Short(need) == {m \in M : seen[m] < need[m]}
Go(need, at) ==
   LET S == Short(need)
       T == 2
       dl == [i \in 1..Cardinality(S) |-> LET m == IF i = 1 THEN SetMin(S) ELSE SetMax(S) IN
               [m |-> m, n |-> cfg.plat[1][m] - seen[m], s |-> at - T, f |-> at, h |-> 1]]
       r == [s |-> at, p |-> 1, need |-> need, dl |-> dl] IN
   /\ S # {} => at >= T
   /\ DepotsOK(cfg, Append(rows, r))
   /\ Mistake = "vehicles" \/ VehiclesOK(cfg, Append(rows, r))
   /\ rows' = Append(rows, r) /\ stock' = Serve(stock, r)
   /\ seen' = [m \in M |-> IF Mistake = "forget" /\ S # {} /\ m \notin S THEN seen[m]
                           ELSE seen[m] + Delivered(r, m) - need[m]]
Next == /\ Len(rows) < Depth
        /\ \E need \in {<<a, b>> : a \in 0..MaxNeed, b \in 0..MaxNeed}, at \in Now..(Now + 3) : need # <<0, 0>> /\ Go(need, at)
Spec == Init /\ [][Next]_vars
InvStock == \A m \in M : 0 <= stock[m] /\ stock[m] <= cfg.plat[1][m]
InvConserve == \A m \in M :
   stock[m] + SumOver(DOMAIN rows, LAMBDA i : rows[i].need[m]) = cfg.plat[1][m] + Taken(rows, 1, m)
InvOK == PlatformOK(cfg, rows, 1) /\ \A i \in DOMAIN rows : Arrive(rows[i]) /\ OneTrip(rows[i]) /\ Driven(cfg, rows[i])
OnTheWay(t) == SumOver({i \in Trips(rows) : rows[i].dl[1].s <= t /\ t < rows[i].dl[1].f + 2}, LAMBDA i : Vehicles(cfg, rows[i]))
InvVehicles == \A t \in 0..(Now + 5) : OnTheWay(t) <= cfg.depot[1].vehicles
=============================================================================
