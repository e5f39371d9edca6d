------------------------------ MODULE ZonesMC -------------------------------
(* A zone keeper: places works one after another; a work that needs another status is appended behind everything that
   uses the zone, after the change.  HoldChange = FALSE is the mistake of not keeping the zone closed during a change. *)
EXTENDS Zones
CONSTANTS Depth, MaxPt, MaxEx, HoldChange
VARIABLES cfg, rows, trans
vars == <<cfg, rows, trans>>
Costs == {<<<<0, 1, 2>>, <<0, 0, 2>>, <<0, 1, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>}
Init == /\ cfg \in [init : {<<0>>, <<1>>, <<2>>}, last : {<<0>>, <<1>>}, cost : Costs] /\ rows = <<>> /\ trans = <<>>
Users == {i \in DOMAIN rows : \E j \in DOMAIN rows[i].req : rows[i].req[j].q # 0}
EndOfUse == SetMax({0} \cup {rows[i].f : i \in Users} \cup (IF HoldChange THEN {trans[i].f : i \in DOMAIN trans} ELSE {}))
StatusEnd == Status(cfg, trans, 1, 1000)
Place(q, pt, ex) ==
  LET r(s) == [s |-> s, f |-> s + ex, req |-> <<[z |-> 1, q |-> q]>>] IN
  IF q = 0 THEN rows' = Append(rows, r(pt)) /\ UNCHANGED <<cfg, trans>>
  ELSE IF q = StatusEnd
  THEN \* at any moment at which the status is in force to the end of the work
       \E s \in pt..(pt + 3) :
         /\ (~HoldChange) \/ \A t \in s..(s + ex - 1) : ~Changing(trans, 1, t) /\ Status(cfg, trans, 1, t) = q
         /\ HoldChange \/ \A i \in Users : Compatible(r(s), rows[i])
         /\ rows' = Append(rows, r(s)) /\ UNCHANGED <<cfg, trans>>
  ELSE LET s == Max2(pt, EndOfUse + Cost(cfg, StatusEnd, q)) IN
       /\ trans' = Append(trans, [z |-> 1, from |-> StatusEnd, to |-> q, s |-> s - Cost(cfg, StatusEnd, q), f |-> s])
       /\ rows' = Append(rows, r(s)) /\ UNCHANGED cfg
Next == Len(rows) < Depth /\ \E q \in 0..2, pt \in 0..MaxPt, ex \in 1..MaxEx : Place(q, pt, ex)
Spec == Init /\ [][Next]_vars
InvStatus == \A i \in DOMAIN rows : RightStatus(cfg, trans, rows[i])
InvSame == \A i \in DOMAIN rows : RightStatus(cfg, trans, rows[i]) = ForceOK(cfg, trans, rows[i])
InvCompatible == \A i, j \in DOMAIN rows : i # j => Compatible(rows[i], rows[j])
InvTrans == \A i \in DOMAIN trans : TransOK(cfg, trans, i, trans[i].f)
=============================================================================
