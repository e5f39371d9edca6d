------------------------------ MODULE RestructMC ------------------------------
(* For every small project and every timing of its works: the timing obeys the restructured graph exactly when it obeys the original
   one (works run without breaks, each stage takes its share of the time).  Mistake: "ss" (start-start edges leave the last stage),
   "ff" (finish-finish edges enter the first stage), "drop" (second edge of a finish-finish-start pair forgotten). *)
EXTENDS Restruct
CONSTANTS Mistake, Horizon
VARIABLES G, opt, s, ph
vars == <<G, opt, s, ph>>
EdgeSets == LET one == [p : {1}, c : {2}, t : {"FS", "IFS", "SS", "FF", "FFS"}, lag : 0..3]
                two == [p : {2}, c : {3}, t : {"FS", "SS", "FF", "FFS"}, lag : {0, 1}] IN
            {<<a>> : a \in one} \cup {<<a, b>> : a \in one, b \in two}
            \cup {<<[p |-> 1, c |-> 2, t |-> "SS", lag |-> i], [p |-> 1, c |-> 2, t |-> "FF", lag |-> j]>> : i \in 0..2, j \in 0..2}
Init == /\ \E v \in {<<2, 2, 2>>, <<2, 4, 2>>, <<4, 2, 2>>}, e \in EdgeSets :
             G = [w |-> [i \in 1..3 |-> [vol |-> v[i], reqs |-> <<3, 5>>]], e |-> e]
        /\ opt \in BOOLEAN /\ s = <<0, 0, 0>> /\ ph = 0
Pick == ph = 0 /\ ph' = 1 /\ (\E x \in 0..Horizon, y \in 0..Horizon, z \in {0, Horizon \div 2, Horizon} : s' = <<x * S, y * S, z * S>>) /\ UNCHANGED <<G, opt>>
Half == ph = 0 /\ ph' = 1 /\ (\E x \in 0..3, y \in 0..(2 * Horizon) : s' = <<x * S, (y * S) \div 2, Horizon * S>>) /\ UNCHANGED <<G, opt>>
Spec == Init /\ [][Pick \/ Half]_vars
f == [w \in 1..3 |-> s[w] + S * G.w[w].vol]
StS(n) == s[n[1]] + G.w[n[1]].vol * From(Cuts(G, n[1], opt), n[2])
StF(n) == s[n[1]] + G.w[n[1]].vol * To(Cuts(G, n[1], opt), n[2])
Used == ChainEdges(G, opt) \cup UNION {
   LET e == G.e[i]
       lp == <<e.p, Last(G, e.p, opt)>> IN
   IF Mistake = "ss" /\ e.t = "SS" THEN {[p |-> lp, c |-> <<e.c, 0>>, t |-> "FS", lag |-> 0]}
   ELSE IF Mistake = "ff" /\ e.t = "FF" THEN {[p |-> lp, c |-> <<e.c, 0>>, t |-> "FS", lag |-> 0]}
   ELSE IF Mistake = "drop" /\ e.t = "FFS" /\ opt THEN {CHOOSE x \in Image(G, e, opt) : x.p # lp \/ Cardinality(Image(G, e, opt)) = 1}
   ELSE Image(G, e, opt) : i \in DOMAIN G.e}
NewOK == \A e \in Used : StS(e.c) >= StF(e.p) + S * e.lag
OldOK == \A i \in DOMAIN G.e : Meaning(G, G.e[i], opt, s, f)
InvSame == ph = 1 => (NewOK = OldOK)
InvWhole == \A w \in 1..3 : LET C == Cuts(G, w, opt) IN
   /\ SumOver(0..Cardinality(C), LAMBDA i : Share(C, i)) = S
   /\ \A r \in {3, 5} : SumOver(0..Cardinality(C), LAMBDA i : Amount(C, i, r)) = r /\ \A i \in 0..Cardinality(C) : Amount(C, i, r) >= 0
InvNodes == \A e \in NewEdges(G, opt) : e.p \in NewNodes(G, opt) /\ e.c \in NewNodes(G, opt) /\ e.p # e.c
=============================================================================
