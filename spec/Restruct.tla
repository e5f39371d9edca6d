------------------------------- MODULE Restruct -------------------------------
(***************************************************************************)
(* Restructuring of a work graph into finish-start and inseparable edges.      *)
(*  G.w: seq of works [vol, reqs: seq of amounts]   (1: start, Len: finish)    *)
(*  G.e: seq of edges [p, c, t, lag]  t \in FS IFS SS FF FFS                   *)
(* Work w becomes a chain of stages <<w,0>>,..,<<w,m>>; it is cut at the points *)
(* (fractions of the work, in 1/S) demanded by its edges.  opt: lags of SS, FF *)
(* and FFS edges place the cuts; otherwise SS cuts at 0 and FF at 1.           *)
(***************************************************************************)
EXTENDS Util
CONSTANT S           \* all fractions are multiples of 1/S
Off(G, e) == IF 0 < e.lag /\ e.lag <= G.w[e.p].vol THEN (S * e.lag) \div G.w[e.p].vol ELSE 0
OutCut(G, e, opt) == IF opt THEN Off(G, e) ELSE 0
InCut(G, e, opt) == IF opt THEN S - Off(G, e) ELSE S
Cuts(G, w, opt) == {OutCut(G, G.e[i], opt) : i \in {i \in DOMAIN G.e : G.e[i].p = w /\ (G.e[i].t = "SS" \/ (opt /\ G.e[i].t = "FFS"))}}
             \cup {InCut(G, G.e[i], opt) : i \in {i \in DOMAIN G.e : G.e[i].c = w /\ (G.e[i].t = "FF" \/ (opt /\ G.e[i].t = "FFS"))}}
Pos(C, x) == Cardinality({y \in C : y < x})      \* number of cuts before x
Last(G, w, opt) == Cardinality(Cuts(G, w, opt))     \* index of the last stage (0: not split)
CutAt(C, i) == CHOOSE x \in C : Pos(C, x) = i
From(C, i) == IF i = 0 THEN 0 ELSE CutAt(C, i - 1)
To(C, i) == IF i = Cardinality(C) THEN S ELSE CutAt(C, i)
Share(C, i) == To(C, i) - From(C, i)
(* amounts are whole: every stage but the last gets the floor of its share, the last one the rest *)
Amount(C, i, a) == LET part(j) == (Share(C, j) * a) \div S IN
   IF i < Cardinality(C) THEN part(i) ELSE a - SumOver(0..(Cardinality(C) - 1), part)
NewNodes(G, opt) == UNION {{<<w, i>> : i \in 0..Last(G, w, opt)} : w \in DOMAIN G.w}
ChainEdges(G, opt) == UNION {{[p |-> <<w, i>>, c |-> <<w, i + 1>>, t |-> "IFS", lag |-> 0] : i \in 0..(Last(G, w, opt) - 1)} : w \in DOMAIN G.w}
Image(G, e, opt) ==
   LET lp == <<e.p, Last(G, e.p, opt)>>
       fp == <<e.p, Pos(Cuts(G, e.p, opt), OutCut(G, e, opt))>>
       fc == <<e.c, 0>>
       lc == <<e.c, Pos(Cuts(G, e.c, opt), InCut(G, e, opt)) + 1>>
       fs(a, b) == [p |-> a, c |-> b, t |-> "FS", lag |-> 0] IN
   CASE e.t = "FS" -> {[p |-> lp, c |-> fc, t |-> "FS", lag |-> e.lag]}
     [] e.t = "IFS" -> {[p |-> lp, c |-> fc, t |-> "IFS", lag |-> 0]}
     [] e.t = "SS" -> {fs(fp, fc)}
     [] e.t = "FF" -> {fs(lp, lc)}
     [] e.t = "FFS" -> IF opt THEN {fs(fp, fc), fs(lp, lc)} ELSE {fs(lp, fc)}
NewEdges(G, opt) == ChainEdges(G, opt) \cup UNION {Image(G, G.e[i], opt) : i \in DOMAIN G.e}
(* what an edge of the original graph means for start s, duration d (in 1/S of a unit per work) *)
Meaning(G, e, opt, s, f) ==
   LET d(w) == f[w] - s[w]
       at(w, x) == s[w] + (d(w) * x) \div S IN
   CASE e.t = "FS" -> s[e.c] >= f[e.p] + S * e.lag
     [] e.t = "IFS" -> s[e.c] >= f[e.p]
     [] e.t = "SS" -> s[e.c] >= at(e.p, OutCut(G, e, opt))
     [] e.t = "FF" -> at(e.c, InCut(G, e, opt)) >= f[e.p]
     [] e.t = "FFS" -> IF opt THEN s[e.c] >= at(e.p, OutCut(G, e, opt)) /\ at(e.c, InCut(G, e, opt)) >= f[e.p] ELSE s[e.c] >= f[e.p]
=============================================================================
