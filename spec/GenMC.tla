-------------------------------- MODULE GenMC --------------------------------
(* The clusters of a graph are added one by one; a cluster may bring a second one with it.
   Mistake: "late" the upper border is looked at when the cluster is in, "more" one cluster too many, "small" a graph of one cluster is replaced by a small one,
   "second" the last cluster may bring a second one. *)
EXTENDS Gen
CONSTANTS Mistake, Sizes, Small, Top
VARIABLES p, works, clusters, done, small
vars == <<p, works, clusters, done, small>>
Init == /\ p \in {q \in [cc : 0..3, bottom : 0..Top, top : 0..Top] : q.cc + q.bottom + q.top > 0} /\ works = 0 /\ clusters = 0 /\ done = FALSE /\ small = FALSE
Finish(w, c) == /\ done' = TRUE
                /\ LET s == IF Mistake = "small" THEN c <= 1 ELSE c = 0 IN
                   IF s THEN works' \in Small /\ clusters' = 1 /\ small' = TRUE ELSE works' = w /\ clusters' = c /\ small' = FALSE
Max_ == IF p.bottom > 0 THEN 0 ELSE p.top
Add == /\ ~done /\ p' = p
       /\ \E size \in Sizes, two \in BOOLEAN :
            LET more == IF Mistake = "more" THEN p.cc + 1 ELSE p.cc
                second == two /\ ~(Mistake # "second" /\ p.cc > 0 /\ clusters + 1 = more)
                add == IF second THEN 2 * size ELSE size
                w == works + add  c == clusters + IF second THEN 2 ELSE 1  top == Max_ IN
            IF Mistake # "late" /\ top > 0 /\ w > top THEN Finish(works, clusters)
            ELSE IF (p.bottom > 0 /\ w >= p.bottom) \/ (p.cc > 0 /\ c >= more) \/ (Mistake = "late" /\ top > 0 /\ top < w) THEN Finish(w, c)
            ELSE works' = w /\ clusters' = c /\ done' = FALSE /\ small' = FALSE
Spec == Init /\ [][Add]_vars /\ WF_vars(Add)
InvBorders == done => Borders(p, works, clusters, small)
Ends == <>done
=============================================================================
