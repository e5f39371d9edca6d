------------------------------- MODULE AgencyMC -------------------------------
(* All graphs of N blocks, all durations per agent: agents do one block at a time.  Mistake: "latest" the latest finish wins, "leak" losing offers stay
   in the plans of their agents, "noparent" blocks begin without their parents, "order" blocks are not taken in an order of the graph,
   "trust" a broken promise is not remembered. *)
EXTENDS Agency
CONSTANTS Mistake, N, A, D
VARIABLES edges, dur, done, end, begin, who, plan, w, truth
vars == <<edges, dur, done, end, begin, who, plan, w, truth>>
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i < j}
Init == /\ edges \in SUBSET Pairs /\ dur \in [1..N -> [1..A -> 1..D]] /\ truth \in [1..A -> {0, 1}]
        /\ done = <<>> /\ end = [b \in 1..N |-> 0] /\ begin = [b \in 1..N |-> 0] /\ who = [b \in 1..N |-> 0]
        /\ plan = [a \in 1..A |-> {}] /\ w = [a \in 1..A |-> 10]
(* an agent begins when it is asked to, or as soon as it is free for the whole block *)
Free(p, s, e) == \A x \in p : e <= x[1] \/ x[2] <= s
OfferOf(p, t, d) == LET S == {t} \cup {x[2] : x \in p}
                        s == SetMin({s \in S : s >= t /\ Free(p, s, s + d)}) IN [s |-> s, e |-> s + d]
Auction(b) ==
   /\ b \notin Members(done)
   /\ Mistake # "order" => \A e \in edges : e[2] = b => e[1] \in Members(done)
   /\ LET t == IF Mistake = "noparent" THEN 1 ELSE ParentEnd(edges, end, b)
          offers == TLCEval([a \in 1..A |-> OfferOf(plan[a], t, dur[b][a])])
          val == [a \in 1..A |-> Weighted(offers[a], w[a])]
          a == IF Mistake = "latest" THEN CHOOSE x \in 1..A : \A y \in 1..A : val[x] >= val[y]
               ELSE SetMin({x \in 1..A : \A y \in 1..A : val[x] <= val[y]})
          \* some agents are slower than they say
          real == TLCEval(OfferOf(plan[a], t, dur[b][a] + truth[a])) IN
      /\ done' = Append(done, b) /\ who' = [who EXCEPT ![b] = a] /\ begin' = [begin EXCEPT ![b] = real.s] /\ end' = [end EXCEPT ![b] = real.e]
      /\ plan' = [x \in 1..A |-> IF x = a THEN plan[x] \cup {<<real.s, real.e, b>>}
                                 ELSE IF Mistake = "leak" THEN plan[x] \cup {<<offers[x].s, offers[x].e, b>>} ELSE plan[x]]
      /\ w' = [w EXCEPT ![a] = IF Mistake # "trust" /\ Weighted(real, @) > Weighted(offers[a], @) THEN @ + 1 ELSE @]
      /\ UNCHANGED <<edges, dur, truth>>
Next == \E b \in 1..N : Auction(b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvOrder == \A i, j \in DOMAIN done : <<done[i], done[j]>> \in edges => i < j
InvPrecedence == \A e \in edges : (e[1] \in Members(done) /\ e[2] \in Members(done)) => begin[e[2]] > end[e[1]]
InvAlone == \A i, j \in Members(done) : i # j /\ who[i] = who[j] => end[i] <= begin[j] \/ end[j] <= begin[i]
InvPlans == \A a \in 1..A : {x[3] : x \in plan[a]} = {b \in Members(done) : who[b] = a}
(* nobody else would have ended a block earlier, given what it was given before (honest agents, equal trust) *)
InvGreedy == (\A a \in 1..A : truth[a] = 0) => \A i \in DOMAIN done : \A a \in 1..A :
   LET p == {<<begin[b], end[b], b>> : b \in {done[j] : j \in {j \in 1..(i - 1) : who[done[j]] = a}}}
       t == SetMax({0} \cup {end[e[1]] : e \in {e \in edges : e[2] = done[i]}}) + 1 IN
   end[done[i]] <= OfferOf(p, t, dur[done[i]][a]).e
InvTrust == \A a \in 1..A : (truth[a] = 1 => w[a] >= 10 + Cardinality({b \in Members(done) : who[b] = a})) /\ (truth[a] = 0 => w[a] = 10)
Ends == <>(Len(done) = N)
=============================================================================
