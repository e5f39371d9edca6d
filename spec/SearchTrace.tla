----------------------------- MODULE SearchTrace -----------------------------
(* kind "line": [f, x]; "team": [down, up, mask, before, after, fs: per worker a function over down..up, method, num, den];
   "contractors": [cs, chosen (0: refused), same: the result is that of the chosen one]; "deadline": [deadline, least, full, res, err]. *)
EXTENDS Search, Json
Traces == JsonDeserialize("traces.json")
VARIABLE t
Team(Tr) ==
  UNION {LET down == Tr.down[i]  up == Tr.up[i]  b == Tr.before[i]  a == Tr.after[i] IN
         IF Tr.method = "identity" \/ Tr.mask[i] = 0 THEN Cond(a = b, "fixed amount")
         ELSE Cond(down <= a /\ a <= up, "borders")
              \cup (IF Tr.method = "average" THEN Cond(a = Average(down, up, Tr.num, Tr.den), "average") ELSE {})
              \cup (IF Tr.method = "descent" THEN Cond(Found(Tr.fs[i], a - down + 1), "minimum") ELSE {}) : i \in DOMAIN Tr.down}
Judge(Tr) ==
  CASE Tr.kind = "line" -> Cond(Found(Tr.f, Tr.x), "minimum")
    [] Tr.kind = "team" -> Team(Tr)
    [] Tr.kind = "contractors" -> Cond(IF Best(Tr.cs) = {} THEN Tr.chosen = 0 ELSE Tr.chosen \in Best(Tr.cs), "best contractor")
                                  \cup Cond(Tr.chosen = 0 \/ Tr.same = 1, "result of the best")
    [] OTHER -> Cond(Tr.least <= Tr.deadline \/ Tr.full <= Tr.deadline => Tr.res <= Tr.deadline, "deadline")
           \cup Cond(Tr.kept = 1, "specification of the user")
           \cup Cond(Tr.again = 1, "specification that is returned")
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Traces[t].err = "" THEN Judge(Traces[t]) ELSE {"exception:" \o Traces[t].err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
