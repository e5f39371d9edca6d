-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE SumFun(_, _)
SumFun(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumFun(f, D \ {x})
SumOver(D, Op(_)) == SumFun([x \in D |-> Op(x)], D)
RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n - 1)
Sum(f) == SumSeq(f, Len(f))
Ceil(a, b) == IF a <= 0 THEN 0 ELSE (a + b - 1) \div b
Members(s) == {s[i] : i \in DOMAIN s}
Cond(c, name) == IF c THEN {} ELSE {name}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* sequences equal as bags *)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Distinct(s) == Cardinality(Members(s)) = Len(s)
Idx(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
RECURSIVE Filter(_, _)
Filter(s, S) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in S THEN <<Head(s)>> \o Filter(Tail(s), S) ELSE Filter(Tail(s), S)
=============================================================================
