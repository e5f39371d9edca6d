------------------------------- MODULE Blocks -------------------------------
(* The containers and numbers the schedulers are built from, as abstract types.
   A container is the sequence of its elements; an element is [k: key, v: value]. *)
EXTENDS Util
Inf == 2000000000
(* ---- saturating numbers: never leave -Inf..Inf; written so that nothing overflows *)
AddSat(a, b) == IF b > 0 /\ a > Inf - b THEN Inf ELSE IF b < 0 /\ a < -Inf - b THEN -Inf ELSE a + b
Abs(a) == IF a < 0 THEN -a ELSE a
MulSat(a, b) == IF a = 0 \/ b = 0 THEN 0
                ELSE IF Abs(a) > Inf \div Abs(b) THEN (IF (a < 0) = (b < 0) THEN Inf ELSE -Inf) ELSE a * b
TimeOp(op, a, b) == CASE op = "add" -> AddSat(a, b) [] op = "sub" -> AddSat(a, -b) [] op = "mul" -> MulSat(a, b)
                      [] op = "div" -> IF b > 0 THEN a \div b ELSE (-a) \div (-b)
                      [] op = "lt" -> IF a < b THEN 1 ELSE 0 [] op = "le" -> IF a <= b THEN 1 ELSE 0
                      [] op = "gt" -> IF a > b THEN 1 ELSE 0 [] op = "ge" -> IF a >= b THEN 1 ELSE 0
                      [] op = "eq" -> IF a = b THEN 1 ELSE 0 [] op = "ne" -> IF a # b THEN 1 ELSE 0
                      [] op = "max" -> Max2(a, b) [] op = "min" -> Min2(a, b)
                      [] op = "inf" -> IF Abs(a) = Inf THEN 1 ELSE 0 [] op = "bool" -> IF a # 0 THEN 1 ELSE 0 [] OTHER -> a
(* ---- sequences *)
RemoveAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
InsertAt(s, i, x) == [j \in 1..(Len(s) + 1) |-> IF j < i THEN s[j] ELSE IF j = i THEN x ELSE s[j - 1]]
Sorted(s) == \A i, j \in DOMAIN s : i < j => s[i].k <= s[j].k
(* linked list: remove_if keeps the order of the others *)
RemoveIf(s, m, r) == SelectSeq(s, LAMBDA x : x.v % m # r)
(* sorted list: an element takes its place after those with the same key *)
Place(s, k) == Cardinality({i \in DOMAIN s : s[i].k <= k}) + 1
Put(s, x) == InsertAt(s, Place(s, x.k), x)
HasKey(s, k) == \E i \in DOMAIN s : s[i].k = k
(* merge: the last element with the key gets the merged value (here: the sum); without such an element the value is inserted under the key *)
Merge(s, k, v) == IF HasKey(s, k) THEN [s EXCEPT ![Place(s, k) - 1].v = @ + v] ELSE Put(s, [k |-> k, v |-> v])
(* priority queue: extracting gives an element with the extreme key *)
Extreme(s, desc) == IF desc THEN SetMin({s[i].k : i \in DOMAIN s}) ELSE SetMax({s[i].k : i \in DOMAIN s})
=============================================================================
