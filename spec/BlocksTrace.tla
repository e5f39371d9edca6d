----------------------------- MODULE BlocksTrace -----------------------------
(* A history of operations on one container: [kind, desc, ops: sequence of [o, k, v, i, res, all: elements afterwards as seen by the user]],
   or numbers: ops of [o, a, b, res], or an interval: [lo, hi (hundredths), ints, floats (hundredths, rounded down and up)]. *)
EXTENDS Blocks, Json
Traces == JsonDeserialize("traces.json")
VARIABLE t
E(op) == [k |-> op.k, v |-> op.v]
RECURSIVE ListRun(_, _, _)
ListRun(s, ops, i) ==
  IF i > Len(ops) THEN {} ELSE
  LET op == ops[i]
      n == TLCEval(CASE op.o = "append" -> Append(s, E(op)) [] op.o = "remove_if" -> RemoveIf(s, op.k, op.v) [] OTHER -> s) IN
  Cond(op.all = [j \in DOMAIN n |-> n[j].v], "elements after " \o op.o) \cup Cond(op.len = Len(n), "length after " \o op.o)
    \cup (IF op.all = [j \in DOMAIN n |-> n[j].v] THEN ListRun(n, ops, i + 1) ELSE {})
RECURSIVE SortedRun(_, _, _)
SortedRun(s, ops, i) ==
  IF i > Len(ops) THEN {} ELSE
  LET op == ops[i]
      n == TLCEval(CASE op.o = "add" -> Put(s, E(op)) [] op.o = "merge" -> Merge(s, op.k, op.v)
             [] op.o = "set" -> [s EXCEPT ![op.i].v = op.v] [] op.o = "remove" -> RemoveAt(s, op.i) [] OTHER -> s) IN
  Cond(op.all = [j \in DOMAIN n |-> n[j]], "elements after " \o op.o) \cup Cond(op.len = Len(n), "length after " \o op.o)
    \cup (IF op.all = [j \in DOMAIN n |-> n[j]] THEN SortedRun(n, ops, i + 1) ELSE {})
RECURSIVE QueueRun(_, _, _, _)
QueueRun(s, ops, i, desc) ==
  IF i > Len(ops) THEN {} ELSE
  LET op == ops[i]
      P == {j \in DOMAIN s : s[j] = E(op)}
      ok == CASE op.o = "extract" -> P # {} /\ op.k = Extreme(s, desc) [] OTHER -> TRUE
      n == TLCEval(CASE op.o = "add" -> Append(s, E(op)) [] op.o = "extract" /\ P # {} -> RemoveAt(s, CHOOSE j \in P : TRUE)
             [] op.o = "replace" -> Append(RemoveAt(s, op.i), E(op)) [] OTHER -> s) IN
  Cond(ok, "extreme") \cup Cond(op.len = Len(n), "length after " \o op.o) \cup (IF ok THEN QueueRun(n, ops, i + 1, desc) ELSE {})
Numbers(ops) == UNION {Cond(ops[i].res = TimeOp(ops[i].o, ops[i].a, ops[i].b), "number " \o ops[i].o) : i \in DOMAIN ops}
Whole(lo, hi) == {x \in (lo \div 100)..(hi \div 100 + 1) : lo <= 100 * x /\ 100 * x <= hi}
Samples(Tr) == Cond(Whole(Tr.lo, Tr.hi) # {} => \A i \in DOMAIN Tr.ints : Tr.ints[i] \in Whole(Tr.lo, Tr.hi), "whole number in the interval")
          \cup Cond(\A i \in DOMAIN Tr.floats : Tr.lo <= Tr.floats[i][2] /\ Tr.floats[i][1] <= Tr.hi, "number in the interval")
          \cup Cond(Tr.again = 1, "same seed, same numbers")
(* functions applied one after the other: function i maps x to 3 x + its number; the other arguments are handed on *)
RECURSIVE Applied(_, _, _)
Applied(x, fs, i) == IF i > Len(fs) THEN x ELSE Applied((3 * x + fs[i]) % 9973, fs, i + 1)
Judge(Tr) == CASE Tr.kind = "list" -> ListRun(<<>>, Tr.ops, 1) [] Tr.kind = "sorted" -> SortedRun(<<>>, Tr.ops, 1)
               [] Tr.kind = "queue" -> QueueRun(Tr.start, Tr.ops, 1, Tr.desc = 1) [] Tr.kind = "time" -> Numbers(Tr.ops)
               [] Tr.kind = "apply" -> Cond(Tr.res = Applied(Tr.x, Tr.fs, 1), "applied in order") \cup Cond(Tr.others = 1, "other arguments")
               [] OTHER -> Samples(Tr)
Init == t \in 1..Len(Traces) /\ PrintT(<<"VERDICT", t, IF Traces[t].err = "" THEN Judge(Traces[t]) ELSE {"exception:" \o Traces[t].err}>>)
TraceSpec == Init /\ [][FALSE]_t
=============================================================================
