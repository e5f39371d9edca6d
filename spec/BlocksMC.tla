------------------------------ MODULE BlocksMC ------------------------------
(* A linked list with a root, a tail and a length refines a sequence: elements are appended, and a walk removes some of them.
   Mistake: "tail" the tail is not moved when it is removed, "length" removing the root does not count, "skip" after removing an element the
   walk goes on with the second next. *)
EXTENDS Blocks
CONSTANTS Mistake, Size
Cells == 1..Size
VARIABLES seq, val, next, root, tail, len, used, at, prev, spos, doomed
vars == <<seq, val, next, root, tail, len, used, at, prev, spos, doomed>>
(* at: the cell of the walk (0: no walk), spos: the place of the walk in the sequence, doomed: values to remove *)
Init == seq = <<>> /\ val = [c \in Cells |-> 0] /\ next = [c \in Cells |-> 0] /\ root = 0 /\ tail = 0 /\ len = 0 /\ used = 0 /\ at = 0 /\ prev = 0
        /\ spos = 0 /\ doomed = {}
Append1(v) == /\ at = 0 /\ used < Size /\ used' = used + 1 /\ seq' = Append(seq, v)
              /\ val' = [val EXCEPT ![used + 1] = v] /\ len' = len + 1
              /\ root' = (IF root = 0 THEN used + 1 ELSE root) /\ tail' = used + 1
              /\ next' = (IF root = 0 THEN next ELSE [next EXCEPT ![tail] = used + 1])
              /\ UNCHANGED <<at, prev, spos, doomed>>
Walk(D) == /\ at = 0 /\ root # 0 /\ at' = root /\ prev' = 0 /\ spos' = 1 /\ doomed' = D /\ UNCHANGED <<seq, val, next, root, tail, len, used>>
Is(c) == c = root
Visit == /\ at # 0
         /\ IF val[at] \notin doomed
            THEN /\ prev' = at /\ at' = next[at] /\ spos' = spos + 1 /\ UNCHANGED <<seq, val, next, root, tail, len, used, doomed>>
            ELSE /\ seq' = (IF spos \in DOMAIN seq THEN RemoveAt(seq, spos) ELSE seq)
                 /\ len' = (IF Is(at) /\ Mistake = "length" THEN len ELSE len - 1)
                 /\ IF Is(at)
                    THEN /\ root' = next[root] /\ at' = next[root] /\ tail' = (IF next[root] = 0 THEN 0 ELSE tail) /\ UNCHANGED <<next, prev>>
                    ELSE /\ next' = [next EXCEPT ![prev] = next[at]]
                         /\ at' = (IF Mistake = "skip" /\ next[at] # 0 THEN next[next[at]] ELSE next[at])
                         /\ tail' = (IF next[at] = 0 /\ Mistake # "tail" THEN prev ELSE tail) /\ UNCHANGED <<root, prev>>
                 /\ UNCHANGED <<val, used, spos, doomed>>
Next == (\E v \in 1..2 : Append1(v)) \/ (\E D \in SUBSET (1..2) : Walk(D)) \/ Visit
Spec == Init /\ [][Next]_vars
RECURSIVE Chain(_, _)
Chain(c, n) == IF c = 0 \/ n = 0 THEN <<>> ELSE <<val[c]>> \o Chain(next[c], n - 1)
InvSeq == at = 0 => Chain(root, Size + 1) = seq
InvLen == at = 0 => len = Len(seq)
InvWalked == at = 0 /\ spos > 0 => \A i \in DOMAIN seq : i < spos => seq[i] \notin doomed
(* saturation keeps order and sign *)
Some == {-Inf, -Inf + 1, -70000, -3, -1, 0, 1, 2, 70000, 1000000000, Inf - 1, Inf}
ASSUME \A a, b \in Some : /\ AddSat(a, b) \in -Inf..Inf /\ MulSat(a, b) \in -Inf..Inf
                          /\ AddSat(a, b) = AddSat(b, a) /\ MulSat(a, b) = MulSat(b, a) /\ (b >= 0 => AddSat(a, b) >= a) /\ AddSat(a, 0) = a /\ MulSat(a, 1) = a
ASSUME \A a, b, c \in Some : a <= b => AddSat(a, c) <= AddSat(b, c)
=============================================================================
