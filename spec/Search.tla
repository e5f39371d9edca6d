------------------------------- MODULE Search -------------------------------
(* Searches for the number of workers, for the contractor and for the resources that keep a deadline. *)
EXTENDS Util
(* a function (sequence over lo..hi given as f[1..hi-lo+1]) falls to its only minimum and grows after it *)
Unimodal(f) == \E m \in DOMAIN f : (\A i \in 1..(m - 1) : f[i] > f[i + 1]) /\ (\A i \in m..(Len(f) - 1) : f[i] < f[i + 1])
ArgMin(f) == CHOOSE m \in DOMAIN f : \A i \in DOMAIN f : f[m] <= f[i]
(* dividing an interval finds the minimum up to a step *)
Found(f, x) == x \in DOMAIN f /\ (Unimodal(f) => x - ArgMin(f) \in -1..1)
(* an average crew *)
Average(down, up, num, den) == Max2(0, down) + ((up - down) * den) \div num
(* the best of contractors: [ok: can it at all, f: finish, size: its people]; none: 0 *)
Better(a, b) == a.f < b.f \/ (a.f = b.f /\ a.size < b.size)
Best(cs) == {i \in DOMAIN cs : cs[i].ok = 1 /\ \A j \in DOMAIN cs : cs[j].ok = 1 => ~Better(cs[j], cs[i])}
=============================================================================
