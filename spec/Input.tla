-------------------------------- MODULE Input --------------------------------
(* Tables of works and of the history, and the graph they describe.
   A link is [p, c, t, lag (hundredths), w (weight: Inf for given links, otherwise how often the pair occurred)]. *)
EXTENDS Util
Inf == 1000000000
Days(a, b) == Max2(a - b, 1)
(* ---- what one pair of occurrences says about the works 1 and 2: [d: which of them goes first, t, a, b: lag a / b] *)
Events(s1, f1, s2, f2) ==
  (IF s1 = s2 /\ f1 = f2 THEN <<[d |-> 1, t |-> "FFS", a |-> 1, b |-> 100]>> ELSE <<>>) \o
  <<CASE f2 <= s1 -> [d |-> 2, t |-> "FS", a |-> 0, b |-> 1]
      [] f2 > s1 /\ s2 >= f1 -> [d |-> 1, t |-> "FS", a |-> 0, b |-> 1]
      [] f2 > s1 /\ s2 < f1 /\ s2 >= s1 -> [d |-> 1, t |-> IF f2 >= f1 THEN "FFS" ELSE "SS", a |-> Days(s2, s1), b |-> Days(f1, s1)]
      [] OTHER -> [d |-> 2, t |-> IF f2 <= f1 THEN "FFS" ELSE "SS", a |-> Days(s1, s2), b |-> Days(f2, s2)]>>
(* ---- the least lag among those numbered N, without outliers: x is one when it is less than the mean by more than 3 standard deviations.
   Both are computed on thousandths, so lags near the border may count either way: the set of lags that may be the answer *)
Leasts(l, N) ==
  LET n == Cardinality(N)
      x(i) == (1000 * l[i][1]) \div l[i][2]
      s == SumOver(N, LAMBDA i : x(i))
      var == n * SumOver(N, LAMBDA i : x(i) * x(i)) - s * s             \* (n * deviation) ^ 2
      far(i, m) == LET d == s - n * (x(i) + m) IN d > 0 /\ d * d > 9 * var
      sure == {i \in N : far(i, 4)}
      maybe == {i \in N : far(i, -4)}
      Less(i, j) == l[i][1] * l[j][2] < l[j][1] * l[i][2] IN
  {l[i] : i \in {i \in N \ sure : \A j \in N \ maybe : ~Less(j, i)}}
(* ---- what all of them say: no link, or [d, t, lags: the lags seen for d and t] *)
Verdict(ev) ==
  LET Num(d) == Cardinality({i \in DOMAIN ev : ev[i].d = d})
      d == IF Num(1) >= Num(2) THEN 1 ELSE 2
      K(t) == Cardinality({i \in DOMAIN ev : ev[i].d = d /\ ev[i].t = t})
      t == IF K("FS") > K("SS") THEN (IF K("FFS") > 0 THEN "FFS" ELSE "FS") ELSE IF K("SS") > K("FFS") THEN "SS" ELSE "FFS"
  IN [d |-> d, t |-> t, lags |-> Leasts([i \in DOMAIN ev |-> <<ev[i].a, ev[i].b>>], {i \in DOMAIN ev : ev[i].d = d /\ ev[i].t = t})]
(* the least lag, rounded to hundredths *)
Nearest(h, l) == LET x == 2 * h * l[2] - 200 * l[1] IN x <= l[2] /\ -x <= l[2]
LeastLag(h, lags) == \E l \in lags : Nearest(h, l)
(* ---- history: a site is a sequence of [n: name, s, f]; the k-th occurrences of two works at one site are compared *)
RECURSIVE SortOcc(_)
Before(x, y) == x.s < y.s \/ (x.s = y.s /\ x.f <= y.f)
SortOcc(S) == IF S = <<>> THEN <<>>
              ELSE LET i == CHOOSE i \in DOMAIN S : \A j \in DOMAIN S : Before(S[i], S[j])
                       rest == [j \in 1..(Len(S) - 1) |-> IF j < i THEN S[j] ELSE S[j + 1]] IN <<S[i]>> \o SortOcc(rest)
Occ(site, n) == SortOcc(SelectSeq(site, LAMBDA x : x.n = n))
RECURSIVE PairEvents(_, _, _)
PairEvents(a, b, k) == IF k = 0 THEN <<>> ELSE PairEvents(a, b, k - 1) \o Events(a[k].s, a[k].f, b[k].s, b[k].f)
Pairs(site, n1, n2) == Min2(Len(Occ(site, n1)), Len(Occ(site, n2)))
RECURSIVE HistEvents(_, _, _, _)
HistEvents(hist, k, n1, n2) == IF k = 0 THEN <<>>
   ELSE LET a == Occ(hist[k], n1)  b == Occ(hist[k], n2) IN HistEvents(hist, k - 1, n1, n2) \o PairEvents(a, b, Min2(Len(a), Len(b)))
(* links that the history gives for the works of a table; names[i] is the name of row i *)
HistLinks(names, hist) ==
  LET n == Len(names)
      One(i, j) == LET ev == TLCEval(HistEvents(hist, Len(hist), names[i], names[j])) IN
        IF ev = <<>> THEN {} ELSE LET v == Verdict(ev) IN
          {[p |-> IF v.d = 1 THEN i ELSE j, c |-> IF v.d = 1 THEN j ELSE i, t |-> v.t, lags |-> v.lags,
            w |-> SumOver(DOMAIN hist, LAMBDA k : Pairs(hist[k], names[i], names[j]))]}
  IN UNION {IF names[i] = names[j] THEN {} ELSE One(i, j) : <<i, j>> \in {<<x, y>> \in (1..n) \X (1..n) : x < y}}
(* ---- the links of a table before loops are broken.  given: set of [p, c, t, lags, w]; p = 0 is a work that is not in the table.
   all: the given links are all; change: what the history knows about links is believed. *)
Prefer(G, H) == {IF \E h \in H : h.p = g.p /\ h.c = g.c THEN CHOOSE h \in H : h.p = g.p /\ h.c = g.c ELSE g : g \in G}
Links(given, H, all, change) ==
  LET Added == {h \in H : \A g \in given : ~(g.p = h.p /\ g.c = h.c)}
      Bare == {h \in H : \A g \in given : g.c # h.c}
      Raw == IF all /\ ~change THEN given
             ELSE IF all THEN Prefer(given, H) \cup Bare
             ELSE IF change THEN Prefer(given, H) \cup Added ELSE given \cup Added
  IN {l \in Raw : l.p # 0}
(* ---- loops *)
RECURSIVE ReachK(_, _)
ReachK(R, S) == LET T == S \cup {r[2] : r \in {r \in R : r[1] \in S}} IN IF T = S THEN S ELSE ReachK(R, T)
Reach(E, x) == ReachK({<<l.p, l.c>> : l \in E}, {x})
OnLoop(E, l) == l.p \in Reach(E, l.c)
Acyclic(E) == \A l \in E : ~OnLoop(E, l)
(* a dropped link was the weakest of some loop *)
MayDrop(E, l) == OnLoop({k \in E : k.w >= l.w}, l)
=============================================================================
