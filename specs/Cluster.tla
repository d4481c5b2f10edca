------------------------------- MODULE Cluster -------------------------------
(* Agglomerative clustering of n objects from the first m rows of their
   distance matrix, and cutting of the resulting dendrogram.
   A cluster is a sequence of objects (0-based) with the merge level of each
   pair of neighbours; it is known by its smallest object.  Distances are exact
   fractions <<num, den>>.  The choice among equally close clusters, and among
   equally good orientations, is left open. *)
EXTENDS SatyrBase
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(n, d) IN IF g = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
WAvg(x, k, y, l) == Frac(x[1] * y[2] * k + y[1] * x[2] * l, x[2] * y[2] * (k + l))

(* st: [m, n, base, cl, dist]; base[<<i, j>>] with i < j, i < m: the input;
   cl: function from representatives to [seq, lev]; dist[<<i, j>>], i < j, i < m,
   of the current clusters with these representatives. *)
Pairs(m, n) == { p \in (0..(m - 1)) \X (0..(n - 1)) : p[1] < p[2] }
Start(m, n, base) == [m |-> m, n |-> n, base |-> base, cl |-> [i \in 0..(n - 1) |-> [seq |-> <<i>>, lev |-> <<>>]],
                      dist |-> [p \in Pairs(m, n) |-> <<base[p], 1>>]]
Key(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Live(st) == { p \in DOMAIN st.dist : p[1] \in DOMAIN st.cl /\ p[2] \in DOMAIN st.cl }
Closest(st) == { p \in Live(st) : \A q \in Live(st) : Le(st.dist[p], st.dist[q]) }
Full(st) == st.m + 1 = st.n
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Flip(c) == [seq |-> Rev(c.seq), lev |-> Rev(c.lev)]
Join(a, b, lv) == [seq |-> a.seq \o b.seq, lev |-> a.lev \o <<lv>> \o b.lev]
Last(s) == s[Len(s)]
(* the ways to lay out two clusters next to each other *)
Layouts(st, a, b, lv) ==
  IF ~Full(st) THEN {Join(a, b, lv)}
  ELSE LET ways == {<<x, y>> : x \in {a, Flip(a)}, y \in {b, Flip(b)}}
           gap(w) == st.base[Key(Last(w[1].seq), w[2].seq[1])]
       IN { Join(w[1], w[2], lv) : w \in { w \in ways : \A v \in ways : gap(w) <= gap(v) } }
NewDist(st, c1, c2, p) ==
  IF c1 \notin {p[1], p[2]} THEN st.dist[p]
  ELSE LET i == IF p[1] = c1 THEN p[2] ELSE p[1]
       IN IF i = c2 \/ i \notin DOMAIN st.cl \/ Key(i, c2) \notin DOMAIN st.dist THEN st.dist[p]
          ELSE WAvg(st.dist[p], Len(st.cl[c1].seq), st.dist[Key(i, c2)], Len(st.cl[c2].seq))
(* merging clusters c1 < c2 into the new cluster c *)
MergeInto(st, c1, c2, c) ==
  [st EXCEPT !.cl = [i \in DOMAIN st.cl \ {c2} |-> IF i = c1 THEN c ELSE st.cl[i]],
             !.dist = [p \in DOMAIN st.dist |-> NewDist(st, c1, c2, p)]]
Finished(st) == Cardinality(DOMAIN st.cl) = 1

(* The cut of a dendrogram: maximal runs whose inner levels do not exceed the
   given one, of at least minsize objects. *)
RECURSIVE CutFrom(_, _, _, _, _)
CutFrom(order, within, minsize, i, run) ==
  IF i > Len(order) THEN <<>>
  ELSE LET r == Append(run, order[i])
       IN IF i < Len(order) /\ within[i] THEN CutFrom(order, within, minsize, i + 1, r)
          ELSE (IF Len(r) >= minsize THEN <<r>> ELSE <<>>) \o CutFrom(order, within, minsize, i + 1, <<>>)
Cut(order, within, minsize) == CutFrom(order, within, minsize, 1, <<>>)

-----------------------------------------------------------------------------
(* Does some behaviour of the specification end in the order and levels that the
   code returned?  lv are the levels as integers, scaled by c.scale. *)
Pos(order, x) == CHOOSE i \in DOMAIN order : order[i] = x
Consistent(c, order, obs, cl) ==
  LET k == Len(cl.seq)  p == Pos(order, cl.seq[1])  q == Pos(order, cl.seq[k])
      near(f, o) == LET d == o * f[2] - c.scale * f[1] IN d <= 2 * f[2] /\ -d <= 2 * f[2]
  IN \/ p <= q /\ q - p = k - 1 /\ \A i \in 1..k : order[p + i - 1] = cl.seq[i] /\ (i < k => near(cl.lev[i], obs[p + i - 1]))
     \/ q < p /\ p - q = k - 1 /\ \A i \in 1..k : order[p - i + 1] = cl.seq[i] /\ (i < k => near(cl.lev[i], obs[p - i]))
RECURSIVE Explains(_, _)
Explains(c, st) ==
  IF Finished(st) THEN TRUE
  ELSE \E p \in Closest(st) : \E l \in Layouts(st, st.cl[p[1]], st.cl[p[2]], st.dist[p]) :
          Consistent(c, c.order, c.levels, l) /\ Explains(c, MergeInto(st, p[1], p[2], l))
BaseOf(c) == [p \in Pairs(Min2(c.m, c.n - 1), c.n) |-> c.base[p[1] + 1][p[2] - p[1]]]
RunExplains(c) == /\ Len(c.order) = c.n /\ {c.order[i] : i \in DOMAIN c.order} = 0..(c.n - 1) /\ Len(c.levels) = c.n - 1
                  /\ Explains(c, Start(Min2(c.m, c.n - 1), c.n, BaseOf(c)))
RunCut(c) == Cut(c.order, [i \in 1..(Len(c.order) - 1) |-> c.levels[i] <= c.level], c.min)
=============================================================================
