------------------------------ MODULE MCCluster ------------------------------
(* All behaviours of clustering on all small matrices with few distinct
   distances (many ties). *)
EXTENDS Cluster
CONSTANTS MaxN, MaxD
VARIABLES st, log
Init == \E n \in 2..MaxN : \E m \in 1..(n - 1) : \E b \in [Pairs(m, n) -> 0..MaxD] : st = Start(m, n, b) /\ log = <<>>
Next == \E p \in Closest(st) : \E l \in Layouts(st, st.cl[p[1]], st.cl[p[2]], st.dist[p]) :
           st' = MergeInto(st, p[1], p[2], l) /\ log' = Append(log, <<{l.seq[i] : i \in DOMAIN l.seq}, st.dist[p]>>)
Spec == Init /\ [][Next]_<<st, log>>
(* every object is in exactly one cluster *)
Partition == /\ \A i \in DOMAIN st.cl : Len(st.cl[i].lev) = Len(st.cl[i].seq) - 1 /\ i \in {st.cl[i].seq[k] : k \in DOMAIN st.cl[i].seq}
             /\ \A x \in 0..(st.n - 1) : Cardinality({ <<i, k>> \in (DOMAIN st.cl) \X (1..st.n) : k <= Len(st.cl[i].seq) /\ st.cl[i].seq[k] = x }) = 1
NeverStuck == Finished(st) \/ Closest(st) # {}
(* full matrix: the cluster distance is the mean over all pairs of objects *)
RECURSIVE SumS(_, _)
SumS(s, f) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumS(s \ {x}, f)
MeanLinkage == Full(st) => \A p \in Live(st) :
   LET A == {st.cl[p[1]].seq[k] : k \in DOMAIN st.cl[p[1]].seq}  B == {st.cl[p[2]].seq[k] : k \in DOMAIN st.cl[p[2]].seq}
   IN st.dist[p] = Frac(SumS(A \X B, [q \in A \X B |-> st.base[Key(q[1], q[2])]]), Cardinality(A) * Cardinality(B))
(* full matrix: levels never decrease from merge to merge, and cutting the
   finished dendrogram at a level gives the clusters that existed once all
   merges up to that level were done *)
Monotone == Full(st) => \A i \in 1..(Len(log) - 1) : Le(log[i][2], log[i + 1][2])
CutIsHistory == Full(st) /\ Finished(st) => \A k \in DOMAIN log :
   LET L == log[k][2]  c == st.cl[0]
       got == Cut(c.seq, [i \in 1..(st.n - 1) |-> Le(c.lev[i], L)], 2)
       done == { i \in DOMAIN log : Le(log[i][2], L) }
       maximal == { log[i][1] : i \in { i \in done : \A j \in done : i = j \/ ~(log[i][1] \subseteq log[j][1]) } }
   IN { {r[i] : i \in DOMAIN r} : r \in {got[x] : x \in DOMAIN got} } = maximal
=============================================================================
