------------------------------- MODULE Parts -------------------------------
(* Computation of a distance matrix in parts: creation of the parts, their
   computation in any order (by any worker), and the merge. *)
EXTENDS Distance

Rows(m, n) == IF m >= n THEN n - 1 ELSE m
(* The cells (i, j) with i < j of the first m rows, row by row, 0-based. *)
RECURSIVE CellsFrom(_, _, _, _)
CellsFrom(i, j, m, n) == IF i >= m THEN <<>> ELSE IF j >= n THEN CellsFrom(i + 1, i + 2, m, n) ELSE <<<<i, j>>>> \o CellsFrom(i, j + 1, m, n)
Cells(m, n) == CellsFrom(0, 1, Rows(m, n), n)
(* Part p (1-based) of nparts: the longer parts come first. *)
PartCount(total, nparts) == Min2(total, nparts)
PartLen(total, nparts, p) == total \div nparts + (IF p <= total % nparts THEN 1 ELSE 0)
RECURSIVE PartStart(_, _, _)
PartStart(total, nparts, p) == IF p = 1 THEN 1 ELSE PartStart(total, nparts, p - 1) + PartLen(total, nparts, p - 1)
Create(m, n, nparts) ==
  LET cs == Cells(m, n)  t == Len(cs)
  IN [p \in 1..PartCount(t, nparts) |-> LET c == cs[PartStart(t, nparts, p)]
        IN [m |-> Rows(m, n), n |-> n, i |-> c[1], j |-> c[2], len |-> PartLen(t, nparts, p)]]
(* The same for matrices too large to list: the first cell of a part from the
   number of cells before it. *)
Before(n, i) == i * (n - 1) - (i * (i - 1)) \div 2
RECURSIVE RowOf(_, _, _)
RowOf(n, x, i) == IF Before(n, i + 1) > x THEN i ELSE RowOf(n, x, i + 1)
CreateBig(m, n, nparts) ==
  LET r == Rows(m, n)  t == Before(n, r)  q == t \div nparts  l == t % nparts
  IN [p \in 1..PartCount(t, nparts) |->
        LET x == (p - 1) * q + Min2(p - 1, l)  i == RowOf(n, x, 0)
        IN [m |-> r, n |-> n, i |-> i, j |-> i + 1 + (x - Before(n, i)), len |-> PartLen(t, nparts, p)]]
RunCreateBig(c) == CreateBig(c.m, c.n, c.nparts)
(* The cells a part stands for. *)
RECURSIVE Walk(_, _, _, _)
Walk(i, j, n, len) == IF len = 0 THEN <<>> ELSE IF j >= n THEN Walk(i + 1, i + 2, n, len) ELSE <<<<i, j>>>> \o Walk(i, j + 1, n, len - 1)
PartCells(p) == Walk(p.i, p.j, p.n, p.len)
Shape(ts, n) == [x \in 1..n |-> Len(ts[x])]

(* State: parts |-> sequence of records with the extra field `done`, a record
   [v, sum] once computed (sum stands for the checksum of the threads used). *)
Unset == [v |-> <<>>, sum |-> <<-1>>]
InRange(p) == \A x \in DOMAIN PartCells(p) : LET c == PartCells(p)[x] IN c[1] < c[2] /\ c[1] < p.m /\ c[2] < p.n
MergeOk(ps) == \A p \in DOMAIN ps : /\ ps[p].m = ps[1].m /\ ps[p].n = ps[1].n /\ ps[p].done # Unset /\ ps[p].done.sum = ps[1].done.sum /\ InRange(ps[p])
(* value of each cell after the merge: the last part that covers it wins *)
RECURSIVE CellVal(_, _, _)
CellVal(ps, q, c) == IF q = 0 THEN <<>> ELSE
  LET cs == PartCells(ps[q])  hit == { x \in DOMAIN cs : cs[x] = c }
  IN IF hit # {} THEN ps[q].done.v[CHOOSE x \in hit : TRUE] ELSE CellVal(ps, q - 1, c)
Merge(ps) == IF ps = <<>> \/ ~MergeOk(ps) THEN NULL
             ELSE [i \in 1..ps[1].m |-> [j \in 1..(ps[1].n - i) |-> CellVal(ps, Len(ps), <<i - 1, i + j - 1>>)]]

(* Scripts of commands run on the code: create, compute part p with thread
   array a, merge a list of parts. *)
ComputePart(p, ts, k, t) == [p EXCEPT !.done = [v |-> [x \in DOMAIN PartCells(p) |-> LET c == PartCells(p)[x] IN ClusterDist(k, t, ts[c[1] + 1], ts[c[2] + 1])], sum |-> Shape(ts, p.n)]]
Fresh(p) == [m |-> p.m, n |-> p.n, i |-> p.i, j |-> p.j, len |-> p.len, done |-> Unset]
RECURSIVE Script(_, _, _)
Script(c, st, l) ==
  IF l > Len(c.script) THEN <<>> ELSE
  LET s == c.script[l] IN
  CASE s.op = "create" -> LET ps == Create(s.m, s.n, s.nparts) IN <<[out |-> ps]>> \o Script(c, [st EXCEPT ![s.set] = [p \in DOMAIN ps |-> Fresh(ps[p])]], l + 1)
    [] s.op = "compute" -> LET q == ComputePart(st[s.set][s.p], c.arrays[s.a], c.k, c.type) IN <<[out |-> q.done.v]>> \o Script(c, [st EXCEPT ![s.set][s.p] = q], l + 1)
    [] OTHER -> <<[out |-> Merge([x \in DOMAIN s.parts |-> st[s.parts[x][1]][s.parts[x][2]]])]>> \o Script(c, st, l + 1)
RunScript(c) == Script(c, <<<<>>, <<>>>>, 1)
=============================================================================
