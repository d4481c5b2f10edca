------------------------------ MODULE Distance ------------------------------
(* The four similarity measures over threads, defined on the abstract sequence
   of frames and the relation Same.  Values are exact fractions <<num, den>>. *)
EXTENDS Frames

Mat(t, x, y) == [p \in (1..Len(x)) \X (1..Len(y)) |-> Same(t, x[p[1]], y[p[2]])]

(* Edit distance, optionally with adjacent transpositions (each pair once):
   the usual table, one row per frame of x, built from the two rows above.
   Rows are sequences whose element j + 1 is column j. *)
RECURSIVE EditRow(_, _, _, _, _, _, _)
EditRow(eq, transp, i, n, prev, prev2, acc) ==
  LET j == Len(acc) IN
  IF j > n THEN acc ELSE
  LET c == IF eq[<<i, j>>] THEN 0 ELSE 1
      base == Min2(prev[j] + c, Min2(prev[j + 1] + 1, acc[j] + 1))
      v == IF transp /\ i > 1 /\ j > 1 /\ eq[<<i, j - 1>>] /\ eq[<<i - 1, j>>] THEN Min2(base, prev2[j - 1] + c) ELSE base
  IN EditRow(eq, transp, i, n, prev, prev2, Append(acc, v))
RECURSIVE EditRows(_, _, _, _, _, _, _)
EditRows(eq, transp, i, m, n, prev, prev2) ==
  IF i > m THEN prev[n + 1] ELSE EditRows(eq, transp, i + 1, m, n, EditRow(eq, transp, i, n, prev, prev2, <<i>>), prev)
Edit(t, x, y, transp) == EditRows(Mat(t, x, y), transp, 1, Len(x), Len(y), [j \in 1..(Len(y) + 1) |-> j - 1], <<>>)
EditDist(t, x, y, transp) == IF x = <<>> /\ y = <<>> THEN <<0, 1>> ELSE <<Edit(t, x, y, transp), Max2(Len(x), Len(y))>>

(* Jaccard distance of the sets of distinct frames. *)
LastOcc(t, x) == { i \in 1..Len(x) : ~\E k \in (i + 1)..Len(x) : Same(t, x[k], x[i]) }
Jaccard(t, x, y) ==
  LET sx == LastOcc(t, x)  sy == LastOcc(t, y)
      inter == Cardinality({ i \in sx : \E j \in 1..Len(y) : Same(t, y[j], x[i]) })
      union == Cardinality(sx) + Cardinality(sy) - inter
  IN IF union = 0 THEN <<0, 1>> ELSE <<Max2(union - inter, 0), union>>

(* Jaro-Winkler similarity. *)
JaroWinkler(t, x, y) ==
  IF x = <<>> /\ y = <<>> THEN <<1, 1>> ELSE
  LET n1 == Len(x)  n2 == Len(y)  win == Max2(Max2(n1, n2) \div 2 - 1, 0)
      near(i) == { j \in 1..n2 : (IF i > j THEN i - j ELSE j - i) <= win /\ Same(t, x[i], y[j]) }
      first(i) == CHOOSE j \in near(i) : \A k \in near(i) : j <= k
      matched == { i \in 1..n1 : near(i) # {} }
      moved == { i \in matched : first(i) # i }
      \* positions of x up to which no position present in both differs; looking stops at a match
      differs(i) == i <= n2 /\ ~Same(t, x[i], y[i])
                    /\ (near(i) = {} \/ first(i) >= i)
      pre == Cardinality({ i \in 1..n1 : \A k \in 1..i : ~differs(k) })
      p == Min2(pre, 4)
      m == Cardinality(matched)  tr == Cardinality(moved)
      num == 2 * m * m * (n1 + n2) + (2 * m - tr) * n1 * n2
      den == 6 * n1 * n2 * m
  IN IF m = 0 THEN <<0, 1>> ELSE <<5 * num + p * (den - num), 5 * den>>

Dist(k, t, x, y) == CASE k = 0 -> JaroWinkler(t, x, y) [] k = 1 -> Jaccard(t, x, y) [] k = 2 -> EditDist(t, x, y, FALSE) [] OTHER -> EditDist(t, x, y, TRUE)

-----------------------------------------------------------------------------
(* Unknown functions of two gdb threads that sit between equal known neighbours
   are given a common name before clustering. *)
FrameOk(f) == f.signal_handler_called \/ (f.function_name \notin {NULL, "??"} /\ f.source_file \notin {NULL, ""})
LibsCompatible(a, b) == a.library_name = NULL \/ b.library_name = NULL \/ a.library_name = b.library_name
NextSimilar(x, i, y, j) == IF i = Len(x) \/ j = Len(y) THEN i = Len(x) /\ j = Len(y)
                           ELSE /\ x[i + 1].function_name = y[j + 1].function_name /\ x[i + 1].function_name # "??" /\ LibsCompatible(x[i + 1], y[j + 1])
Pairable(x, i, y, j) ==
  /\ x[i].function_name = "??" /\ y[j].function_name = "??" /\ LibsCompatible(x[i], y[j]) /\ NextSimilar(x, i, y, j)
  /\ \/ i = 1 /\ j = 1
     \/ /\ i > 1 /\ j > 1 /\ y[j - 1].function_name # "??" /\ x[i - 1].function_name = y[j - 1].function_name
        /\ LibsCompatible(x[i - 1], y[j - 1])
Rename(x, i, n) == [x EXCEPT ![i].function_name = "__unknown_function_" \o ToString(n)]
RECURSIVE PairFrom(_, _, _, _)
PairFrom(x, y, i, n) ==
  IF i > Len(x) THEN <<x, y>>
  ELSE LET cand == { j \in 1..Len(y) : Pairable(x, i, y, j) }
       IN IF cand = {} THEN PairFrom(x, y, i + 1, n)
          ELSE LET j == CHOOSE j \in cand : \A k \in cand : j <= k IN PairFrom(Rename(x, i, n), Rename(y, j, n), i + 1, n + 1)
PairUnknown(x, y) == IF x = <<>> \/ y = <<>> THEN <<x, y>> ELSE PairFrom(x, y, 1, 0)
ClusterDist(k, t, x, y) ==
  IF t = "gdb" /\ \E i \in 1..(Len(x) + Len(y)) : ~FrameOk(IF i <= Len(x) THEN x[i] ELSE y[i - Len(x)])
  THEN LET p == PairUnknown(x, y) IN Dist(k, t, p[1], p[2]) ELSE Dist(k, t, x, y)

-----------------------------------------------------------------------------
(* Entry points used by the conformance check. *)
RunPair(c) == [k \in 1..4 |-> Dist(k - 1, c.type, c.x, c.y)]
RunMatrix(c) == [i \in 1..Min2(c.m, Len(c.ts) - 1) |-> [j \in 1..(Len(c.ts) - i) |-> ClusterDist(c.k, c.type, c.ts[i], c.ts[i + j])]]
RunPairUnknown(c) == PairUnknown(c.x, c.y)
=============================================================================
