------------------------------ MODULE TextBase ------------------------------
(* Reading text line by line: shared by the formats of stack traces. *)
EXTENDS SatyrBase, SequencesExt
NewLines(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : SubSeq(t, i, i) = "\n")
Lines0(t) == LET n == NewLines(t) IN [k \in 1..(Len(n) + 1) |-> Sub(t, IF k = 1 THEN 1 ELSE n[k - 1] + 1, IF k > Len(n) THEN Len(t) ELSE n[k] - 1)]       \* as many as there are newlines, and one more
LinesOf(t) == LET a == Lines0(t) IN IF a[Len(a)] = "" THEN SubSeq(a, 1, Len(a) - 1) ELSE a      \* a newline ends a line
HasNl(t) == FindFrom(t, 1, "\n") # 0
TrimRightAt(s, n, set) ==
  LET j == CHOOSE k \in 0..n : (k = n \/ Ch(s, n - k) \notin set) /\ \A x \in 0..(k - 1) : Ch(s, n - x) \in set
  IN IF n < 1 THEN "" ELSE Upto(s, n - j)
TrimRight(s, set) == TrimRightAt(s, Len(s), set)
TrimLeft(s, set) == From(s, SpanEnd(s, 1, set))
After(s, p) == From(s, Len(p) + 1)
(* the home directory's owner is not told *)
Hide(p) == IF p = NULL THEN p ELSE IF ~StartsWith(p, "/home/") THEN p
           ELSE LET k == FindFrom(p, 7, "/") IN IF k = 0 THEN p ELSE "/home/anonymized" \o From(p, k)
NonEmpty(s) == IF s = "" THEN NULL ELSE s
AllDigits(s) == s # "" /\ SpanEnd(s, 1, Digits) > Len(s)
Is32(s) == AllDigits(s) /\ NumCmp(NormDec(s), U32Max) <= 0
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))
=============================================================================
