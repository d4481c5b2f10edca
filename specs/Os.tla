--------------------------------- MODULE Os ---------------------------------
(* Which operating system: the os-release and the system-release texts. *)
EXTENDS SatyrBase, SequencesExt

NoOs == [name |-> NULL, version |-> NULL, cpe |-> NULL, variant |-> NULL]
RECURSIVE SplitLines(_)
SplitLines(t) == LET n == Find(t, "\n") IN IF n = 0 THEN <<t>> ELSE <<Upto(t, n - 1)>> \o SplitLines(From(t, n + 1))
Chars(t) == [i \in 1..Len(t) |-> Ch(t, i)]
(* a backslash makes the next character an ordinary one; quotes just vanish *)
UnescStep(a, c) == IF a.esc THEN [esc |-> FALSE, out |-> a.out \o c] ELSE IF c = "\\" THEN [a EXCEPT !.esc = TRUE] ELSE IF c \in {"'", "\""} THEN a ELSE [a EXCEPT !.out = @ \o c]
Unescape(v) == FoldLeft(UnescStep, [esc |-> FALSE, out |-> ""], Chars(v)).out
Assign(os, k, v) ==
  CASE k = "ID" -> [os EXCEPT !.name = v]
    [] k = "VERSION_ID" -> IF os.version = NULL THEN [os EXCEPT !.version = v] ELSE os
    [] k = "VERSION" /\ HasSub(v, "(Rawhide)") -> [os EXCEPT !.version = "rawhide"]
    [] k = "CPE_NAME" -> [os EXCEPT !.cpe = v]
    [] k = "VARIANT_ID" -> [os EXCEPT !.variant = v]
    [] OTHER -> os
(* comments, lines without '=' and lines without a key count for nothing *)
Line(os, l) == LET e == Find(l, "=") IN IF Ch(l, 1) = "#" \/ e < 2 THEN os ELSE Assign(os, Upto(l, e - 1), Unescape(From(l, e + 1)))
OsRelease(t) == FoldLeft(Line, NoOs, SplitLines(t))
Known(os) == os.name # NULL /\ os.version # NULL
-----------------------------------------------------------------------------
LowerAt(c) == IF c \in Upper THEN LET i == CHOOSE j \in 1..26 : Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", j) = c IN Ch("abcdefghijklmnopqrstuvwxyz", i) ELSE c
RECURSIVE LowerFrom(_, _)
LowerFrom(t, i) == IF i > Len(t) THEN "" ELSE LowerAt(Ch(t, i)) \o LowerFrom(t, i + 1)
ToLower(t) == LowerFrom(t, 1)
SystemRelease(t) ==
  LET r == Find(t, " release ")  b == r + 9  e == SpanEnd(t, b, Digits \cup {"."})
      rhel == "red hat enterprise linux"
  IN IF r = 0 THEN <<>>
     ELSE LET n == IF ToLower(Upto(t, Len(rhel))) = rhel THEN "rhel" ELSE ToLower(Upto(t, r - 1))
          IN IF n = "" THEN <<>> ELSE <<[name |-> n, version |-> IF e = b THEN From(t, b) ELSE Sub(t, b, e - 1)]>>
-----------------------------------------------------------------------------
RunOs(c) == [release |-> LET o == OsRelease(c.text) IN IF Known(o) THEN <<o>> ELSE <<>>, system |-> SystemRelease(c.text)]
=============================================================================
