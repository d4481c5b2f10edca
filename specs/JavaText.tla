------------------------------ MODULE JavaText ------------------------------
(* Java stack traces as text.  The exceptions of a trace are chained by
   "Caused by:"; the innermost comes first in the stack trace read. *)
EXTENDS TextBase
NoFrame == [name |-> NULL, file_name |-> NULL, file_line |-> "0", class_path |-> NULL, is_native |-> FALSE, is_exception |-> FALSE, message |-> NULL]
Blank == {" ", "\t"}
Dots == "... "
Cause == "Caused by: "
Supp == "Suppressed: "
Head1 == "Exception in thread \""
-----------------------------------------------------------------------------
(* [file:PATH], [URL], [jar:file:PATH!entry], [jar:URL!entry]: the part of l from b on *)
ClassPath(l, b) ==
  LET o == FindFrom(l, b, "[")  u == o + 1
      k == CSpanEnd(l, u, {":"})
      jar == StartsAt(l, u, "jar:")  m == IF jar THEN u + 4 ELSE u
      k2 == CSpanEnd(l, m, {":"})
      p == IF StartsAt(l, m, "file:") THEN m + 5 ELSE m
      e == CSpanEnd(l, p, IF jar THEN {"!"} ELSE {"]"})
  IN IF o = 0 \/ k > Len(l) \/ (jar /\ k2 > Len(l)) THEN NULL ELSE Hide(NonEmpty(Sub(l, p, e - 1)))
(* at NAME(FILE:LINE) [WHERE] *)
Frame(l, a) ==
  LET n == SpanEnd(l, a + 2, Blank)  n1 == CSpanEnd(l, n, {"("})
      paren == n1 <= Len(l)
      f == n1 + 1  f1 == CSpanEnd(l, f, {":", ")"})  file == Sub(l, f, f1 - 1)
      colon == paren /\ Ch(l, f1) = ":"
      d1 == SpanEnd(l, f1 + 1, Digits)  num == Sub(l, f1 + 1, d1 - 1)
      native == paren /\ StartsWith(file, "Native Method")
  IN [NoFrame EXCEPT !.name = NonEmpty(Sub(l, n, n1 - 1)),
                     !.is_native = native,
                     !.file_name = IF ~paren \/ native \/ StartsWith(file, "Unknown Source") THEN NULL ELSE Hide(NonEmpty(file)),
                     !.file_line = IF colon /\ Is32(num) THEN NormDec(num) ELSE "0",
                     !.class_path = ClassPath(l, IF colon /\ Is32(num) THEN d1 ELSE IF paren THEN f1 ELSE n1)]
(* NAME[: MESSAGE] *)
Exception(l) ==
  LET e == CSpanEnd(l, 1, {":", " ", "\t"})
  IN [NoFrame EXCEPT !.name = Upto(l, e - 1), !.is_exception = TRUE, !.message = IF Ch(l, e) = ":" THEN NonEmpty(TrimLeft(From(l, e + 1), Blank)) ELSE NULL]
-----------------------------------------------------------------------------
(* s.how: "open" within the frames of an exception; "cut" after its "... n more";
   "supp" within suppressed exceptions; "done" after its end; "bad" refused;
   "any" this is no stack trace, and nothing is said about it *)
Push(s, u) == IF u = "" \/ Ch(u, 1) \in Space THEN [s EXCEPT !.how = "any"] ELSE IF Ch(u, 1) = ":" THEN [s EXCEPT !.how = "bad"]
              ELSE [s EXCEPT !.how = "open", !.excs = Append(@, <<Exception(u)>>)]
Line(s, l) ==
  LET u == TrimLeft(l, Space)  a == Find(u, "at")
  IN CASE s.how \in {"done", "bad", "any"} -> s
       [] s.how = "open" -> IF u = "" THEN s ELSE IF StartsWith(u, Dots) THEN [s EXCEPT !.how = "cut"] ELSE IF StartsWith(u, Supp) THEN [s EXCEPT !.how = "supp"]
                            ELSE IF StartsWith(u, Cause) THEN Push(s, After(u, Cause))
                            ELSE IF StartsWith(u, "at") /\ TrimLeft(From(u, 3), Blank) # "" THEN [s EXCEPT !.excs[Len(s.excs)] = Append(@, Frame(u, 1))]
                            ELSE [s EXCEPT !.how = "any"]
       [] s.how = "cut" -> IF u = "" THEN s ELSE IF StartsWith(u, Supp) THEN [s EXCEPT !.how = "supp"] ELSE IF StartsWith(u, Cause) THEN Push(s, After(u, Cause)) ELSE [s EXCEPT !.how = "done"]
       \* what was suppressed is indented, with all that belongs to it
       [] s.how = "supp" -> IF l = "" \/ Ch(l, 1) \in Space THEN s ELSE IF StartsWith(l, Cause) THEN Push(s, After(l, Cause)) ELSE [s EXCEPT !.how = "done"]
Read(t) ==
  LET ls == LinesOf(t)
      l1 == IF ls = <<>> THEN "" ELSE ls[1]
      thr == StartsWith(l1, Head1)  q == IF thr THEN FindFrom(l1, Len(Head1) + 1, "\"") ELSE 0
      rest == IF thr THEN From(l1, q + 1) ELSE l1
      u == TrimLeft(rest, Blank)
      s0 == [how |-> "open", excs |-> <<>>]
      s1 == IF thr /\ q = 0 THEN [s0 EXCEPT !.how = "bad"] ELSE IF t = "" THEN [s0 EXCEPT !.how = "bad"] ELSE Push(s0, u)
      s == FoldLeft(Line, s1, Tail(ls))
  IN IF ls = <<>> THEN [how |-> IF t = "" THEN "bad" ELSE "any", name |-> <<>>, frames |-> <<>>]
     ELSE [how |-> IF s.how \in {"bad", "any"} THEN s.how ELSE "ok", name |-> IF thr THEN <<Sub(l1, Len(Head1) + 1, q - 1)>> ELSE <<>>, frames |-> FlattenSeq(Reverse(s.excs))]
-----------------------------------------------------------------------------
(* Writing a trace: the exceptions from the outermost to the innermost. *)
ShowFrame(f) == "\tat " \o f.name \o "(" \o (IF f.is_native THEN "Native Method" ELSE IF f.file_name = NULL THEN "Unknown Source" ELSE f.file_name \o (IF f.file_line = "0" THEN "" ELSE ":" \o f.file_line)) \o ")"
                \o (IF f.class_path = NULL THEN "" ELSE " [file:" \o f.class_path \o "]") \o "\n"
ShowExc(e) == e.name \o (IF e.message = NULL THEN "" ELSE ": " \o e.message) \o "\n"
RECURSIVE ShowExcs(_, _)
ShowExcs(es, first) == IF es = <<>> THEN "" ELSE (IF first THEN "" ELSE Cause) \o ShowExc(es[1][1]) \o Join([i \in 1..(Len(es[1]) - 1) |-> ShowFrame(es[1][i + 1])]) \o (IF first THEN "" ELSE "\t... 1 more\n") \o ShowExcs(Tail(es), FALSE)
Show(name, es) == (IF name = <<>> THEN "" ELSE Head1 \o name[1] \o "\" ") \o ShowExcs(es, TRUE)
RunJava(c) == Read(c.text)
=============================================================================
