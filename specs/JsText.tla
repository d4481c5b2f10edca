------------------------------- MODULE JsText -------------------------------
(* JavaScript (V8) stack traces as text:
   TYPE: MESSAGE
       at FUNCTION (FILE:LINE:COLUMN)
       at FILE:LINE:COLUMN            ... *)
EXTENDS TextBase
NoFrame == [file_name |-> NULL, function_name |-> NULL, file_line |-> "0", line_column |-> "0"]
-----------------------------------------------------------------------------
(* FILE:LINE:COLUMN read from its end: a file name may contain anything *)
Place(p) ==
  LET c2 == FindLast(p, ":")  p2 == Upto(p, c2 - 1)  c1 == FindLast(p2, ":")
      col == From(p, c2 + 1)  line == From(p2, c1 + 1)
  IN [ok |-> c2 > 2 /\ c1 > 1 /\ Is32(col) /\ Is32(line), file |-> Upto(p2, c1 - 1), line |-> line, col |-> col]
Frame(l) ==
  LET u == TrimLeft(l, {" "})
      v == TrimRight(TrimLeft(From(u, 4), {" "}), {" "})
      call == EndsWith(v, ")")
      n == FindFrom(v, 1, " ")  b == IF n = 0 THEN 0 ELSE FindFrom(v, n, "(")           \* the function is named by the first word
      pl == Place(IF call THEN Sub(v, b + 1, Len(v) - 1) ELSE v)
      ok == StartsWith(u, "at ") /\ (call => n > 1 /\ b # 0) /\ pl.ok
  IN [ok |-> ok, frame |-> [file_name |-> Hide(pl.file), file_line |-> NormDec(pl.line), line_column |-> NormDec(pl.col), function_name |-> IF call THEN Upto(v, n - 1) ELSE NULL]]
Refused == [how |-> "bad", exception_name |-> NULL, frames |-> <<>>]
Blank(ls) == \A i \in 1..Len(ls) : TrimLeft(ls[i], Space) = ""
Line(s, l) == IF s.how # "ok" THEN s ELSE LET f == Frame(l) IN IF f.ok THEN [s EXCEPT !.frames = Append(@, f.frame)] ELSE [s EXCEPT !.how = "bad"]
Read(t) ==
  LET ls == LinesOf(t)  l1 == IF ls = <<>> THEN "" ELSE ls[1]
      e == FindFrom(l1, 1, ":")
      fs == [i \in 1..(Len(ls) - 1) |-> ls[i + 1]]
      nb == SelectInSeq(fs, LAMBDA l : TrimLeft(l, Space) = "")
      s == FoldLeft(Line, [how |-> "ok", exception_name |-> Upto(l1, e - 1), frames |-> <<>>], fs)
  IN IF e < 2 \/ ~StartsAt(l1, e, ": ") \/ ~HasNl(t) THEN Refused
     ELSE IF nb > 0 /\ Blank(SubSeq(fs, nb, Len(fs))) THEN [Refused EXCEPT !.how = "any"]          \* blank lines at the end: not judged
     ELSE IF s.how = "bad" THEN Refused ELSE s
-----------------------------------------------------------------------------
ShowPlace(f) == f.file_name \o ":" \o f.file_line \o ":" \o f.line_column
ShowFrame(f) == "    at " \o (IF f.function_name = NULL THEN ShowPlace(f) ELSE f.function_name \o " (" \o ShowPlace(f) \o ")") \o "\n"
Show(name, msg, fs) == name \o ": " \o msg \o "\n" \o Join([i \in 1..Len(fs) |-> ShowFrame(fs[i])])
RunJs(c) == Read(c.text)
=============================================================================
