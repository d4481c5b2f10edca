----------------------------- MODULE PythonText -----------------------------
(* Python stack traces as text: the last call comes last, and first in the
   stack trace read. *)
EXTENDS TextBase
Header == "Traceback (most recent call last):\n"
SyntaxHead == "invalid syntax ("
FileMark == "  File \""
LineMark == "\", line "
InMark == ", in "
NoFrame == [file_name |-> NULL, function_name |-> NULL, line_contents |-> NULL, file_line |-> "0", special_file |-> FALSE, special_function |-> FALSE]
-----------------------------------------------------------------------------
(* <name> *)
Special(s) == Len(s) >= 2 /\ Ch(s, 1) = "<" /\ Ch(s, Len(s)) = ">"
Bare(s) == IF Special(s) THEN Sub(s, 2, Len(s) - 1) ELSE s
(* a line that marks a place in the line above, or an empty one *)
Marks(t, i) == LET e == SpanEnd(t, i, {" ", "^", "~"}) IN IF Ch(t, e) = "\n" THEN e + 1 ELSE IF e > Len(t) THEN e ELSE i
(* frames from i on; s is [at, frames], frames the last first *)
RECURSIVE Frames(_, _)
Frames(t, s) ==
  LET i == Marks(t, s.at)
      n0 == i + Len(FileMark)  n1 == CSpanEnd(t, n0, {"\""})  file == Sub(t, n0, n1 - 1)
      d0 == n1 + Len(LineMark)  d1 == SpanEnd(t, d0, Digits)  num == Sub(t, d0, d1 - 1)
      named == StartsAt(t, d1, InMark)
      f0 == d1 + Len(InMark)  f1 == CSpanEnd(t, f0, {"\n"})  func == Sub(t, f0, f1 - 1)
      e0 == IF named THEN f1 ELSE d1
      e1 == IF Ch(t, e0) = "\n" THEN e0 + 1 ELSE e0
      src == StartsAt(t, e1, "    ")
      c0 == e1 + 4  c1 == CSpanEnd(t, c0, {"\n"})  code == Sub(t, c0, c1 - 1)
      e2 == IF ~src THEN e1 ELSE IF code = "" THEN c0 ELSE IF Ch(t, c1) = "\n" THEN c1 + 1 ELSE c1
      good == StartsAt(t, i, FileMark) /\ file # "" /\ StartsAt(t, n1, LineMark) /\ Is32(num) /\ (IF named THEN func # "" ELSE Ch(t, d1) = "\n")
      frame == [file_name |-> Hide(Bare(file)), special_file |-> Special(file), file_line |-> NormDec(num),
                function_name |-> IF named THEN Bare(func) ELSE "syntax", special_function |-> ~named \/ Special(func), line_contents |-> IF src THEN NonEmpty(code) ELSE NULL]
  IN IF ~good THEN [s EXCEPT !.at = i] ELSE Frames(t, [at |-> e2, frames |-> <<frame>> \o s.frames])
Refused == [how |-> "bad", exception_name |-> NULL, frames |-> <<>>]
(* what is no frame after the last frame is the exception *)
Read(t) ==
  LET h == Find(t, Header)
      y == Find(t, SyntaxHead)
      z == IF y = 0 THEN 0 ELSE FindFrom(t, y, FileMark)
      s == Frames(t, [at |-> IF h # 0 THEN h + Len(Header) ELSE z, frames |-> <<>>])
      e == CSpanEnd(t, s.at, {":", "\n"})
  IN IF h = 0 /\ z = 0 THEN Refused
     ELSE IF s.frames = <<>> THEN Refused
     ELSE IF e = s.at THEN Refused
     ELSE [how |-> IF StartsAt(t, s.at, FileMark) THEN "any" ELSE "ok", exception_name |-> Sub(t, s.at, e - 1), frames |-> s.frames]
-----------------------------------------------------------------------------
Angle(s, special) == IF special THEN "<" \o s \o ">" ELSE s
ShowFrame(f) == FileMark \o Angle(f.file_name, f.special_file) \o LineMark \o f.file_line \o (IF f.function_name = "syntax" /\ f.special_function THEN "" ELSE InMark \o Angle(f.function_name, f.special_function)) \o "\n"
                \o (IF f.line_contents = NULL THEN "" ELSE "    " \o f.line_contents \o "\n")
\* fs the last call first
Show(fs, exc) == Header \o Join([i \in 1..Len(fs) |-> ShowFrame(fs[Len(fs) + 1 - i])]) \o exc \o "\n"
RunPython(c) == Read(c.text)
=============================================================================
