------------------------------- MODULE GdbText -------------------------------
(* gdb's backtraces as text: a preamble with the crash frame, threads of
   frames, and the list of shared libraries anywhere in it. *)
EXTENDS TextBase
Libraries == INSTANCE Libs
AllOnes == "0xffffffffffffffff"
NameChars == Alnum \cup CharSet("@.:=!*+-[]~&/%^|,_")
FirstChars == Alnum \cup CharSet("~*._")
FileChars == Alnum \cup CharSet("_/\\+.-")
Operators == <<">>=", ">>", ">=", ">", "<<=", "<<", "<=", "<", "->*", "->", "-", "==", "=", "&&", "&=", "&", "||", "|=", "|", "++", "+=", "+", "--", "-=", "-",
               "/=", "/", "*=", "*", "%=", "%", "!=", "!", "~", "()", "[]", ",", "^=", "^", " new[]", " new", " delete[]", " delete">>
Is64(s) == Len(StripLead(s, "0")) <= 16
NoFrame == [function_name |-> NULL, function_type |-> NULL, number |-> "0", source_file |-> NULL, source_line |-> U32Max, signal_handler_called |-> FALSE, address |-> AllOnes, library_name |-> NULL]
-----------------------------------------------------------------------------
(* Names.  Each of these is the end of what starts at i: i if nothing does. *)
OpEnd(t, i) ==
  IF ~StartsAt(t, i, "operator") THEN i
  ELSE LET k == SelectInSeq(Operators, LAMBDA o : StartsAt(t, i + 8, o)) IN IF k = 0 THEN i ELSE i + 8 + Len(Operators[k])
(* a run of name characters; a space may follow an operator unless its parameters do *)
NameNoO == NameChars \ {"o"}
WideNoO == NameNoO \cup {" "}
RECURSIVE Chunk(_, _, _)
Chunk(t, i, spaces) ==
 LET k == SpanEnd(t, i, IF spaces THEN WideNoO ELSE NameNoO) IN IF k > i THEN Chunk(t, k, spaces) ELSE      \* operators begin with o
  LET o == OpEnd(t, i)
      j == IF o > i /\ Ch(t, o) = " " /\ Ch(t, o + 1) # "(" THEN o + 1 ELSE o
  IN IF i > Len(t) THEN i ELSE IF Mem(Ch(t, j), NameChars) \/ (spaces /\ Ch(t, j) = " ") THEN Chunk(t, j + 1, spaces) ELSE j
RECURSIVE SquareEnd(_, _, _)
SquareEnd(t, i, depth) ==      \* after the ] that closes, 0 if none does
  LET k == CSpanEnd(t, i, {"[", "]"})
  IN IF k > Len(t) THEN 0 ELSE IF Ch(t, k) = "[" THEN SquareEnd(t, k + 1, depth + 1) ELSE IF depth = 1 THEN k + 1 ELSE SquareEnd(t, k + 1, depth - 1)
With(t, i) == IF ~StartsAt(t, i, " [with ") THEN i ELSE LET e == SquareEnd(t, i + 7, 1) IN IF e = 0 THEN i ELSE e
RECURSIVE Braces(_, _), Template(_, _), Inside(_, _, _)
Braces(t, i) == IF Ch(t, i) # "(" THEN i ELSE LET e == Inside(t, i + 1, FALSE) IN IF Ch(t, e) = ")" THEN e + 1 ELSE i
Template(t, i) == IF Ch(t, i) # "<" THEN i ELSE LET e == Inside(t, i + 1, TRUE) IN IF Ch(t, e) = ">" THEN e + 1 ELSE i
Inside(t, i, template) ==
  LET w == IF template THEN With(t, i) ELSE i
      c == Chunk(t, i, TRUE)
      e == IF w > i THEN w ELSE IF c > i THEN c ELSE IF Ch(t, i) = "(" THEN Braces(t, i) ELSE Template(t, i)
  IN IF e = i THEN i ELSE Inside(t, e, template)
RECURSIVE Series(_, _)
Series(t, i) ==
  LET c == Chunk(t, i, FALSE)
      e == IF c > i THEN c ELSE IF Ch(t, i) = "(" THEN Braces(t, i) ELSE Template(t, i)
  IN IF e = i THEN i ELSE Series(t, e)
White(t, i) == Mem(Ch(t, i), Space)
(* const belongs to what comes before it *)
WithConst(t, e) == IF White(t, e) /\ StartsAt(t, e + 1, "const") /\ White(t, e + 6) THEN e + 6 ELSE e
(* [name, type], the end included; the end is 0 if there is no name *)
NoName == [end |-> 0, name |-> NULL, type |-> NULL]
Name(t, i) ==
  LET a0 == IF Mem(Ch(t, i), FirstChars) \/ Ch(t, i) = "(" THEN Series(t, i) ELSE i
      a == WithConst(t, a0)
      b0 == IF Chunk(t, a + 1, FALSE) > a + 1 THEN Series(t, a + 1) ELSE a
      b == WithConst(t, b0)
  IN IF StartsAt(t, i, "??") THEN [end |-> i + 2, name |-> "??", type |-> NULL]
     ELSE IF a0 = i \/ ~White(t, a) \/ ~White(t, b) THEN NoName
     ELSE IF b0 = a THEN [end |-> b, name |-> Sub(t, i, b - 1), type |-> NULL]
     ELSE [end |-> b, name |-> Sub(t, a + 1, b - 1), type |-> Sub(t, i, a - 1)]
-----------------------------------------------------------------------------
(* Parameters: parentheses are balanced, but for those in strings and
   characters; 0 if they do not end.  Long ones are cut, and say so. *)
Cut == "(truncated)"
Literal(t, i) == Ch(t, i) = "'" /\ Ch(t, i + 2) = "'" /\ Ch(t, i + 1) # "\\"
Plain == {"(", ")", "'", "\"", "\\"}
(* p: at (read up to there), depth, str (within a string), esc (after a backslash), end *)
Char(t, p, i) ==
  LET c == Ch(t, i)
      cut == ~p.esc /\ c = "(" /\ StartsAt(t, i, Cut)
      d == IF cut THEN 0 ELSE p.depth
  IN IF p.end # 0 \/ i < p.at \/ (~p.esc /\ c \notin Plain) THEN p
     ELSE IF p.str /\ ~cut THEN [p EXCEPT !.str = p.esc \/ c # "\"", !.esc = ~p.esc /\ c = "\\"]
     ELSE IF c = ")" /\ d = 0 THEN [p EXCEPT !.end = i + 1]
     ELSE IF Literal(t, i) THEN [p EXCEPT !.at = i + 3, !.depth = d, !.str = FALSE, !.esc = FALSE]
     ELSE [p EXCEPT !.depth = d + (IF c = "(" THEN 1 ELSE IF c = ")" THEN -1 ELSE 0), !.str = c = "\"", !.esc = FALSE]
RECURSIVE Chars(_, _, _)
Chars(t, i, p) ==      \* a stretch of them at a time
  LET n == Len(t)  e == IF i + 63 > n THEN n ELSE i + 63
      r == FoldLeft(LAMBDA q, k : Char(t, q, k), p, [k \in 1..(e + 1 - i) |-> i + k - 1])
  IN IF i > n THEN 0 ELSE IF r.end # 0 THEN r.end ELSE Chars(t, e + 1, r)
Params(t, i) == Chars(t, i, [at |-> 0, depth |-> 0, str |-> FALSE, esc |-> FALSE, end |-> 0])
Wraps == {" ", "\n"}
(* a name and parameters *)
Call(t, i) ==
  LET n == Name(t, i)  p == SpanEnd(t, n.end, Wraps)
      e == IF n.end = 0 \/ p = n.end \/ Ch(t, p) # "(" THEN 0 ELSE Params(t, p + 1)
  IN [n EXCEPT !.end = e]
(* Where the source is.  A shared library is no source. *)
Shared(f) == LET k == Find(f, "/lib") IN k # 0 /\ (HasSub(From(f, k), ".so.") \/ EndsWith(f, ".so"))
NoPlace == [end |-> 0, file |-> NULL, line |-> U32Max]
Place(t, i) ==
  LET a == SpanEnd(t, i, Wraps)
      b == IF StartsAt(t, a, "at") THEN a + 2 ELSE IF StartsAt(t, a, "from") THEN a + 4 ELSE a
      c == SpanEnd(t, b, {" "})  d == SpanEnd(t, c, FileChars)  f == Sub(t, c, d - 1)
      e == SpanEnd(t, d + 1, Digits)  n == Sub(t, d + 1, e - 1)
      file == IF Shared(f) THEN NULL ELSE f
  IN IF a = i \/ b = a \/ c = b \/ d = c THEN NoPlace
     ELSE IF Ch(t, d) # ":" THEN [end |-> d, file |-> file, line |-> U32Max]
     ELSE IF ~Is32(n) THEN NoPlace
     ELSE [end |-> e, file |-> file, line |-> NormDec(n)]
(* #N  0xADDRESS in NAME (PARAMETERS) at FILE:LINE *)
Sp(t, i) == SpanEnd(t, i, {" "})
Handler == "<signal handler called>"
BadFrame == [how |-> "bad", end |-> 0, frame |-> NoFrame]
Header(t, i) ==
  LET n0 == SpanEnd(t, i + 1, Digits)  num == Sub(t, i + 1, n0 - 1)  a == Sp(t, n0)
      x == SpanEnd(t, a + 2, HexDigits)
      addressed == StartsAt(t, a, "0x") /\ x > a + 2 /\ Is64(Sub(t, a + 2, x - 1))
      in0 == Sp(t, x)  in1 == Sp(t, in0 + 2)
      inOk == in0 > x /\ StartsAt(t, in0, "in") /\ in1 > in0 + 2
      v0 == Sp(t, in1 + 6)  v1 == Sp(t, v0 + 3)
      vtable == StartsAt(t, in1, "vtable") /\ v0 > in1 + 6 /\ StartsAt(t, v0, "for") /\ v1 > v0 + 3
      call == IF ~addressed THEN Call(t, a) ELSE IF inOk THEN Call(t, IF vtable THEN v1 ELSE in1) ELSE [NoName EXCEPT !.end = 0]
      place == Place(t, call.end)
      f == [NoFrame EXCEPT !.number = NormDec(num), !.address = IF addressed THEN HexCanon(Sub(t, a + 2, x - 1)) ELSE AllOnes]
  IN IF Ch(t, i) # "#" \/ ~Is32(num) \/ a = n0 THEN BadFrame
     ELSE IF call.end # 0 THEN [how |-> "ok", end |-> IF place.end = 0 THEN call.end ELSE place.end, frame |-> [f EXCEPT !.function_name = call.name, !.function_type = call.type, !.source_file = place.file, !.source_line = place.line]]
     ELSE IF addressed /\ Call(t, a).end # 0 THEN [BadFrame EXCEPT !.how = "any"]        \* an address for a name
     ELSE IF StartsAt(t, a, Handler) THEN [how |-> "ok", end |-> a + Len(Handler), frame |-> [f EXCEPT !.signal_handler_called = TRUE]]
     ELSE BadFrame
(* variables, up to the next frame or thread *)
NextAt(t, i) ==
  LET starts(k) == SubSeq(t, k, k) = "\n" /\ (Ch(t, k + 1) = "#" \/ StartsAt(t, k + 1, "Thread"))
      j == CHOOSE k \in i..(Len(t) + 1) : (k > Len(t) \/ starts(k)) /\ \A x \in i..(k - 1) : ~starts(x)
  IN IF i > Len(t) THEN Len(t) + 1 ELSE IF j > Len(t) THEN j ELSE j + 1
(* frames from i on, as many as there are: no more than lines *)
Frames(t, i) ==
  LET step(s, k) == IF s.how # "ok" THEN s ELSE LET h == Header(t, s.at) IN IF h.how # "ok" THEN [s EXCEPT !.how = h.how] ELSE [s EXCEPT !.at = NextAt(t, s.at), !.frames = Append(@, h.frame)]
  IN FoldLeft(step, [how |-> "ok", at |-> i, frames |-> <<>>], <<0, 0>> \o NewLines(t))
-----------------------------------------------------------------------------
(* Thread N (LWP N) or Thread N (Thread 0xID (LWP N)) *)
NoLwp == <<>>
Lwp(t, i) == LET e == SpanEnd(t, i + 5, Digits)  n == Sub(t, i + 5, e - 1) IN IF StartsAt(t, i, "(LWP ") /\ Is32(n) /\ Ch(t, e) = ")" THEN <<e + 1, NormDec(n)>> ELSE NoLwp
ThreadHead(t, i) ==      \* [end, number, tid], the end 0 if there is no such line
  LET a == Sp(t, i + 6)  b == SpanEnd(t, a, Digits)  num == Sub(t, a, b - 1)  c == Sp(t, b)
      l == Lwp(t, c)  d == IF l = NoLwp THEN c ELSE l[1]
      thr == StartsAt(t, d, "(Thread ")
      x == SpanEnd(t, d + 10, HexDigits)
      e == IF StartsAt(t, d + 8, "0x") /\ x > d + 10 THEN x ELSE SpanEnd(t, d + 8, Digits)
      g == Sp(t, e)  m == Lwp(t, g)  h == IF m = NoLwp THEN g ELSE m[1]
      z == IF thr THEN h + 1 ELSE d
      ok == a > i + 6 /\ Is32(num) /\ c > b /\ (thr => e > d + 8 /\ Ch(t, h) = ")") /\ StartsAt(t, z, ":\n")
  IN [end |-> IF ok THEN z + 2 ELSE 0, number |-> NormDec(num), tid |-> IF thr /\ m # NoLwp THEN m[2] ELSE IF l # NoLwp THEN l[2] ELSE U32Max]
(* reading stops at what is no thread and no frame *)
Threads(t, i) ==
  LET step(s, k) ==
        LET headed == StartsAt(t, s.at, "Thread")  h == ThreadHead(t, s.at)
            fs == Frames(t, IF headed THEN h.end ELSE s.at)
        IN IF s.how # "more" THEN s
           ELSE IF headed /\ h.end = 0 THEN [s EXCEPT !.how = "ok"]
           ELSE IF fs.how = "any" THEN [s EXCEPT !.how = "any"]
           ELSE IF fs.frames = <<>> THEN [s EXCEPT !.how = "ok"]
           ELSE [s EXCEPT !.at = fs.at, !.threads = Append(@, [number |-> IF headed THEN h.number ELSE "0", tid |-> IF headed THEN h.tid ELSE U32Max, frames |-> fs.frames])]
  IN FoldLeft(step, [how |-> "more", at |-> i, threads |-> <<>>], <<0, 0>> \o NewLines(t))
(* the crash frame comes before the first thread, if there is one *)
Read(t) ==
  LET th == FindFrom(t, 1, "\nThread ")  fr == FindFrom(t, 1, "\n#")
      crash == fr # 0 /\ (th = 0 \/ fr < th)
      h == Header(t, fr + 1)
      r == Threads(t, IF crash THEN NextAt(t, fr + 1) ELSE th + 1)
      bad(how) == [how |-> how, crash |-> <<>>, threads |-> <<>>, libs |-> <<>>]
  IN IF th = 0 /\ fr = 0 THEN bad("bad")
     ELSE IF crash /\ h.how # "ok" THEN bad(h.how)
     ELSE IF r.how = "any" THEN bad("any")
     ELSE IF r.threads = <<>> THEN bad("bad")
     ELSE LET ls == Libraries!ParseLibs(t)
          IN IF \E k \in DOMAIN ls : Len(ls[k].from) > 18 \/ Len(ls[k].to) > 18 THEN bad("any")        \* no such addresses
             ELSE [how |-> "ok", crash |-> IF crash THEN <<h.frame>> ELSE <<>>, threads |-> r.threads, libs |-> ls]
-----------------------------------------------------------------------------
(* as gdb writes them *)
ShowFrame(f, params) ==
  "#" \o f.number \o (IF Len(f.number) = 1 THEN "  " ELSE " ")
  \o (IF f.signal_handler_called THEN Handler
      ELSE (IF f.address = AllOnes THEN "" ELSE f.address \o " in ") \o (IF f.function_type = NULL THEN "" ELSE f.function_type \o " ") \o f.function_name \o " (" \o params \o ")"
           \o (IF f.source_file = NULL THEN "" ELSE " at " \o f.source_file \o (IF f.source_line = U32Max THEN "" ELSE ":" \o f.source_line))) \o "\n"
ShowHead(th) == "\nThread " \o th.number \o " " \o (IF th.tid = U32Max THEN "" ELSE "(Thread 0x7f (LWP " \o th.tid \o "))") \o ":\n"
RunGdb(c) == Read(c.text)
=============================================================================
