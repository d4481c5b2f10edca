------------------------------ MODULE RubyText ------------------------------
(* Ruby stack traces as text:
   FILE:LINE:in `FUNCTION': MESSAGE (CLASS)
   <tab>from FILE:LINE:in `FUNCTION'  ... *)
EXTENDS TextBase
NoFrame == [file_name |-> NULL, function_name |-> NULL, file_line |-> "0", special_function |-> FALSE, block_level |-> "0", rescue_level |-> "0"]
From0 == "\tfrom "
In == ":in "
Resc == "rescue in "
BlockIn == "block in "
BlockN == "block ("
Levels == " levels) in "
-----------------------------------------------------------------------------
Rescues(t, i) ==      \* how many there are from i on
  LET n == Len(t) \div Len(Resc)  at(k) == StartsAt(t, i + k * Len(Resc), Resc)
  IN CHOOSE k \in 0..(n + 1) : (k > n \/ ~at(k)) /\ \A x \in 0..(k - 1) : at(x)
(* <main>, <top (required)>, <class:X>, but not the operator <=> *)
Special(s) == Len(s) >= 3 /\ Ch(s, 1) = "<" /\ Ch(s, Len(s)) = ">" /\ Ch(s, 2) \in Alpha
(* a frame at i: [ok, next, frame] *)
Frame(t, i) ==
  LET q == CSpanEnd(t, i, {"`"})  pre == Sub(t, i, q - 1)
      n == Len(pre) - Len(In)                               \* FILE:LINE ends here
      place == Upto(pre, n)
      c == FindLast(place, ":")
      num == From(place, c + 1)
      r == Rescues(t, q + 1)
      b == q + 1 + r * Len(Resc)
      one == StartsAt(t, b, BlockIn)
      many == ~one /\ StartsAt(t, b, BlockN)
      d0 == b + Len(BlockN)  d1 == SpanEnd(t, d0, Digits)  levels == Sub(t, d0, d1 - 1)
      f0 == IF one THEN b + Len(BlockIn) ELSE IF many THEN d1 + Len(Levels) ELSE b
      f1 == CSpanEnd(t, f0, {"'"})  func == Sub(t, f0, f1 - 1)
      ok == q <= Len(t) /\ n >= 1 /\ EndsWith(pre, In) /\ c # 0 /\ Is32(num) /\ (many => Is32(levels) /\ StartsAt(t, d1, Levels)) /\ func # "" /\ f1 <= Len(t)
  IN [ok |-> ok, next |-> f1 + 1, odd |-> FindFrom(pre, 1, "\n") # 0 \/ FindFrom(func, 1, "\n") # 0,
      frame |-> [file_name |-> Hide(Upto(place, c - 1)), file_line |-> NormDec(num), rescue_level |-> ToString(r), block_level |-> IF one THEN "1" ELSE IF many THEN NormDec(levels) ELSE "0",
                 function_name |-> IF Special(func) THEN Sub(func, 2, Len(func) - 1) ELSE func, special_function |-> Special(func)]]
(* s: [how, at, frames]; every caller has a line of its own *)
Callers(t, s0) ==
  LET step(s, i) ==
        IF s.at > Len(t) \/ s.how = "bad" THEN s
        ELSE IF ~StartsAt(t, s.at, From0) THEN [s EXCEPT !.how = "bad"]
        ELSE LET f == Frame(t, s.at + Len(From0))
             IN IF ~f.ok \/ ~(f.next > Len(t) \/ Ch(t, f.next) = "\n") THEN [s EXCEPT !.how = "bad"]
                ELSE [how |-> IF f.odd THEN "any" ELSE s.how, at |-> f.next + 1, frames |-> Append(s.frames, f.frame)]
  IN FoldLeft(step, s0, <<0>> \o NewLines(t))
Refused == [how |-> "bad", exception_name |-> NULL, frames |-> <<>>]
Read(t) ==
  LET f == Frame(t, 1)
      m0 == f.next + 2
      k == FindFrom(t, m0, "\n" \o From0)
      m1 == IF k # 0 THEN k ELSE IF Ch(t, Len(t)) = "\n" THEN Len(t) ELSE Len(t) + 1         \* the message ends before m1
      msg == Sub(t, m0, m1 - 1)
      c == FindLast(msg, "(")  class == Sub(msg, c + 1, Len(msg) - 1)
      s == Callers(t, [how |-> IF f.odd THEN "any" ELSE "ok", at |-> m1 + 1, frames |-> <<f.frame>>])
  IN IF ~f.ok \/ ~StartsAt(t, f.next, ": ") \/ m0 > Len(t) \/ ~HasSub(msg, ")") \/ ~HasSub(msg, "(") THEN Refused
     ELSE IF ~EndsWith(msg, ")") THEN [Refused EXCEPT !.how = "any"]       \* a message may go on after the class: not judged
     ELSE IF c = 0 \/ class = "" \/ s.how = "bad" THEN Refused
     ELSE [how |-> s.how, exception_name |-> class, frames |-> s.frames]
-----------------------------------------------------------------------------
Times(n, s) == Join([i \in 1..n |-> s])
ShowFrame(f) == f.file_name \o ":" \o f.file_line \o In \o "`" \o Times(IF f.rescue_level = "2" THEN 2 ELSE IF f.rescue_level = "1" THEN 1 ELSE 0, Resc)
                \o (IF f.block_level = "0" THEN "" ELSE IF f.block_level = "1" THEN BlockIn ELSE BlockN \o f.block_level \o Levels)
                \o (IF f.special_function THEN "<" \o f.function_name \o ">" ELSE f.function_name) \o "'"
Show(fs, msg, class) == ShowFrame(fs[1]) \o ": " \o msg \o " (" \o class \o ")\n" \o Join([i \in 1..(Len(fs) - 1) |-> From0 \o ShowFrame(fs[i + 1]) \o "\n"])
RunRuby(c) == Read(c.text)
=============================================================================
