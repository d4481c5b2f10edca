----------------------------- MODULE KoopsText -----------------------------
(* Kernel oopses: lines of a kernel log, some of which are frames, the list of
   modules, the instruction pointer, or marks of special stacks. *)
EXTENDS TextBase
NoFrame == [address |-> "0x0", reliable |-> FALSE, function_name |-> NULL, function_offset |-> "0x0", function_length |-> "0x0", module_name |-> NULL, from_address |-> "0x0",
            from_function_name |-> NULL, from_function_offset |-> "0x0", from_function_length |-> "0x0", from_module_name |-> NULL, special_stack |-> NULL]
B == {" ", "\t"}
Sp(l, i) == SpanEnd(l, i, B)
-----------------------------------------------------------------------------
(* Pieces of a line l at position i.  Each gives where it ends, or 0. *)
Hex(l, i) == LET e == SpanEnd(l, i, HexDigits) IN [at |-> IF e = i \/ Len(HexDigitsOf(HexCanon(Sub(l, i, e - 1)))) > 16 THEN 0 ELSE e, value |-> Sub(l, i, e - 1)]
Hex0x(l, i) == IF StartsAt(l, i, "0x") THEN Hex(l, i + 2) ELSE [at |-> 0, value |-> ""]
(* [<ADDRESS>] or [ADDRESS] *)
Address(l, i) ==
  LET angle == Ch(l, i + 1) = "<"  h == Hex(l, IF angle THEN i + 2 ELSE i + 1)
      ok == Ch(l, i) = "[" /\ h.at # 0 /\ (IF angle THEN StartsAt(l, h.at, ">]") ELSE Ch(l, h.at) = "]")
  IN [at |-> IF ~ok THEN 0 ELSE IF angle THEN h.at + 2 ELSE h.at + 1, value |-> IF ok THEN HexCanon(h.value) ELSE "0x0"]
(* [MODULE] *)
Module(l, i) == LET e == CSpanEnd(l, i + 1, {" ", "\t", "]"}) ok == Ch(l, i) = "[" /\ e > i + 1 /\ Ch(l, e) = "]"
                IN [at |-> IF ok THEN e + 1 ELSE 0, name |-> IF ok THEN Sub(l, i + 1, e - 1) ELSE NULL]
(* NAME+0xOFFSET/0xLENGTH [MODULE], or only an address, either in parentheses *)
Function(l, i) ==
  LET paren == Ch(l, i) = "("
      a == IF paren THEN i + 1 ELSE i
      close(k) == IF ~paren THEN k ELSE IF Ch(l, k) = ")" THEN k + 1 ELSE 0
      x == Hex0x(l, a)
      n == CSpanEnd(l, a, {" ", "\t", ")", "+", "<"})
      o == Hex0x(l, n + 1)  s == IF o.at = 0 THEN n + 1 ELSE o.at
      z == Hex0x(l, s + 1)  e == IF z.at = 0 THEN s + 1 ELSE z.at
      m == Module(l, Sp(l, e))
      named == n > a /\ Ch(l, n) = "+" /\ Ch(l, s) = "/"
      none == [at |-> 0, name |-> NULL, offset |-> "0x0", length |-> "0x0", module |-> NULL]
  IN IF x.at # 0 THEN [none EXCEPT !.at = close(x.at)]
     ELSE IF ~named THEN none
     ELSE [at |-> close(Sp(l, IF m.at # 0 THEN m.at ELSE Sp(l, e))), name |-> Sub(l, a, n - 1), offset |-> IF o.at = 0 THEN "0x0" ELSE HexCanon(o.value), length |-> IF z.at = 0 THEN "0x0" ELSE HexCanon(z.value), module |-> m.name]
Of(f, p) == [f EXCEPT !.function_name = p.name, !.function_offset = p.offset, !.function_length = p.length, !.module_name = p.module]
FromOf(f, p) == [f EXCEPT !.from_function_name = p.name, !.from_function_offset = p.offset, !.from_function_length = p.length, !.from_module_name = p.module]
-----------------------------------------------------------------------------
(* Frames: [rest, frame], rest the position after the frame, 0 if none.
   PowerPC:  [SP] [ADDRESS] .FUNCTION (unreliable)
   reduced:  [ADDRESS] (NAME) from [ADDRESS] (FUNCTION)
   usual:    [ADDRESS] ? FUNCTION from [ADDRESS] FUNCTION [MODULE] *)
None == [rest |-> 0, frame |-> NoFrame]
Ppc(l) ==
  LET a == Address(l, Sp(l, 1))
      b == Address(l, Sp(l, a.at))
      i == Sp(l, b.at)
      f == Function(l, IF Ch(l, i) = "." THEN i + 1 ELSE i)
      u == Sp(l, f.at)  un == StartsAt(l, u, "(unreliable)")
      e == Sp(l, IF un THEN u + 12 ELSE u)
  IN IF a.at = 0 THEN None ELSE IF b.at = 0 THEN None ELSE IF f.at = 0 THEN None ELSE IF e <= Len(l) THEN None
     ELSE [rest |-> e, frame |-> Of([NoFrame EXCEPT !.address = b.value, !.reliable = ~un], f)]
Reduced(l) ==
  LET a == Address(l, Sp(l, 1))
      q == Sp(l, a.at)  un == Ch(l, q) = "?"
      p == Sp(l, IF un THEN q + 1 ELSE q)
      n == CSpanEnd(l, p + 1, {" ", "\t", ")", "+", "<"})
      w == Sp(l, n + 1)
      b == Address(l, Sp(l, w + 4))
      f == Function(l, Sp(l, b.at))
  IN IF a.at = 0 THEN None ELSE IF Ch(l, p) # "(" \/ n = p + 1 \/ Ch(l, n) # ")" \/ ~StartsAt(l, w, "from") THEN None ELSE IF b.at = 0 THEN None ELSE IF f.at = 0 THEN None
     ELSE [rest |-> f.at, frame |-> FromOf([NoFrame EXCEPT !.address = a.value, !.reliable = ~un, !.function_name = Sub(l, p + 1, n - 1), !.from_address = b.value], f)]
Usual(l) ==
  LET i == Sp(l, 1)  paren == Ch(l, i) = "("
      i1 == IF paren THEN i + 1 ELSE i
      a == Address(l, i1)
      x == Hex0x(l, i1)
      q == Sp(l, IF a.at # 0 THEN a.at ELSE i1)  un == Ch(l, q) = "?"
      f == Function(l, Sp(l, IF un THEN q + 1 ELSE q))
      w == Sp(l, f.at)  from == StartsAt(l, w, "from")
      b == Address(l, Sp(l, w + 4))
      g == Function(l, Sp(l, b.at))
      e == IF from THEN Sp(l, g.at) ELSE w
      m == IF f.module = NULL THEN Module(l, e) ELSE [at |-> 0, name |-> NULL]
      e1 == IF m.at # 0 THEN Sp(l, m.at) ELSE e
      e2 == IF ~paren THEN e1 ELSE IF Ch(l, e1) = ")" THEN Sp(l, e1 + 1) ELSE 0
      fr == Of([NoFrame EXCEPT !.address = a.value, !.reliable = ~un], f)
      fr2 == IF from THEN FromOf([fr EXCEPT !.from_address = b.value], g) ELSE fr
  IN IF a.at = 0 /\ x.at # 0 THEN IF x.at > Len(l) THEN [rest |-> x.at, frame |-> [NoFrame EXCEPT !.address = HexCanon(x.value)]] ELSE None
     ELSE IF f.at = 0 THEN None
     ELSE IF from /\ (b.at = 0 \/ g.at = 0) THEN None
     ELSE IF e2 = 0 \/ e2 <= Len(l) THEN None
     ELSE [rest |-> e2, frame |-> IF m.at # 0 THEN [fr2 EXCEPT !.module_name = m.name] ELSE fr2]
Frame(l) == LET p == Ppc(l) IN IF p.rest # 0 THEN p ELSE LET r == Reduced(l) IN IF r.rest # 0 THEN r ELSE Usual(l)
-----------------------------------------------------------------------------
(* [ 12.345678] *)
Timestamp(l, i) == LET a == SpanEnd(l, i + 1, Space)  b == SpanEnd(l, a, Digits)  c == SpanEnd(l, b + 1, Digits)
                   IN IF Ch(l, i) = "[" /\ b > a /\ Ch(l, b) = "." /\ c > b + 1 /\ Ch(l, c) = "]" THEN c + 1 ELSE 0
Bare(l) == LET i == Sp(l, 1)  t == Timestamp(l, i) IN From(l, Sp(l, IF t = 0 THEN i ELSE t))
(* the instruction pointer *)
Ip(u) ==
  LET i == Sp(u, 5)  gap == i > 5
      e == CSpanEnd(u, i, B)  k == Sp(u, e)
      r == Frame(From(u, k))
      a == Address(u, i)
      q == Sp(u, a.at)  un == Ch(u, q) = "?"
      f == Function(u, Sp(u, IF un THEN q + 1 ELSE q))
  IN IF StartsWith(u, "RIP:") THEN IF gap /\ e > i /\ k > e /\ r.rest # 0 THEN <<r.frame>> ELSE <<>>
     ELSE IF StartsWith(u, "EIP:") THEN IF gap /\ a.at # 0 /\ f.at # 0 THEN << Of([NoFrame EXCEPT !.address = a.value, !.reliable = ~un], f) >> ELSE <<>>
     ELSE <<>>
(* <EOI>, <<EOE>> end a special stack; <IRQ>, <NMI> begin one *)
StackEnd(u, i) == LET a == Sp(u, i)  b == SpanEnd(u, a, {"<"})  c == b + 2  d == SpanEnd(u, c, {"I", "E"})  e == SpanEnd(u, d, {">"})
                  IN IF b > a /\ StartsAt(u, b, "EO") /\ d > c /\ e > d THEN e ELSE 0
StackBegin(u, i) == LET a == Sp(u, i)  e == CSpanEnd(u, a + 1, {">", " ", "\t"}) IN IF Ch(u, a) = "<" /\ e > a + 1 /\ Ch(u, e) = ">" THEN [at |-> e + 1, name |-> Sub(u, a + 1, e - 1)] ELSE [at |-> 0, name |-> NULL]
(* the list of modules goes on in lines that are none of these *)
Ends(l) == Timestamp(l, 1) # 0 \/ StartsWith(l, "Pid: ") \/ (StartsWith(l, "CR2: ") /\ Ch(l, 6) \in HexDigits)
           \/ \E w \in {"CPU", "irq event stamp"} : StartsWith(l, w) /\ LET a == Len(w) + 1  b == SpanEnd(l, a, {" ", ":"}) IN b > a /\ Ch(l, b) \in Digits
ModList == "Modules linked in:"
RECURSIVE Tokens(_, _, _)
(* [names, open: whether the line was read to its end, ws: whether it ends with space, rest] *)
Tokens(l, i, r) == LET e == CSpanEnd(l, i, {" ", "\t", "["}) IN IF e = i THEN [r EXCEPT !.open = i > Len(l), !.rest = From(l, i)]
                   ELSE LET k == Sp(l, e) IN Tokens(l, k, [r EXCEPT !.names = Append(@, Sub(l, i, e - 1)), !.ws = k > e])
-----------------------------------------------------------------------------
(* s: mode (modules: within their list), mods (as read, at most one list), ws, ip, alt, frames, how *)
Start == [mode |-> "text", mods |-> <<>>, ws |-> FALSE, ip |-> FALSE, alt |-> NULL, frames |-> <<>>, how |-> "ok"]
AltOf(u) == LET a == StackEnd(u, 1)  i == IF a # 0 THEN a ELSE 1  b == StackBegin(u, i)
            IN [end |-> a # 0, begin |-> b.name, rest |-> From(u, IF b.at # 0 THEN b.at ELSE i)]
FrameLine(s, u) ==
  LET x == AltOf(u)
      alt == IF x.begin # NULL THEN x.begin ELSE IF x.end THEN NULL ELSE s.alt
      f == Frame(x.rest)
      s1 == [s EXCEPT !.alt = alt, !.how = IF x.begin # NULL /\ (Ch(x.begin, 1) = "/" \/ (TrimLeft(x.rest, B) # "" /\ f.rest = 0)) THEN "any" ELSE @]
  IN IF f.rest = 0 THEN s1
     ELSE [s1 EXCEPT !.frames = Append(@, [f.frame EXCEPT !.special_stack = alt]), !.how = IF TrimLeft(From(x.rest, f.rest), B) # "" THEN "any" ELSE @]
TextLine0(s, l) ==
  LET u == Bare(l)
      ip == IF s.ip THEN <<>> ELSE Ip(u)
  IN IF u = "Last Breaking-Event-Address:" THEN [s EXCEPT !.mode = "done"]
     ELSE IF ip # <<>> THEN [s EXCEPT !.ip = TRUE, !.frames = ip \o @]
     ELSE FrameLine(s, u)
InModules(s, r) == [s EXCEPT !.mode = IF r.open THEN "modules" ELSE "text", !.mods = <<r.names>>, !.ws = r.ws]
TextLine(s, l) ==
  LET u == Bare(l)
      a == Sp(u, Len(ModList) + 1)
      r == Tokens(u, a, [names |-> <<>>, open |-> FALSE, ws |-> a > Len(ModList) + 1, rest |-> ""])
      s1 == InModules(s, r)
  IN IF s.mods # <<>> \/ ~StartsWith(u, ModList) THEN TextLine0(s, l) ELSE IF r.open THEN s1 ELSE TextLine0(s1, r.rest)
Line(s, l) ==
  IF s.mode = "done" THEN s
  ELSE IF s.mode = "text" THEN TextLine(s, l)
  ELSE LET joined == Ch(l, 1) # " " /\ ~s.ws /\ s.mods[1] # <<>>
           e == CSpanEnd(l, 1, {" ", "\t", "["})  k == Sp(l, e)
           names == s.mods[1]
           r == IF joined THEN Tokens(l, k, [names |-> [names EXCEPT ![Len(names)] = @ \o Upto(l, e - 1)], open |-> FALSE, ws |-> k > e, rest |-> ""])
                ELSE LET a == Sp(l, 1) IN Tokens(l, a, [names |-> names, open |-> FALSE, ws |-> a > 1, rest |-> ""])
           s1 == InModules(s, r)
       IN IF Ends(l) \/ (joined /\ e = 1) THEN TextLine([s EXCEPT !.mode = "text"], l) ELSE IF r.open THEN s1 ELSE TextLine0(s1, r.rest)
Taint == "Tainted: "
(* letters after the mark, up to what is neither a capital nor a space *)
Flags(t) == LET i == Find(t, Taint) IN IF i = 0 THEN {} ELSE LET a == i + Len(Taint) IN CharSet(Sub(t, a, SpanEnd(t, a, Upper \cup {" "}) - 1)) \ {" "}
FlagNames == [P |-> "module_proprietary", F |-> "forced_module", S |-> "smp_unsafe", R |-> "forced_removal", M |-> "mce", B |-> "page_release", U |-> "userspace", D |-> "died_recently", A |-> "acpi_overridden",
              W |-> "warning", C |-> "staging_driver", I |-> "firmware_workaround", O |-> "module_out_of_tree", E |-> "unsigned_module", L |-> "soft_lockup", K |-> "live_patched"]
Read(t) ==
  LET ls == LinesOf(t)  s == FoldLeft(Line, Start, ls)
  IN [how |-> IF \E i \in 1..Len(ls) : TrimLeft(ls[i], B) # "" /\ Ch(TrimLeft(ls[i], B), 1) = "[" /\ TrimLeft(From(TrimLeft(ls[i], B), 2), Space) = "" THEN "any" ELSE s.how, reason |-> IF ls = <<>> THEN "" ELSE ls[1], modules |-> s.mods, taints |-> { FlagNames[c] : c \in Flags(t) \cap DOMAIN FlagNames }, frames |-> s.frames]
-----------------------------------------------------------------------------
ShowFunction(n, o, z, m) == n \o "+" \o o \o "/" \o z \o (IF m = NULL THEN "" ELSE " [" \o m \o "]")
ShowFrame(f) ==
  "[<" \o HexDigitsOf(f.address) \o ">] " \o (IF f.reliable THEN "" ELSE "? ")
  \o (IF f.from_address = "0x0" THEN ShowFunction(f.function_name, f.function_offset, f.function_length, f.module_name)
      ELSE "(" \o ShowFunction(f.function_name, f.function_offset, f.function_length, f.module_name) \o ") from [<" \o HexDigitsOf(f.from_address) \o ">] (" \o ShowFunction(f.from_function_name, f.from_function_offset, f.from_function_length, f.from_module_name) \o ")")
RunKoops(c) == LET r == Read(c.text) IN [r EXCEPT !.taints = SetToSeq(r.taints)]
=============================================================================
