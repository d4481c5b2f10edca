-------------------------------- MODULE Libs --------------------------------
(* Shared libraries in gdb's "info sharedlibrary" output, modules in
   "eu-unstrip -n" output, and what covers an address. *)
EXTENDS Render
Ws(s, i) == SpanEnd(s, i, Space)
NonWs(s, i) == CSpanEnd(s, i, Space)
Eol(s, i) == CSpanEnd(s, i, {"\n"})
Bol(s, i) == i = 1 \/ Ch(s, i - 1) = "\n"
AllOnes == "0xffffffffffffffff"

(* ---- gdb: a heading line, then one line per library:
        [from to] Yes or No, or Yes with a star, then the path *)
HeadEnd(s, i) ==      \* position after the heading that starts at i, 0 if there is none
  LET a == Ws(s, i + 4)  b == Ws(s, a + 2)  c == Ws(s, b + 9)
  IN IF Bol(s, i) /\ StartsAt(s, i, "From") /\ StartsAt(s, a, "To") /\ StartsAt(s, b, "Syms Read") /\ StartsAt(s, c, "Shared Object Library\n") THEN c + 22 ELSE 0
RECURSIVE LibHead(_, _)
LibHead(s, i) == LET k == FindFrom(s, i, "From") IN IF k = 0 THEN 0 ELSE IF HeadEnd(s, k) # 0 THEN HeadEnd(s, k) ELSE LibHead(s, k + 1)
Hex0(s, i) == IF StartsAt(s, i, "0x") THEN i + 2 ELSE i
HexEnd(s, i) == SpanEnd(s, Hex0(s, i), HexDigits)
HexHere(s, i) == HexEnd(s, i) > Hex0(s, i)
HexAt(s, i) == HexCanon(Sub(s, Hex0(s, i), HexEnd(s, i) - 1))
RECURSIVE LibLines(_, _, _)
LibLines(s, i, acc) ==
  LET blank == Ch(s, i) # "" /\ Ch(s, i) \in Space
      t == Ws(s, HexEnd(s, i))
      k == IF blank THEN Ws(s, i) ELSE SpanEnd(s, i, HexDigits \cup Space \cup {"x"})
      sym == IF StartsAt(s, k, "Yes (*)") THEN <<2, 7>> ELSE IF StartsAt(s, k, "Yes") THEN <<0, 3>> ELSE IF StartsAt(s, k, "No") THEN <<1, 2>> ELSE <<3, 0>>
      p == Ws(s, k + sym[2])  e == Eol(s, p)
      lib == [from |-> IF blank THEN AllOnes ELSE HexAt(s, i), to |-> IF blank THEN AllOnes ELSE HexAt(s, t), symbols |-> sym[1], soname |-> Sub(s, p, e - 1)]
  IN IF i > Len(s) \/ (~blank /\ ~(HexHere(s, i) /\ HexHere(s, t))) \/ sym[1] = 3 THEN acc ELSE LibLines(s, IF e > Len(s) THEN e ELSE e + 1, Append(acc, lib))
ParseLibs(s) == LET h == LibHead(s, 1) IN IF h = 0 THEN <<>> ELSE LibLines(s, h, <<>>)

(* ---- eu-unstrip: 0xSTART+0xSIZE BUILDID[@ADDR] FILE DEBUGFILE MODULE *)
RECURSIVE UnstripLines(_, _, _)
UnstripLines(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET a == SpanEnd(s, i + 2, HexDigits)  b == SpanEnd(s, a + 3, HexDigits)
           ok == StartsAt(s, i, "0x") /\ a > i + 2 /\ StartsAt(s, a, "+0x") /\ b > a + 3
           bid == Ws(s, b)  bidE == SpanEnd(s, bid, HexDigits)
           fil == Ws(s, NonWs(s, bidE))  filE == NonWs(s, fil)
           dbg == Ws(s, filE)  mod == Ws(s, NonWs(s, dbg))  modE == NonWs(s, mod)
           eol == Eol(s, IF ok THEN modE ELSE i)
           e == [start |-> HexCanon(Sub(s, i + 2, a - 1)), length |-> HexCanon(Sub(s, a + 3, b - 1)), build_id |-> Sub(s, bid, bidE - 1), file_name |-> Sub(s, fil, filE - 1), mod_name |-> Sub(s, mod, modE - 1)]
       IN UnstripLines(s, eol + 1, IF ok THEN Append(acc, e) ELSE acc)
ParseUnstrip(s) == UnstripLines(s, 1, <<>>)
Covers(e, a) == U64Cmp(e.start, a) <= 0 /\ U64Cmp(U64Add(e.start, e.length), a) > 0
FindMod(es, a) == LET x == { i \in DOMAIN es : Covers(es[i], a) } IN IF x = {} THEN 0 ELSE CHOOSE i \in x : \A j \in x : i <= j

(* Writing such listings; reading them back gives what was written. *)
ShowLib(l) == (IF l.from = AllOnes THEN "                        " ELSE l.from \o "  " \o l.to) \o "  " \o (CASE l.symbols = 2 -> "Yes (*)" [] l.symbols = 0 -> "Yes" [] OTHER -> "No") \o "     " \o l.soname \o NL
ShowLibs(ls) == "From                To                  Syms Read   Shared Object Library\n" \o ConcatAll([i \in DOMAIN ls |-> ShowLib(ls[i])])
ShowMod(e) == e.start \o "+" \o e.length \o " " \o e.build_id \o "@0x1 " \o e.file_name \o " - " \o e.mod_name \o NL
ShowMods(es) == ConcatAll([i \in DOMAIN es |-> ShowMod(es[i])])

RunParseLibs(c) == ParseLibs(c.text)
RunUnstrip(c) == LET es == ParseUnstrip(c.text) IN [entries |-> es, found |-> [i \in DOMAIN c.addrs |-> FindMod(es, c.addrs[i]) - 1]]
=============================================================================
