-------------------------------- MODULE Scan --------------------------------
(* The scanner all readers are made of: a position in a text, a line and a
   column that tell where that is, and primitive steps.  Texts are sequences of
   byte codes.  Positions are 1-based; past the end there is no character. *)
EXTENDS SatyrBase, SequencesExt
Nl == 10
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
Set(s) == { s[i] : i \in 1..Len(s) }
RECURSIVE RunEnd(_, _, _)
RunEnd(t, i, set) == IF i <= Len(t) /\ t[i] \in set THEN RunEnd(t, i + 1, set) ELSE i
RECURSIVE RunOut(_, _, _)
RunOut(t, i, set) == IF i <= Len(t) /\ ~(t[i] \in set) THEN RunOut(t, i + 1, set) ELSE i
Here(t, i, s) == i + Len(s) - 1 <= Len(t) /\ \A k \in 1..Len(s) : t[i + k - 1] = s[k]
RECURSIVE Seek(_, _, _)
Seek(t, i, s) == IF i + Len(s) - 1 > Len(t) THEN 0 ELSE IF Here(t, i, s) THEN i ELSE Seek(t, i + 1, s)
Piece(t, i, j) == IF j <= i THEN <<>> ELSE SubSeq(t, i, j - 1)
Rest(t, i) == Piece(t, i, Len(t) + 1)
(* line from 1, column from 0 *)
Where(t, i) ==
  LET nls == { k \in 1..(i - 1) : t[k] = Nl }
      last == IF nls = {} THEN 0 ELSE CHOOSE k \in nls : \A m \in nls : m <= k
  IN [line |-> 1 + Cardinality(nls), column |-> i - 1 - last]
Add(p, q) == IF q.line > 1 THEN [line |-> p.line + q.line - 1, column |-> q.column] ELSE [p EXCEPT !.column = @ + q.column]
-----------------------------------------------------------------------------
Decimals == 48..57
Hexes == Decimals \cup 65..70 \cup 97..102
Whites == {9, 10, 11, 12, 13, 32}
DigitOf(c) == IF c \in Decimals THEN Ch("0123456789", c - 47) ELSE IF c \in 65..70 THEN Ch("abcdef", c - 64) ELSE Ch("abcdef", c - 96)
NumberText(s) == FoldLeft(LAMBDA a, c : a \o DigitOf(c), "", s)
U64MaxDec == "18446744073709551615"
(* the outcome: what is returned, the value if any, and the position *)
Out(i, ret, val, pos) == [ret |-> ret, val |-> val, pos |-> pos]
Fail(i) == Out(i, 0, NULL, i)
Moved(i, e) == Out(i, e - i, NULL, e)                        \* as many as were passed
Flag(i, b, e) == IF b THEN Out(i, 1, NULL, e) ELSE Fail(i)
Got(t, i, e) == IF e = i THEN Fail(i) ELSE Out(i, e - i, Piece(t, i, e), e)
Decimal(t, i, max) == LET e == RunEnd(t, i, Decimals)  n == NormDec(NumberText(Piece(t, i, e))) IN IF e = i \/ NumCmp(n, max) > 0 THEN Fail(i) ELSE Out(i, e - i, n, e)
HexEnd(t, i) == RunEnd(t, i, Hexes)
Prefix(t, i) == Here(t, i, <<48, 120>>) /\ HexEnd(t, i + 2) > i + 2
Hex(t, a, i) == LET e == HexEnd(t, i)  h == HexCanon(NumberText(Piece(t, i, e))) IN IF e = i \/ Len(h) > 18 THEN Fail(a) ELSE Out(a, e - a, h, e)
Nibble(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Spaces(n) == [k \in 1..n |-> 32]
(* lines are indented but for the first, and for one that is missing *)
Indent(s, n) == FoldLeftDomain(LAMBDA a, k : a \o <<s[k]>> \o (IF s[k] = Nl /\ k < Len(s) THEN Spaces(n) ELSE <<>>), <<>>, s)
Home == <<47, 104, 111, 109, 101, 47>>
Anon == Home \o <<97, 110, 111, 110, 121, 109, 105, 122, 101, 100>>
HidePath(s) == LET k == RunOut(s, Len(Home) + 1, {47}) IN IF Here(s, 1, Home) /\ k <= Len(s) THEN Anon \o Rest(s, k) ELSE s
RECURSIVE SlashJoin(_)
SlashJoin(l) == IF Len(l) = 1 THEN l[1] ELSE l[1] \o <<47>> \o SlashJoin(Tail(l))
Uniq(l) == FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)] = x THEN a ELSE Append(a, x), <<>>, l)
RECURSIVE SeqCmp(_, _, _)
SeqCmp(a, b, i) == IF i > Len(a) /\ i > Len(b) THEN 0 ELSE IF At(a, i) = At(b, i) THEN SeqCmp(a, b, i + 1) ELSE Sgn(At(a, i) - At(b, i))
LineWord == <<76, 105, 110, 101, 32>>
ColumnWord == <<44, 32, 99, 111, 108, 117, 109, 110, 32>>
RECURSIVE DecCodes(_)
DecCodes(n) == (IF n >= 10 THEN DecCodes(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>
Step(t, i, c) ==
  LET name == c.op
      span == RunEnd(t, i, Set(c.set))  cspan == RunOut(t, i, Set(c.set))
  IN CASE name = "goto" -> Out(i, 0, NULL, c.c + 1)
     [] name = "eat" -> Out(i, 0, NULL, IF i > Len(t) THEN i ELSE i + 1)
     [] name = "skip_char" -> Flag(i, At(t, i) = c.c, i + 1)
     [] name = "skip_char_limited" -> Flag(i, span > i, i + 1)
     [] name = "parse_char_limited" -> IF span > i THEN Out(i, 1, <<t[i]>>, i + 1) ELSE Fail(i)
     [] name = "skip_char_sequence" -> Moved(i, RunEnd(t, i, {c.c}))
     [] name \in {"skip_char_span", "skip_char_span_location", "strspn"} -> Moved(i, span)
     [] name = "parse_char_span" -> Got(t, i, span)
     [] name = "skip_char_cspan" -> Moved(i, cspan)
     [] name = "parse_char_cspan" -> [Got(t, i, cspan) EXCEPT !.ret = IF cspan > i THEN 1 ELSE 0]
     [] name = "skip_string" -> IF Here(t, i, c.set) THEN Moved(i, i + Len(c.set)) ELSE Fail(i)
     [] name = "parse_string" -> IF Here(t, i, c.set) THEN Out(i, 1, c.set, i + Len(c.set)) ELSE Fail(i)
     [] name = "parse_digit" -> IF At(t, i) \in Decimals THEN Out(i, t[i], NULL, i + 1) ELSE Fail(i)
     [] name = "skip_uint" -> Moved(i, RunEnd(t, i, Decimals))
     [] name = "parse_uint32" -> Decimal(t, i, U32Max)
     [] name = "parse_uint64" -> Decimal(t, i, U64MaxDec)
     [] name = "skip_hexadecimal_uint" -> Moved(i, HexEnd(t, i))
     [] name = "skip_hexadecimal_0xuint" -> IF Prefix(t, i) THEN Moved(i, HexEnd(t, i + 2)) ELSE Fail(i)
     [] name = "parse_hexadecimal_uint64" -> Hex(t, i, i)
     [] name = "parse_hexadecimal_0xuint64" -> IF Prefix(t, i) THEN Hex(t, i, i + 2) ELSE Fail(i)
     [] name = "skip_whitespace" -> Out(i, 0, NULL, RunEnd(t, i, Whites))
     [] name = "skip_non_whitespace" -> Out(i, 0, NULL, RunOut(t, i, Whites))
     [] name = "skip_to_next_line" -> LET e == RunOut(t, i, {Nl}) IN Out(i, IF e <= Len(t) THEN 1 ELSE 0, NULL, IF e <= Len(t) THEN e + 1 ELSE e)
     [] name = "strchr" -> LET e == RunOut(t, i, {c.c}) IN Flag(i, e <= Len(t), e)
     [] name = "strstr" -> LET e == Seek(t, i, c.set) IN Flag(i, e # 0, e)
     [] name = "indent" -> Out(i, 0, IF i > Len(t) THEN <<>> ELSE Spaces(c.c) \o Indent(Rest(t, i), c.c), i)
     [] name = "indent_rest" -> Out(i, 0, Indent(Rest(t, i), c.c), i)
     [] name = "anonymize_path" -> Out(i, 0, HidePath(Rest(t, i)), i)
     [] name = "bin2hex" -> Out(i, 2 * Len(Rest(t, i)), FlattenSeq([k \in 1..Len(Rest(t, i)) |-> <<Nibble(Rest(t, i)[k] \div 16), Nibble(Rest(t, i)[k] % 16)>>]), i)
     [] name = "build_path" -> Out(i, 0, SlashJoin(c.list), i)
     [] name = "struniq" -> Out(i, 0, Uniq(c.list), i)
     [] name = "location_string" -> Out(i, 0, LineWord \o DecCodes(c.line) \o ColumnWord \o DecCodes(c.c) \o (IF "set" \in DOMAIN c THEN <<58, 32>> \o c.set ELSE <<>>), i)
     [] name = "location_cmp" -> Out(i, IF c.line # c.line2 THEN Sgn(c.line - c.line2) ELSE IF c.c # c.c2 THEN Sgn(c.c - c.c2)
                                         ELSE IF ~c.messages THEN 0
                                         ELSE LET a == "set" \in DOMAIN c  b == "set2" \in DOMAIN c IN IF a /\ b THEN SeqCmp(c.set, c.set2, 1) ELSE IF a THEN 1 ELSE IF b THEN -1 ELSE 0, NULL, i)
RunScan(x) ==
  LET t == x.text
      s == FoldLeft(LAMBDA a, c : LET o == Step(t, a.pos, c)  w == Where(t, o.pos)
                                  IN [pos |-> o.pos, out |-> Append(a.out, [ret |-> o.ret, val |-> o.val, pos |-> o.pos - 1, line |-> w.line, column |-> w.column])],
                    [pos |-> 1, out |-> <<>>], x.calls)
  IN s.out
-----------------------------------------------------------------------------
(* Files: names to texts; what was written last is read. *)
FileStep(a, c) ==
  IF c.name \in {".", "no/x"} THEN [a EXCEPT !.out = Append(@, IF c.op = "write" THEN [ok |-> FALSE, err |-> TRUE] ELSE [ok |-> FALSE, text |-> NULL, err |-> TRUE])]
  ELSE IF c.op = "write" THEN [files |-> [a.files EXCEPT ![c.name] = <<c.text>>], out |-> Append(a.out, [ok |-> TRUE, err |-> FALSE])]
  ELSE [a EXCEPT !.out = Append(@, IF a.files[c.name] = <<>> THEN [ok |-> FALSE, text |-> NULL, err |-> TRUE] ELSE [ok |-> TRUE, text |-> a.files[c.name][1], err |-> FALSE])]
RunFiles(x) == FoldLeft(FileStep, [files |-> [n \in {"a", "b"} |-> <<>>], out |-> <<>>], x.calls).out
=============================================================================
