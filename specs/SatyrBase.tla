---------------------------- MODULE SatyrBase ----------------------------
(* Shared vocabulary of the satyr specification: NULL, text, and the 32/64-bit
   numbers of the implementation (TLC's integers are 32-bit, so unsigned 64-bit
   numbers are lower-case "0x.." strings and unsigned 32-bit numbers decimal
   strings, both without leading zeros). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NULL == "@null"

-----------------------------------------------------------------------------
(* Text.  Positions are 1-based; Ch past the end is "" (the C terminator). *)
Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, IF i > Len(s) THEN Len(s) ELSE i)
Sub(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ (Len(p) = 0 \/ SubSeq(s, i, i + Len(p) - 1) = p)
StartsWith(s, p) == StartsAt(s, 1, p)
EndsWith(s, p) == Len(s) >= Len(p) /\ StartsAt(s, Len(s) - Len(p) + 1, p)
(* first position >= i at which p occurs, 0 if none *)
FindFrom(s, i, p) ==
  LET n == Len(s) - Len(p) + 1
      j == CHOOSE k \in i..(n + 1) : (k > n \/ StartsAt(s, k, p)) /\ \A x \in i..(k - 1) : ~StartsAt(s, x, p)
  IN IF i > n THEN 0 ELSE IF j > n THEN 0 ELSE j
Find(s, p) == FindFrom(s, 1, p)
HasSub(s, p) == Find(s, p) # 0
FindLastFrom(s, i, p) ==
  LET j == CHOOSE k \in 0..i : (k = i \/ StartsAt(s, i - k, p)) /\ \A x \in 0..(k - 1) : ~StartsAt(s, i - x, p)
  IN IF i < 1 THEN 0 ELSE i - j
FindLast(s, p) == FindLastFrom(s, Len(s) - Len(p) + 1, p)
Mem(c, set) == c # "" /\ c \in set
CharSet(s) == { SubSeq(s, i, i) : i \in 1..Len(s) }
(* end of the longest run from i of characters in `set`: first position not in it *)
SpanEnd(s, i, set) ==
  IF i > Len(s) THEN i ELSE IF SubSeq(s, i, i) \notin set THEN i
  ELSE CHOOSE k \in (i + 1)..(Len(s) + 1) : (k > Len(s) \/ SubSeq(s, k, k) \notin set) /\ \A x \in i..(k - 1) : SubSeq(s, x, x) \in set
CSpanEnd(s, i, set) ==
  IF i > Len(s) THEN i ELSE IF SubSeq(s, i, i) \in set THEN i
  ELSE CHOOSE k \in (i + 1)..(Len(s) + 1) : (k > Len(s) \/ SubSeq(s, k, k) \in set) /\ \A x \in i..(k - 1) : SubSeq(s, x, x) \notin set

Digits == CharSet("0123456789")
HexDigits == CharSet("0123456789abcdefABCDEF")
HexLower == CharSet("0123456789abcdef")
Lower == CharSet("abcdefghijklmnopqrstuvwxyz")
Upper == CharSet("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Alpha == Lower \cup Upper
Alnum == Alpha \cup Digits
Space == {" ", "\t", "\n", "\r", "\f"}        \* isspace, less \v

StripLead(s, c) == From(s, SpanEnd(s, 1, {c}))

(* Byte order of printable text: TLC has no character codes. *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdTab == [c \in CharSet(Printable) |-> 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
Ord(c) == IF c = "" THEN 0 ELSE IF c = "\t" THEN 9 ELSE IF c = "\n" THEN 10 ELSE IF c = "\r" THEN 13 ELSE IF c = "\f" THEN 12
          ELSE IF c \in DOMAIN OrdTab THEN OrdTab[c] ELSE 200
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
StrCmpAt(a, b, i) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      j == CHOOSE k \in i..(n + 1) : (k > n \/ Ch(a, k) # Ch(b, k)) /\ \A x \in i..(k - 1) : Ch(a, x) = Ch(b, x)
      d == Ord(Ch(a, j)) - Ord(Ch(b, j))
  IN IF i > n THEN 0 ELSE IF j > n THEN 0 ELSE IF d = 0 THEN 1 ELSE Sgn(d)     \* different, in an order we do not know
StrCmp(a, b) == IF a = b THEN 0 ELSE StrCmpAt(a, b, 1)
(* NULL sorts before everything *)
StrCmp0(a, b) == IF a = b THEN 0 ELSE IF a = NULL THEN -1 ELSE IF b = NULL THEN 1 ELSE StrCmp(a, b)

(* Numbers as digit strings. *)
NumCmp(a, b) == IF a = b THEN 0 ELSE IF Len(a) # Len(b) THEN Sgn(Len(a) - Len(b)) ELSE StrCmp(a, b)
U64Cmp(a, b) == NumCmp(a, b)
U32Max == "4294967295"
(* 32-bit order in which the unknown value sorts below the known ones *)
HighHalf(a) == NumCmp(a, "2147483647") > 0
U32Cmp(a, b) == IF HighHalf(a) # HighHalf(b) THEN (IF HighHalf(a) THEN -1 ELSE 1) ELSE NumCmp(a, b)
NormDec(s) == LET t == StripLead(s, "0") IN IF t = "" THEN "0" ELSE t

(* Hexadecimal arithmetic. *)
HexVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
               [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
               [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] OTHER -> 15
HexChar(n) == Ch("0123456789abcdef", n + 1)
RECURSIVE LowerHexAcc(_, _)
LowerHexAcc(s, i) == IF i > Len(s) THEN "" ELSE HexChar(HexVal(Ch(s, i))) \o LowerHexAcc(s, i + 1)
(* digits (any case, leading zeros) -> canonical "0x.." *)
HexCanon(s) == LET t == StripLead(LowerHexAcc(s, 1), "0") IN "0x" \o (IF t = "" THEN "0" ELSE t)
HexDigitsOf(h) == From(h, 3)
DigitAt(d, k) == IF k >= Len(d) THEN 0 ELSE HexVal(Ch(d, Len(d) - k))      \* k-th digit from the right
RECURSIVE SubAcc(_, _, _, _)
SubAcc(a, b, k, br) == IF k >= 16 THEN ""
    ELSE LET v == DigitAt(a, k) - DigitAt(b, k) - br
         IN SubAcc(a, b, k + 1, IF v < 0 THEN 1 ELSE 0) \o HexChar(IF v < 0 THEN v + 16 ELSE v)
U64Sub(a, b) == HexCanon(SubAcc(HexDigitsOf(a), HexDigitsOf(b), 0, 0))      \* modulo 2^64
RECURSIVE AddAcc(_, _, _, _)
AddAcc(a, b, k, cy) == IF k >= 16 THEN ""
    ELSE LET v == DigitAt(a, k) + DigitAt(b, k) + cy
         IN AddAcc(a, b, k + 1, v \div 16) \o HexChar(v % 16)
U64Add(a, b) == HexCanon(AddAcc(HexDigitsOf(a), HexDigitsOf(b), 0, 0))

-----------------------------------------------------------------------------
(* Sequences. *)
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o ConcatAll(Tail(ss))
RECURSIVE FilterIdx(_, _, _)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
FilterIdx(s, i, keep) == IF i > Len(s) THEN <<>> ELSE (IF keep[i] THEN <<s[i]>> ELSE <<>>) \o FilterIdx(s, i + 1, keep)
=============================================================================
