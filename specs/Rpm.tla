-------------------------------- MODULE Rpm --------------------------------
(* Package records: order, sorting, merging of duplicates, and the text forms
   name-version-release and name-epoch:version-release.architecture. *)
EXTENDS SatyrBase, SequencesExt

RECURSIVE ConsCmp(_, _)
ConsFlags == <<"owner_changed", "group_changed", "mode_changed", "md5_mismatch", "size_changed", "major_number_changed", "minor_number_changed", "symlink_changed", "modification_time_changed">>
BoolCmp(a, b) == IF a = b THEN 0 ELSE IF b THEN -1 ELSE 1
Or(a, b) == IF a # 0 THEN a ELSE b        \* the first difference decides
RECURSIVE FlagsCmp(_, _, _)
FlagsCmp(a, b, i) == IF i > Len(ConsFlags) THEN 0 ELSE IF a[ConsFlags[i]] = b[ConsFlags[i]] THEN FlagsCmp(a, b, i + 1) ELSE BoolCmp(a[ConsFlags[i]], b[ConsFlags[i]])
ConsCmp1(a, b) == Or(StrCmp0(a.path, b.path), FlagsCmp(a, b, 1))
ConsCmp(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
                 ELSE IF ConsCmp1(a[1], b[1]) # 0 THEN ConsCmp1(a[1], b[1]) ELSE ConsCmp(Tail(a), Tail(b))
NvrCmp(a, b) == Or(StrCmp0(a.name, b.name), Or(StrCmp0(a.version, b.version), StrCmp0(a.release, b.release)))
NevraCmp(a, b) == Or(NvrCmp(a, b), Or(NumCmp(a.epoch, b.epoch), StrCmp0(a.architecture, b.architecture)))
PkgCmp(a, b) == Or(NevraCmp(a, b), Or(U64Cmp(a.install_time, b.install_time), ConsCmp(a.consistency, b.consistency)))
-----------------------------------------------------------------------------
Before(a, b) == NevraCmp(a, b) < 0
Sort(s) == SortSeq(s, Before)
(* two records of the same package; only one needs to know the architecture *)
Mergeable(a, b) == NvrCmp(a, b) = 0 /\ a.epoch = b.epoch /\ (a.architecture = NULL \/ b.architecture = NULL \/ a.architecture = b.architecture)
Merge(a, b) == [a EXCEPT !.architecture = IF @ # NULL THEN @ ELSE b.architecture, !.install_time = IF @ # "0x0" THEN @ ELSE b.install_time,
                         !.role = IF @ # "0" THEN @ ELSE b.role, !.consistency = <<>>]
(* neighbours are merged from the left *)
UniqStep(done, p) == IF done = <<>> THEN <<p>> ELSE LET l == done[Len(done)] IN
                     IF Mergeable(l, p) THEN Append(SubSeq(done, 1, Len(done) - 1), Merge(l, p)) ELSE Append(done, p)
Uniq(s) == FoldLeft(UniqStep, <<>>, s)
-----------------------------------------------------------------------------
NoPkg == [name |-> NULL, epoch |-> "0", version |-> NULL, release |-> NULL, architecture |-> NULL, install_time |-> "0x0", role |-> "0", consistency |-> <<>>]
(* name-version-release: none of the three is empty *)
ParseNvr(t) ==
  LET d == FindLast(t, "-")  e == IF d = 0 THEN 0 ELSE FindLastFrom(t, d - 1, "-")
  IN IF d = 0 \/ e < 2 \/ d - e = 1 \/ d = Len(t) THEN <<>>
     ELSE <<[name |-> Upto(t, e - 1), version |-> Sub(t, e + 1, d - 1), release |-> From(t, d + 1)]>>
(* decimal text of at most 32 bits *)
U32Text(s) == Len(s) > 0 /\ SpanEnd(s, 1, Digits) > Len(s) /\ NumCmp(NormDec(s), U32Max) <= 0
ParseNevra(t) ==
  LET p == FindLast(t, ".")  d == FindLast(t, "-")
      e == IF d = 0 THEN 0 ELSE FindLastFrom(t, d - 1, "-")
      c0 == IF e = 0 THEN 0 ELSE FindFrom(t, e, ":")  c == IF c0 > d THEN 0 ELSE c0
      ep == IF c = 0 THEN "0" ELSE Sub(t, e + 1, c - 1)
  IN IF p = 0 \/ p = Len(t) \/ d = 0 \/ p - d < 2 \/ e < 2 \/ d - e = 1 \/ (c # 0 /\ (d - c = 1 \/ c - e = 1)) THEN <<>>
     ELSE IF ~U32Text(ep) THEN <<>>
     ELSE <<[name |-> Upto(t, e - 1), epoch |-> NormDec(ep), version |-> Sub(t, (IF c = 0 THEN e ELSE c) + 1, d - 1), release |-> Sub(t, d + 1, p - 1), architecture |-> From(t, p + 1)]>>
ShowNvr(n) == n.name \o "-" \o n.version \o "-" \o n.release
ShowNevra(n) == n.name \o "-" \o (IF n.epoch = "0" THEN "" ELSE n.epoch \o ":") \o n.version \o "-" \o n.release \o "." \o n.architecture
-----------------------------------------------------------------------------
(* Lines of a list of shared objects: file, package, packager..., time. *)
U64MaxDec == "18446744073709551615"
RECURSIVE TenTimes(_, _, _)
TenTimes(h, k, cy) == IF k >= 16 THEN "" ELSE LET v == DigitAt(h, k) * 10 + cy IN TenTimes(h, k + 1, v \div 16) \o HexChar(v % 16)
RECURSIVE DecHexAcc(_, _, _)
DecHexAcc(s, i, h) == IF i > Len(s) THEN h ELSE DecHexAcc(s, i + 1, TenTimes(h, 0, HexVal(Ch(s, i))))
DecHex(s) == HexCanon(DecHexAcc(s, 1, "0"))
RECURSIVE Lines(_)
Lines(t) == IF t = "" THEN <<>> ELSE LET n == Find(t, "\n") IN IF n = 0 THEN <<t>> ELSE <<Upto(t, n - 1)>> \o Lines(From(t, n + 1))
DsoLine(l) ==
  LET a == Find(l, " ")  b == IF a = 0 THEN 0 ELSE FindFrom(l, a + 1, " ")
      n == IF b = 0 THEN <<>> ELSE ParseNevra(Sub(l, a + 1, b - 1))
      z == FindLast(l, " ")  ds == IF z = 0 THEN "" ELSE Sub(l, z + 1, SpanEnd(l, z + 1, Digits) - 1)
  IN IF b = 0 \/ b - a < 3 \/ n = <<>> \/ ds = "" \/ NumCmp(NormDec(ds), U64MaxDec) > 0 THEN <<>>
     ELSE <<n[1] @@ [NoPkg EXCEPT !.install_time = DecHex(NormDec(ds))]>>
RECURSIVE DsoLines(_)
DsoLines(ls) == IF ls = <<>> THEN <<>> ELSE DsoLine(Head(ls)) \o DsoLines(Tail(ls))
DsoList(t) == DsoLines(Lines(t))
(* Installed packages as found in the database: every header must have all tags but the epoch. *)
Headers(hs) == IF \E i \in DOMAIN hs : hs[i].name = NULL \/ hs[i].version = NULL \/ hs[i].release = NULL \/ hs[i].architecture = NULL \/ hs[i].install_time = NULL
               THEN [ok |-> FALSE, pkgs |-> <<>>]
               ELSE [ok |-> TRUE, pkgs |-> [i \in DOMAIN hs |-> [hs[i] EXCEPT !.epoch = IF @ = NULL THEN "0" ELSE @]]]
-----------------------------------------------------------------------------
RunCmp(c) == [i \in DOMAIN c.xs |-> [j \in DOMAIN c.xs |-> <<Sgn(NvrCmp(c.xs[i], c.xs[j])), Sgn(NevraCmp(c.xs[i], c.xs[j])), Sgn(PkgCmp(c.xs[i], c.xs[j]))>>]]
RunLists(c) == [sorted |-> Sort(c.xs), uniq |-> Uniq(c.xs), both |-> Uniq(Sort(c.xs)), count |-> Len(c.xs)]
RunNames(c) == [nvr |-> ParseNvr(c.text), nevra |-> ParseNevra(c.text)]
RunDso(c) == DsoList(c.text)
RunHeaders(c) == Headers(c.hs)
Rp == INSTANCE Report
RunPkgJson(c) == [i \in DOMAIN c.xs |-> Rp!PkgJ(c.xs[i])]
=============================================================================
