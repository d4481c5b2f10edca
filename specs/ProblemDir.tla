----------------------------- MODULE ProblemDir -----------------------------
(* The report made of a problem directory.  Files is a function from names to
   [dir, text]; Traces gives the stack trace (0 or 1) each reader finds. *)
EXTENDS Rpm
O == INSTANCE Os
There(f, n) == n \in DOMAIN f
Readable(f, n) == There(f, n) /\ ~f[n].dir
Text(f, n) == f[n].text
OneLine(t) == LET n == Find(t, "\n") IN IF n = 0 THEN t ELSE Upto(t, n - 1)
Type(t) == CASE StartsWith(t, "CCpp") -> "core" [] StartsWith(t, "Python") -> "python" [] StartsWith(t, "Kerneloops") -> "koops" [] StartsWith(t, "JavaScript") -> "js"
             [] StartsWith(t, "Java") -> "java" [] StartsWith(t, "Ruby") -> "ruby" [] OTHER -> "invalid"
(* decimal number of 32 bits, as strtol reads it: blanks and a sign may come first *)
Number(t) == LET a == SpanEnd(t, 1, Space)  neg == Ch(t, a) = "-"  b == IF Ch(t, a) \in {"+", "-"} THEN a + 1 ELSE a  d == From(t, b)
             IN IF U32Text(d) /\ (neg => NormDec(d) = "0") THEN <<NormDec(d)>> ELSE <<>>
-----------------------------------------------------------------------------
System(f) ==
  LET info == IF Readable(f, "os_info") THEN O!OsRelease(Text(f, "os_info")) ELSE O!NoOs
      rel == IF Readable(f, "os_release") THEN O!SystemRelease(Text(f, "os_release")) ELSE <<>>
  IN IF O!Known(info) THEN <<info>> ELSE IF rel = <<>> THEN <<>> ELSE <<[info EXCEPT !.name = rel[1].name, !.version = rel[1].version]>>
Desktop(f) == IF ~Readable(f, "environ") THEN NULL
              ELSE LET ls == SelectSeq(O!SplitLines(Text(f, "environ")), LAMBDA l : StartsWith(l, "DESKTOP_SESSION=")) IN IF ls = <<>> THEN NULL ELSE From(ls[1], 17)
OsRecord(f) == LET s == System(f)[1] IN [name |-> s.name, version |-> s.version, cpe |-> s.cpe, variant |-> s.variant, architecture |-> Text(f, "architecture"), uptime |-> "0x0", desktop |-> Desktop(f)]
-----------------------------------------------------------------------------
PkgFiles == <<"pkg_name", "pkg_version", "pkg_release", "pkg_arch">>
Affected(f) ==
  IF ~Readable(f, "pkg_epoch") \/ \E i \in DOMAIN PkgFiles : ~Readable(f, PkgFiles[i]) THEN <<>>
  ELSE LET e == Number(OneLine(Text(f, "pkg_epoch"))) IN
       IF e = <<>> THEN <<>> ELSE <<[NoPkg EXCEPT !.name = OneLine(Text(f, "pkg_name")), !.epoch = e[1], !.version = OneLine(Text(f, "pkg_version")), !.release = OneLine(Text(f, "pkg_release")),
                                     !.architecture = OneLine(Text(f, "pkg_arch")), !.role = "1"]>>
PackagesOk(f) == (There(f, "package") => Affected(f) # <<>>) /\ (There(f, "dso_list") => Readable(f, "dso_list"))
Packages(f) ==
  LET p == IF There(f, "package") THEN Affected(f) ELSE <<>>
      d == IF There(f, "dso_list") THEN DsoList(Text(f, "dso_list")) ELSE <<>>
      n == IF Readable(f, "interpreter") THEN ParseNevra(Text(f, "interpreter")) ELSE <<>>
  IN (IF d = <<>> THEN p ELSE Uniq(Sort(p \o d))) \o (IF n = <<>> THEN <<>> ELSE <<n[1] @@ NoPkg>>)
Component(f) ==
  IF There(f, "package") THEN (IF Readable(f, "component") THEN Text(f, "component") ELSE NULL)
  ELSE IF Readable(f, "executable") THEN LET x == Text(f, "executable") IN From(x, FindLast(x, "/") + 1) \o "-unpackaged" ELSE NULL
-----------------------------------------------------------------------------
NodeJs == "17"
TraceFile(t) == IF t = "core" THEN "core_backtrace" ELSE "backtrace"
Trace(f, traces, t) ==
  IF t = "invalid" THEN [ok |-> TRUE, st |-> <<>>]
  ELSE IF ~Readable(f, TraceFile(t)) \/ (t = "koops" /\ ~Readable(f, "kernel")) \/ (t = "js" /\ ~Readable(f, "analyzer")) \/ traces[t] = <<>> THEN [ok |-> FALSE, st |-> <<>>]
  ELSE [ok |-> TRUE, st |-> <<CASE t = "koops" -> [traces[t][1] EXCEPT !.version = Text(f, "kernel")]
                                [] t = "js" /\ Text(f, "analyzer") = "Node.js" -> [traces[t][1] EXCEPT !.platform = NodeJs]
                                [] OTHER -> traces[t][1]>>]
Complete(f, traces) == Readable(f, "type") /\ System(f) # <<>> /\ Readable(f, "architecture") /\ PackagesOk(f) /\ Readable(f, "count") /\ Number(Text(f, "count")) # <<>>
                       /\ Trace(f, traces, Type(Text(f, "type"))).ok
Report(f, traces) ==
  LET t == Type(Text(f, "type")) IN
  [report_version |-> "2", report_type |-> t, user_root |-> FALSE, user_local |-> TRUE, os |-> <<OsRecord(f)>>, component_name |-> Component(f), packages |-> Packages(f), serial |-> Number(Text(f, "count"))[1],
   stacktrace |-> Trace(f, traces, t).st, auth |-> <<>>]
RunDir(c) == IF Complete(c.files, c.traces) THEN <<Report(c.files, c.traces)>> ELSE <<>>
=============================================================================
