------------------------------- MODULE Report -------------------------------
(* The uReport: a problem, the packages and the system it was seen on, as JSON.
   Absent operating system and stack trace are empty sequences. *)
EXTENDS StJson
R == INSTANCE Render

TypeName(t) == CASE t = "koops" -> "kerneloops" [] t = "js" -> "javascript" [] OTHER -> t
TypeOfName(n) == CASE n = "kerneloops" -> "koops" [] n = "javascript" -> "js" [] n \in {"core", "python", "java", "gdb", "ruby"} -> n [] OTHER -> "invalid"
(* gdb stack traces are not sent *)
Sent(t) == ~(t \in {"gdb", "invalid"})
OsFields == <<<<"name", "str">>, <<"version", "str">>, <<"architecture", "str">>, <<"cpe", "str">>, <<"uptime", "u64">>>>
OsOptional == <<"desktop", "variant">>        \* of no consequence when they are no text
PkgFields == <<<<"name", "str">>, <<"version", "str">>, <<"release", "str">>, <<"architecture", "str">>, <<"epoch", "u32">>, <<"install_time", "u64">>>>
NoOs == [name |-> NULL, version |-> NULL, architecture |-> NULL, cpe |-> NULL, uptime |-> "0x0", desktop |-> NULL, variant |-> NULL]
NoPkg == [name |-> NULL, epoch |-> "0", version |-> NULL, release |-> NULL, architecture |-> NULL, install_time |-> "0x0", role |-> "0"]
OsJ(o) == JObj(Flatten([i \in DOMAIN OsFields |-> LET k == OsFields[i][1] IN When(o[k] # NoOs[k], <<k, Enc(OsFields[i][2], o[k])>>)])
               \o StrOpt("desktop", o.desktop) \o StrOpt("variant", o.variant))
PkgJ(p) == JObj(Flatten([i \in DOMAIN PkgFields |-> LET k == PkgFields[i][1] IN When(p[k] # NoPkg[k] \/ k = "epoch", <<k, Enc(PkgFields[i][2], p[k])>>)])
                \o When(p.role = "1", <<"package_role", JStr("affected")>>))
Reason(r) == IF ~Sent(r.report_type) \/ r.stacktrace = <<>> THEN "invalid" ELSE R!Reason(r.stacktrace[1])
ProblemJ(r) == JObj(<<<<"type", JStr(IF Sent(r.report_type) THEN TypeName(r.report_type) ELSE "invalid")>>>> \o StrOpt("component", r.component_name)
                    \o When(r.report_type # "koops", <<"user", JObj(<<<<"root", JBool(r.user_root)>>, <<"local", JBool(r.user_local)>>>>)>>)
                    \o <<<<"serial", J32(r.serial)>>>>
                    \o (IF r.stacktrace = <<>> THEN <<>> ELSE IF r.stacktrace[1].type = "gdb" THEN <<>> ELSE ToJson(r.stacktrace[1]).v))
ReportJ(r) == JObj(<<<<"ureport_version", J32(r.report_version)>>, <<"reason", JStr(Reason(r))>>,
                     <<"reporter", JObj(<<<<"name", JStr(r.reporter_name)>>, <<"version", JStr(r.reporter_version)>>>>)>>>>
                   \o (IF r.os = <<>> THEN <<>> ELSE <<<<"os", OsJ(r.os[1])>>>>)
                   \o <<<<"problem", ProblemJ(r)>>, <<"packages", JArr([i \in DOMAIN r.packages |-> PkgJ(r.packages[i])])>>>>
                   \o When(r.auth # <<>>, <<"auth", JObj([i \in DOMAIN r.auth |-> <<r.auth[i][1], JStr(r.auth[i][2])>>])>>))
Carries(r) == [r EXCEPT !.report_type = IF Sent(@) THEN @ ELSE "invalid",
                        !.user_root = IF r.report_type = "koops" THEN FALSE ELSE @,
                        !.user_local = IF r.report_type = "koops" THEN TRUE ELSE @,
                        \* the keys of the stack trace are in the problem itself, so there always is one
                        !.stacktrace = IF ~Sent(r.report_type) THEN <<>> ELSE IF @ = <<>> THEN <<StDefault(r.report_type)>> ELSE <<Carried(@[1])>>]
-----------------------------------------------------------------------------
OsErrs(n) == IF n.t # "obj" THEN <<TypeErr("operating system", "obj")>> ELSE Flatten([i \in DOMAIN OsFields |-> WantKey(n, OsFields[i][1], OsFields[i][2])])
ReadOs(n) == [k \in { OsFields[i][1] : i \in DOMAIN OsFields } |-> LET i == CHOOSE j \in DOMAIN OsFields : OsFields[j][1] = k IN ReadKey(n, k, OsFields[i][2], NoOs[k])]
             @@ [k \in { OsOptional[i] : i \in DOMAIN OsOptional } |-> IF Has(n, k) /\ Get(n, k).t = "str" THEN Get(n, k).v ELSE NULL]
PkgErrs(n) == IF n.t # "obj" THEN <<TypeErr("package", "obj")>>
              ELSE Flatten([i \in DOMAIN PkgFields |-> WantKey(n, PkgFields[i][1], PkgFields[i][2])]) \o WantKey(n, "package_role", "str")
                   \o (IF Has(n, "package_role") /\ Get(n, "package_role").t = "str" /\ Get(n, "package_role").v # "affected" THEN <<"Invalid package role " \o Get(n, "package_role").v>> ELSE <<>>)
ReadPkg(n) == [k \in { PkgFields[i][1] : i \in DOMAIN PkgFields } |-> LET i == CHOOSE j \in DOMAIN PkgFields : PkgFields[j][1] = k IN ReadKey(n, k, PkgFields[i][2], NoPkg[k])]
              @@ [role |-> IF Has(n, "package_role") THEN "1" ELSE "0"]
PkgsErrs(n) == IF n.t # "arr" THEN <<TypeErr("package list", "arr")>> ELSE Flatten([i \in DOMAIN n.v |-> PkgErrs(n.v[i])])
UserErrs(p) == IF ~Has(p, "user") THEN <<>> ELSE LET u == Get(p, "user") IN IF u.t # "obj" THEN <<TypeErr("user", "obj")>> ELSE WantKey(u, "root", "bool") \o WantKey(u, "local", "bool")
ProblemType(p) == IF Has(p, "type") THEN TypeOfName(Get(p, "type").v) ELSE "invalid"
ProblemErrs(p) == IF p.t # "obj" THEN <<TypeErr("problem", "obj")>>
                  ELSE WantKey(p, "type", "str") \o WantKey(p, "component", "str") \o UserErrs(p) \o WantKey(p, "serial", "u32")
                       \o (IF Has(p, "type") THEN IF Get(p, "type").t = "str" /\ Sent(ProblemType(p)) THEN Errs(ProblemType(p), p) ELSE <<>> ELSE <<>>)
ReporterErrs(o) == IF ~Has(o, "reporter") THEN <<>> ELSE LET n == Get(o, "reporter") IN IF n.t # "obj" THEN <<TypeErr("reporter", "obj")>> ELSE WantKey(n, "name", "str") \o WantKey(n, "version", "str")
ReportErrs(o) ==
  IF o.t # "obj" THEN <<TypeErr("root value", "obj")>>
  ELSE WantKey(o, "ureport_version", "u32") \o ReporterErrs(o) \o (IF Has(o, "os") THEN OsErrs(Get(o, "os")) ELSE <<>>)
       \o (IF Has(o, "packages") THEN PkgsErrs(Get(o, "packages")) ELSE <<>>) \o (IF Has(o, "problem") THEN ProblemErrs(Get(o, "problem")) ELSE <<>>)
       \o WantKey(o, "auth", "obj")
ReadReport(o, name, version) ==
  LET rep == IF Has(o, "reporter") THEN Get(o, "reporter") ELSE JObj(<<>>)
      p == IF Has(o, "problem") THEN Get(o, "problem") ELSE JObj(<<>>)
      u == IF Has(p, "user") THEN Get(p, "user") ELSE JObj(<<>>)
      t == ProblemType(p)
  IN [report_version |-> ReadKey(o, "ureport_version", "u32", "2"), report_type |-> t, reporter_name |-> ReadKey(rep, "name", "str", name), reporter_version |-> ReadKey(rep, "version", "str", version),
      user_root |-> ReadKey(u, "root", "bool", FALSE), user_local |-> ReadKey(u, "local", "bool", TRUE), os |-> IF Has(o, "os") THEN <<ReadOs(Get(o, "os"))>> ELSE <<>>,
      component_name |-> ReadKey(p, "component", "str", NULL), packages |-> IF Has(o, "packages") THEN LET a == Get(o, "packages").v IN [i \in DOMAIN a |-> ReadPkg(a[i])] ELSE <<>>,
      stacktrace |-> IF Sent(t) THEN <<ReadSt(t, p)>> ELSE <<>>, serial |-> ReadKey(p, "serial", "u32", "0"),
      auth |-> IF Has(o, "auth") THEN LET a == SelectSeq(Get(o, "auth").v, LAMBDA e : e[2].t = "str") IN [i \in DOMAIN a |-> <<a[i][1], a[i][2].v>>] ELSE <<>>]
FromReport(o, name, version) == LET e == ReportErrs(o) IN IF e # <<>> THEN [ok |-> FALSE, err |-> Head(e), n |-> Len(e), rep |-> <<>>] ELSE [ok |-> TRUE, err |-> "", n |-> 0, rep |-> <<ReadReport(o, name, version)>>]
-----------------------------------------------------------------------------
RunReport(c) == [json |-> ReportJ(c.rep), back |-> Carries(c.rep)]
RunReadReport(c) == FromReport(c.doc, c.name, c.version)
=============================================================================
