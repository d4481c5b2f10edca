------------------------------ MODULE MCReport ------------------------------
(* Laws of uReports: one field after another is set. *)
EXTENDS Report
CONSTANT Depth
VARIABLES r, n
Empty == [report_version |-> "2", report_type |-> "invalid", reporter_name |-> "satyr", reporter_version |-> "1", user_root |-> FALSE, user_local |-> TRUE, os |-> <<>>,
          component_name |-> NULL, packages |-> <<>>, stacktrace |-> <<>>, serial |-> "0", auth |-> <<>>]
Init == r = Empty /\ n = 0
Types == {"core", "python", "koops", "java", "ruby", "js"}
SetType == \E t \in Types : r' = [r EXCEPT !.report_type = t, !.stacktrace = <<>>] \/ r' = [r EXCEPT !.report_type = t, !.stacktrace = <<StDefault(t)>>]
SetFrame == r.stacktrace # <<>> /\ "frames" \in DOMAIN r.stacktrace[1] /\ r' = [r EXCEPT !.stacktrace[1].frames = Append(@, [FrameDefault(r.report_type) EXCEPT !.file_name = "f"])] /\ r.report_type # "koops"
SetMisc == \/ r' = [r EXCEPT !.report_version = "3"] \/ r' = [r EXCEPT !.reporter_name = "x\"y"] \/ r' = [r EXCEPT !.user_root = ~@] \/ r' = [r EXCEPT !.user_local = ~@]
           \/ r' = [r EXCEPT !.component_name = "c"] \/ r' = [r EXCEPT !.serial = "7"] \/ r' = [r EXCEPT !.auth = Append(@, <<ToString(Len(@)), "v">>)]
SetOs == \E k \in DOMAIN NoOs : r' = [r EXCEPT !.os = <<IF @ = <<>> THEN NoOs ELSE [@[1] EXCEPT ![k] = IF k = "uptime" THEN "0x5" ELSE "t"]>>]
SetPkg == \/ r' = [r EXCEPT !.packages = Append(@, NoPkg)]
          \/ r.packages # <<>> /\ \E k \in DOMAIN NoPkg : r' = [r EXCEPT !.packages[1][k] = CASE k = "epoch" -> "2" [] k = "install_time" -> "0x9" [] k = "role" -> "1" [] OTHER -> "p"]
Next == n < Depth /\ n' = n + 1 /\ (SetType \/ SetFrame \/ SetMisc \/ SetOs \/ SetPkg)
Spec == Init /\ [][Next]_<<r, n>>
(* reading what was written *)
Back == FromReport(ReportJ(r), "satyr", "1") = [ok |-> TRUE, err |-> "", n |-> 0, rep |-> <<Carries(r)>>]
Again == Carries(Carries(r)) = Carries(r)
(* any null that is read refuses the report; the reason is for people only *)
Nulls == LET o == ReportJ(r) IN \A i \in DOMAIN o.v : FromReport(JObj([o.v EXCEPT ![i] = <<@[1], [t |-> "null", v |-> ""]>>]), "s", "1").ok = (o.v[i][1] = "reason")
=============================================================================
