-------------------------------- MODULE MCCli --------------------------------
(* Any sequence of runs of the tool in a small world: a directory with a core
   dump that is otherwise ready to be reported, one without a program, one with
   nothing, and a file with a stack trace of one type. *)
EXTENDS Cli
CONSTANTS MaxArgs, MaxRuns
VARIABLES w, a, old, args, n
F(t) == [dir |-> FALSE, text |-> t]
NoTraces == [t \in {"core", "python", "koops", "js", "java", "ruby"} |-> <<>>]
Dump0 == [exe |-> "/x", mods |-> <<>>, mem |-> ("0x1" :> [prev |-> "0x0", ret |-> "0x0"]), threads |-> <<[tid |-> "1", sig |-> "6", pc |-> "0x5", sp |-> "0x0", bp |-> "0x0"]>>]
Ready == ("type" :> F("CCpp")) @@ ("architecture" :> F("x")) @@ ("count" :> F("1")) @@ ("os_release" :> F("Fedora release 20"))
Frame1 == [name |-> "f", file_name |-> "a", file_line |-> "1", line_contents |-> NULL, special_file |-> FALSE, special_function |-> FALSE, function_name |-> "f"]
World0 == [name |-> "satyr", version |-> "1",
           dirs |-> ("good" :> [files |-> Ready @@ ("executable" :> F("/x")), traces |-> NoTraces, dump |-> <<Dump0>>])
                 @@ ("half" :> [files |-> Ready @@ ("core_backtrace" :> F("")), traces |-> [NoTraces EXCEPT !["core"] = <<D!FromDump(Dump0)>>], dump |-> <<Dump0>>])
                 @@ ("bare" :> [files |-> ("executable" :> F("/x")), traces |-> NoTraces, dump |-> <<>>]),
           files |-> ("text" :> [t \in {"core", "python", "koops", "js", "java", "ruby", "gdb"} |-> IF t = "core" THEN <<D!FromDump(Dump0)>> ELSE <<>>])]
Words == {"abrt-print-report-from-dir", "abrt-create-core-stacktrace", "debug", "duphash", "normalize", "core", "python", "text", "good", "half", "bare", "--help", "--version", "nonsense"}
Init == w = World0 /\ a = Answer("0", "none", None) /\ old = World0 /\ args = <<"--help">> /\ n = 0
Next == n < MaxRuns /\ n' = n + 1 /\ old' = w /\ \E k \in 0..MaxArgs : \E x \in [1..k -> Words] : args' = x /\ LET s == Step(w, x) IN w' = s.w /\ a' = s.a
Spec == Init /\ [][Next]_<<w, a, old, args, n>>
Quiet == a.status = "0" <=> a.err = "none"
\* a refused run, and any but the one that makes core stack traces, leaves everything as it was
Untouched == w # old => a.status = "0" /\ args[1] = "abrt-create-core-stacktrace"
OnlyThere == w # old => LET d == args[2] IN [old EXCEPT !.dirs[d] = w.dirs[d]] = w /\ \A f \in DOMAIN w.dirs[d].files : f = "core_backtrace" \/ w.dirs[d].files[f] = old.dirs[d].files[f]
\* arguments that are not asked for change nothing
Extra == (n > 0 /\ a.status = "0" /\ args[1] # "debug") => Step(old, args \o <<"more">>) = [w |-> w, a |-> a]
\* once the core stack trace is made, it is made the same again, and the directory can be reported
Again == w # old => Step(w, args).w = w /\ Step(w, args).a = a /\ (Step(old, <<"abrt-print-report-from-dir", args[2]>>).a.status = "1" => args[2] = "good")
         /\ (args[2] = "good" => Step(w, <<"abrt-print-report-from-dir", args[2]>>).a.status = "0")
=============================================================================
