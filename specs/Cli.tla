--------------------------------- MODULE Cli ---------------------------------
(* The command line tool.  The world holds problem directories and files with
   text of stack traces; a run of the tool is one transition: from the world and
   the arguments to an exit status, what is printed, and the world afterwards.
   A directory is [files, traces, dump]: traces gives what each reader finds
   (0 or 1), dump what is in its core dump (0 or 1).  A file gives the stack
   trace (0 or 1) of each type that is found in its text. *)
EXTENDS Report, SequencesExt
P == INSTANCE ProblemDir
D == INSTANCE Dump
N == INSTANCE Normalize
Answer(status, err, out) == [status |-> status, err |-> err, out |-> out]
None == [k |-> "none"]
Usage == [k |-> "usage"]
Refuse == Answer("1", "some", None)
Misuse == Answer("1", "any", Usage)
Same1(w, a) == [w |-> w, a |-> a]
-----------------------------------------------------------------------------
FullReport(w, d) == LET r == P!Report(d.files, d.traces) IN r @@ [reporter_name |-> w.name, reporter_version |-> w.version]
PrintReport(w, args) ==
  IF args = <<>> THEN Same1(w, Misuse)
  ELSE IF args[1] \notin DOMAIN w.dirs THEN Same1(w, Refuse)
  ELSE LET d == w.dirs[args[1]] IN
       Same1(w, IF P!Complete(d.files, d.traces) THEN Answer("0", "none", [k |-> "json", json |-> ReportJ(FullReport(w, d))]) ELSE Refuse)
(* The core stack trace is put into the directory, and is what reports from it have then. *)
CreateCore(w, args) ==
  IF args = <<>> THEN Same1(w, Misuse)
  ELSE IF args[1] \notin DOMAIN w.dirs THEN Same1(w, Refuse)
  ELSE LET d == w.dirs[args[1]] IN
       IF ~P!Readable(d.files, "executable") \/ d.dump = <<>> \/ (P!There(d.files, "core_backtrace") /\ ~P!Readable(d.files, "core_backtrace")) THEN Same1(w, Refuse)
       ELSE LET st == D!FromDump(d.dump[1]) IN
            [a |-> Answer("0", "none", None),
             w |-> [w EXCEPT !.dirs[args[1]] = [d EXCEPT !.files = ("core_backtrace" :> [dir |-> FALSE, text |-> ""]) @@ d.files, !.traces["core"] = <<Carried(st)>>]]]
Frames(st, i) == IF "threads" \in DOMAIN st THEN st.threads[i].frames ELSE st.frames
Duphash(w, args) ==
  IF Len(args) < 2 THEN Misuse
  ELSE LET t == TypeOfName(args[1]) IN
       IF t = "invalid" \/ args[2] \notin DOMAIN w.files \/ w.files[args[2]][t] = <<>> THEN Refuse
       ELSE LET st == w.files[args[2]][t][1]  c == N!CrashThread(st)
            IN IF c = 0 THEN Refuse
               ELSE Answer("0", "none", [k |-> "hash", text |-> R!DupHash([type |-> t, frames |-> Frames(st, c), n |-> 3, prefix |-> IF Len(args) > 2 THEN args[3] ELSE NULL, nonorm |-> FALSE, compat |-> FALSE])])
Debug(w, args) ==
  IF args = <<>> THEN Misuse
  ELSE CASE args[1] = "duphash" -> Duphash(w, Tail(args))
         [] args[1] = "unwind-from-hook" -> Refuse       \* only ever of processes that are not there
         [] args[1] = "normalize" -> IF Len(args) = 1 THEN Misuse ELSE Refuse                                                   \* only ever of files that are not there
         [] OTHER -> Misuse
Step(w, args) ==
  IF args = <<>> THEN Same1(w, Misuse)
  ELSE CASE args[1] \in {"--help", "--usage"} -> Same1(w, Answer("0", "none", [k |-> "commands"]))
         [] args[1] = "--version" -> Same1(w, Answer("0", "none", [k |-> "version"]))
         [] args[1] = "abrt-print-report-from-dir" -> PrintReport(w, Tail(args))
         [] args[1] = "abrt-create-core-stacktrace" -> CreateCore(w, Tail(args))
         [] args[1] = "debug" -> Same1(w, Debug(w, Tail(args)))
         [] OTHER -> Same1(w, Misuse)
RunCli(c) == FoldLeft(LAMBDA r, args : LET x == Step(r.w, args) IN [w |-> x.w, as |-> Append(r.as, x.a)], [w |-> c.w, as |-> <<>>], c.runs).as
=============================================================================
