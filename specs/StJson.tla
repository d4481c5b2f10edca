------------------------------- MODULE StJson -------------------------------
(* The JSON form of stack traces: what is written, what is read back, and what
   is refused.  A JSON value is [t |-> type, v |-> value]: "obj" carries a
   sequence of <<key, value>> pairs, "arr" a sequence, "str" text, "bool" a
   Boolean, "null" and "dbl" nothing of interest; "int" additionally its
   decimal (d) and 64-bit hexadecimal (x) form. *)
EXTENDS SatyrBase, NormTables

MAX64 == "0xffffffffffffffff"
JObj(ps) == [t |-> "obj", v |-> ps]
JArr(vs) == [t |-> "arr", v |-> vs]
JStr(s) == [t |-> "str", v |-> s]
JBool(b) == [t |-> "bool", v |-> b]
J64(x) == [t |-> "int", x |-> x, d |-> ""]
J32(d) == [t |-> "int", x |-> "", d |-> d]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
When(c, p) == IF c THEN <<p>> ELSE <<>>

-----------------------------------------------------------------------------
(* Fields and the kind of value each one carries, in the order they are read. *)
FrameFields(t) == CASE t = "core" -> <<<<"address", "u64">>, <<"build_id", "str">>, <<"build_id_offset", "u64">>, <<"function_name", "str">>, <<"file_name", "str">>,
                                       <<"fingerprint", "str">>, <<"fingerprint_hashed", "bool">>>>
                    [] t = "koops" -> <<<<"address", "u64">>, <<"reliable", "bool">>, <<"function_name", "str">>, <<"function_offset", "u64">>, <<"function_length", "u64">>,
                                        <<"module_name", "str">>, <<"from_address", "u64">>, <<"from_function_name", "str">>, <<"from_function_offset", "u64">>,
                                        <<"from_function_length", "u64">>, <<"from_module_name", "str">>, <<"special_stack", "str">>>>
                    [] t = "java" -> <<<<"name", "str">>, <<"file_name", "str">>, <<"file_line", "u32">>, <<"class_path", "str">>, <<"is_native", "bool">>,
                                       <<"is_exception", "bool">>, <<"message", "str">>>>
                    [] t = "python" -> <<<<"file_name", "str">>, <<"function_name", "str">>, <<"line_contents", "str">>, <<"file_line", "u32">>>>
                    [] t = "ruby" -> <<<<"file_name", "str">>, <<"function_name", "str">>, <<"file_line", "u32">>, <<"block_level", "u32">>, <<"rescue_level", "u32">>>>
                    [] t = "js" -> <<<<"file_name", "str">>, <<"function_name", "str">>, <<"file_line", "u32">>, <<"line_column", "u32">>>>
(* names that may be given under a second key, with the flag that says which *)
Specials(t) == CASE t = "python" -> [file_name |-> <<"special_file", "special_file">>, function_name |-> <<"special_function", "special_function">>]
                 [] t = "ruby" -> [function_name |-> <<"special_function", "special_function">>]
                 [] OTHER -> <<>>
FrameDefault(t) == CASE t = "core" -> [address |-> MAX64, build_id |-> NULL, build_id_offset |-> MAX64, function_name |-> NULL, file_name |-> NULL, fingerprint |-> NULL, fingerprint_hashed |-> TRUE]
                     [] t = "koops" -> [address |-> "0x0", reliable |-> FALSE, function_name |-> NULL, function_offset |-> "0x0", function_length |-> "0x0", module_name |-> NULL,
                                        from_address |-> "0x0", from_function_name |-> NULL, from_function_offset |-> "0x0", from_function_length |-> "0x0", from_module_name |-> NULL, special_stack |-> NULL]
                     [] t = "java" -> [name |-> NULL, file_name |-> NULL, file_line |-> "0", class_path |-> NULL, is_native |-> FALSE, is_exception |-> FALSE, message |-> NULL]
                     [] t = "python" -> [special_file |-> FALSE, file_name |-> NULL, file_line |-> "0", special_function |-> FALSE, function_name |-> NULL, line_contents |-> NULL]
                     [] t = "ruby" -> [file_name |-> NULL, file_line |-> "0", special_function |-> FALSE, function_name |-> NULL, block_level |-> "0", rescue_level |-> "0"]
                     [] t = "js" -> [file_name |-> NULL, file_line |-> "0", line_column |-> "0", function_name |-> NULL]
TaintNames == <<"module_proprietary", "forced_module", "smp_unsafe", "forced_removal", "mce", "page_release", "userspace", "died_recently",
                "acpi_overridden", "warning", "staging_driver", "firmware_workaround", "module_out_of_tree", "unsigned_module", "soft_lockup", "live_patched">>
TaintField == [n \in { TaintNames[i] : i \in DOMAIN TaintNames } |-> "taint_" \o n]
StDefault(t) == CASE t = "core" -> [type |-> t, signal |-> "0", executable |-> NULL, only_crash_thread |-> FALSE, threads |-> <<>>, crash_thread |-> -1]
                  [] t = "java" -> [type |-> t, threads |-> <<>>]
                  [] t = "koops" -> [type |-> t, version |-> NULL, raw_oops |-> NULL, reason |-> NULL, modules |-> <<>>, frames |-> <<>>]
                                    @@ [f \in { TaintField[n] : n \in DOMAIN TaintField } |-> FALSE]
                  [] t \in {"python", "ruby"} -> [type |-> t, exception_name |-> NULL, frames |-> <<>>]
                  [] t = "js" -> [type |-> t, exception_name |-> NULL, platform |-> "0", frames |-> <<>>]
FramesKey(t) == IF t = "koops" THEN "frames" ELSE "stacktrace"
-----------------------------------------------------------------------------
(* Writing.  A field that has its default is left out, with these exceptions. *)
Always(t, k, f) == (t = "koops" /\ k \in {"reliable", "function_offset", "function_length", "from_function_offset", "from_function_length"})
                   \/ (t = "java" /\ (k \in {"is_native", "is_exception"} \/ (k = "file_line" /\ f.file_name # NULL)))
Never(t, k, f) == (t = "core" /\ k = "fingerprint_hashed" /\ f.fingerprint = NULL) \/ (t = "java" /\ k = "file_line" /\ f.file_name = NULL)
Enc(kind, x) == CASE kind = "u64" -> J64(x) [] kind = "u32" -> J32(x) [] kind = "str" -> JStr(x) [] kind = "bool" -> JBool(x)
KeyOf(t, k, f) == IF k \in DOMAIN Specials(t) /\ f[Specials(t)[k][2]] THEN Specials(t)[k][1] ELSE k
FrameJ(t, f) == JObj(Flatten([i \in DOMAIN FrameFields(t) |->
    LET k == FrameFields(t)[i][1]
    IN When((f[k] # FrameDefault(t)[k] \/ Always(t, k, f)) /\ ~Never(t, k, f), <<KeyOf(t, k, f), Enc(FrameFields(t)[i][2], f[k])>>)]))
FramesJ(t, fs) == JArr([i \in DOMAIN fs |-> FrameJ(t, fs[i])])
StrOpt(k, s) == When(s # NULL, <<k, JStr(s)>>)
(* a JavaScript platform is 16 * runtime + engine; one of each is known *)
PlatRuntime(p) == IF p \in {"16", "17"} THEN "Node.js" ELSE "<unknown>"
PlatEngine(p) == IF p \in {"1", "17"} THEN "V8" ELSE "<unknown>"
PlatJ(p) == JObj(<<<<"engine", JStr(PlatEngine(p))>>, <<"runtime", JStr(PlatRuntime(p))>>>>)
Crash(s) == IF s.crash_thread = -1 /\ s.threads # <<>> THEN 0 ELSE s.crash_thread
CoreThreadJ(th, crash) == JObj(When(crash, <<"crash_thread", JBool(TRUE)>>) \o When(th.frames # <<>>, <<"frames", FramesJ("core", th.frames)>>))
ToJson(s) ==
  CASE s.type = "core" -> JObj(<<<<"signal", J32(s.signal)>>>> \o StrOpt("executable", s.executable) \o When(s.only_crash_thread, <<"only_crash_thread", JBool(TRUE)>>)
                               \o <<<<"stacktrace", JArr([i \in DOMAIN s.threads |-> CoreThreadJ(s.threads[i], Crash(s) = i - 1)])>>>>)
    [] s.type = "java" -> JObj(<<<<"threads", JArr([i \in DOMAIN s.threads |-> JObj(StrOpt("name", s.threads[i].name)
                               \o When(s.threads[i].frames # <<>>, <<"frames", FramesJ("java", s.threads[i].frames)>>))])>>>>)
    [] s.type = "koops" -> JObj(StrOpt("raw_oops", s.raw_oops) \o StrOpt("version", s.version)
                                \o <<<<"taint_flags", JArr(Flatten([i \in DOMAIN TaintNames |-> When(s[TaintField[TaintNames[i]]], JStr(TaintNames[i]))]))>>>>
                                \o (IF s.modules = <<>> THEN <<>> ELSE <<<<"modules", JArr([i \in DOMAIN s.modules[1] |-> JStr(s.modules[1][i])])>>>>)
                                \o When(s.frames # <<>>, <<"frames", FramesJ("koops", s.frames)>>))
    [] OTHER -> JObj(StrOpt("exception_name", s.exception_name) \o When(s.frames # <<>>, <<"stacktrace", FramesJ(s.type, s.frames)>>)
                     \o (IF s.type = "js" THEN When(s.platform # "0", <<"platform", PlatJ(s.platform)>>) ELSE <<>>))
-----------------------------------------------------------------------------
(* What the JSON form carries: everything but the defaults it has no words for. *)
CarryFrame(t, f) == CASE t = "core" -> [f EXCEPT !.fingerprint_hashed = f.fingerprint # NULL => @]
                      [] t = "java" -> IF f.file_name = NULL THEN [f EXCEPT !.file_line = "0"] ELSE f
                      [] t = "python" -> [f EXCEPT !.special_file = @ /\ f.file_name # NULL, !.special_function = @ /\ f.function_name # NULL]
                      [] t = "ruby" -> [f EXCEPT !.special_function = @ /\ f.function_name # NULL]
                      [] OTHER -> f
CarryFrames(t, fs) == [i \in DOMAIN fs |-> CarryFrame(t, fs[i])]
Carried(s) == IF "threads" \in DOMAIN s
              THEN LET c == [s EXCEPT !.threads = [i \in DOMAIN @ |-> [@[i] EXCEPT !.frames = CarryFrames(s.type, @)]]]
                   IN IF s.type = "core" THEN [c EXCEPT !.crash_thread = Crash(s)] ELSE c
              ELSE LET c == [s EXCEPT !.frames = CarryFrames(s.type, @)]
                   IN CASE s.type = "koops" -> [c EXCEPT !.reason = NULL]
                        [] s.type = "js" -> [c EXCEPT !.platform = IF @ \in {"1", "16", "17"} THEN @ ELSE "0"]
                        [] OTHER -> c
-----------------------------------------------------------------------------
(* Reading: unknown keys are ignored, missing ones keep their defaults, and a
   value of the wrong type (null included) anywhere refuses the document. *)
Has(o, k) == \E i \in DOMAIN o.v : o.v[i][1] = k
Get(o, k) == o.v[CHOOSE i \in DOMAIN o.v : o.v[i][1] = k][2]
Is(t, n) == CASE t = "u64" -> n.t = "int" [] t = "u32" -> n.t = "int" [] OTHER -> n.t = t
TName(t) == CASE t = "u64" -> "int" [] t = "u32" -> "int" [] t = "str" -> "string" [] t = "bool" -> "boolean" [] t = "arr" -> "array" [] t = "obj" -> "object"
TypeErr(name, t) == "Invalid type of `" \o name \o "`; `" \o TName(t) \o "` expected"
(* the complaints about a value, in order; the first one is reported *)
Want(n, t, name) == IF Is(t, n) THEN <<>> ELSE <<TypeErr(name, t)>>
WantKey(o, k, t) == IF Has(o, k) THEN Want(Get(o, k), t, k) ELSE <<>>
Dec1(kind, n) == CASE kind = "u64" -> n.x [] kind = "u32" -> n.d [] OTHER -> n.v
ReadKey(o, k, kind, dflt) == IF Has(o, k) THEN Dec1(kind, Get(o, k)) ELSE dflt
UsedKey(t, o, k) == IF ~Has(o, k) /\ k \in DOMAIN Specials(t) THEN Specials(t)[k][1] ELSE k
FrameErrs(t, n) == IF n.t # "obj" THEN <<TypeErr("frame", "obj")>>
                   ELSE Flatten([i \in DOMAIN FrameFields(t) |-> WantKey(n, UsedKey(t, n, FrameFields(t)[i][1]), FrameFields(t)[i][2])])
ReadFrame(t, n) ==
  LET F == FrameFields(t)
      named == [k \in { F[i][1] : i \in DOMAIN F } |-> LET i == CHOOSE j \in DOMAIN F : F[j][1] = k IN ReadKey(n, UsedKey(t, n, k), F[i][2], FrameDefault(t)[k])]
      flags == [g \in { Specials(t)[k][2] : k \in DOMAIN Specials(t) } |-> \E k \in DOMAIN Specials(t) : Specials(t)[k][2] = g /\ ~Has(n, k) /\ Has(n, Specials(t)[k][1])]
  IN named @@ flags
FramesErrs(t, o, key) == IF ~Has(o, key) THEN <<>> ELSE LET a == Get(o, key) IN IF a.t # "arr" THEN <<TypeErr(key, "arr")>> ELSE Flatten([i \in DOMAIN a.v |-> FrameErrs(t, a.v[i])])
ReadFrames(t, o, key) == IF ~Has(o, key) THEN <<>> ELSE LET a == Get(o, key).v IN [i \in DOMAIN a |-> ReadFrame(t, a[i])]
ThreadErrs(t, n) == IF n.t # "obj" THEN <<TypeErr("thread", "obj")>>
                    ELSE (IF t = "java" THEN WantKey(n, "name", "str") ELSE <<>>) \o FramesErrs(t, n, "frames")
                         \o (IF t = "core" THEN WantKey(n, "crash_thread", "bool") ELSE <<>>)
ReadThread(t, n) == IF t = "java" THEN [name |-> ReadKey(n, "name", "str", NULL), frames |-> ReadFrames(t, n, "frames")] ELSE [frames |-> ReadFrames(t, n, "frames")]
ArrErrs(o, key, item) == IF ~Has(o, key) THEN <<>> ELSE LET a == Get(o, key) IN IF a.t # "arr" THEN <<TypeErr(key, "arr")>> ELSE Flatten([i \in DOMAIN a.v |-> Want(a.v[i], "str", item)])
ThreadsErrs(t, o, key) == IF ~Has(o, key) THEN <<>> ELSE LET a == Get(o, key) IN IF a.t # "arr" THEN <<TypeErr(key, "arr")>> ELSE Flatten([i \in DOMAIN a.v |-> ThreadErrs(t, a.v[i])])
ReadThreads(t, o, key) == IF ~Has(o, key) THEN <<>> ELSE LET a == Get(o, key).v IN [i \in DOMAIN a |-> ReadThread(t, a[i])]
RECURSIVE LastCrash(_, _)
LastCrash(a, i) == IF i = 0 THEN -1 ELSE IF Has(a[i], "crash_thread") /\ Get(a[i], "crash_thread").v THEN i - 1 ELSE LastCrash(a, i - 1)
PlatErrs(o) == IF ~Has(o, "platform") THEN <<>>
               ELSE LET p == Get(o, "platform") IN
                    IF p.t # "obj" THEN <<"No 'engine' member">>
                    ELSE WantKey(p, "engine", "str")
                         \o (IF ~Has(p, "engine") THEN <<"No 'engine' member">> ELSE IF Get(p, "engine").t = "str" /\ ~(Get(p, "engine").v \in {"V8", "<unknown>"}) THEN <<"Unknown JavaScript engine '" \o Get(p, "engine").v \o "'">> ELSE <<>>)
                         \o WantKey(p, "runtime", "str")
                         \o (IF ~Has(p, "runtime") THEN <<"No 'runtime' member">> ELSE IF Get(p, "runtime").t = "str" /\ ~(Get(p, "runtime").v \in {"Node.js", "<unknown>"}) THEN <<"Unknown JavaScript runtime '" \o Get(p, "runtime").v \o "'">> ELSE <<>>)
ReadPlat(o) == IF ~Has(o, "platform") THEN "0"
               ELSE LET p == Get(o, "platform") e == Get(p, "engine").v = "V8" r == Get(p, "runtime").v = "Node.js"
                    IN IF e /\ r THEN "17" ELSE IF e THEN "1" ELSE IF r THEN "16" ELSE "0"
Errs(t, o) ==
  IF t = "gdb" THEN <<"Not implemented">>
  ELSE IF o.t # "obj" THEN <<TypeErr("stacktrace", "obj")>>
  ELSE CASE t = "core" -> WantKey(o, "signal", "u32") \o WantKey(o, "executable", "str") \o WantKey(o, "only_crash_thread", "bool") \o ThreadsErrs(t, o, "stacktrace")
         [] t = "java" -> ThreadsErrs(t, o, "threads")
         [] t = "koops" -> WantKey(o, "version", "str") \o WantKey(o, "raw_oops", "str") \o ArrErrs(o, "taint_flags", "taint flag") \o ArrErrs(o, "modules", "module") \o FramesErrs(t, o, "frames")
         [] OTHER -> WantKey(o, "exception_name", "str") \o FramesErrs(t, o, "stacktrace") \o (IF t = "js" THEN PlatErrs(o) ELSE <<>>)
Flagged(o, n) == Has(o, "taint_flags") /\ LET a == Get(o, "taint_flags").v IN \E i \in DOMAIN a : a[i].v = n
ReadSt(t, o) ==
  CASE t = "core" -> [type |-> t, signal |-> ReadKey(o, "signal", "u32", "0"), executable |-> ReadKey(o, "executable", "str", NULL),
                      only_crash_thread |-> ReadKey(o, "only_crash_thread", "bool", FALSE), threads |-> ReadThreads(t, o, "stacktrace"),
                      crash_thread |-> IF Has(o, "stacktrace") THEN LET a == Get(o, "stacktrace").v IN LastCrash(a, Len(a)) ELSE -1]
    [] t = "java" -> [type |-> t, threads |-> ReadThreads(t, o, "threads")]
    [] t = "koops" -> [type |-> t, version |-> ReadKey(o, "version", "str", NULL), raw_oops |-> ReadKey(o, "raw_oops", "str", NULL), reason |-> NULL,
                       modules |-> IF Has(o, "modules") THEN LET a == Get(o, "modules").v IN <<[i \in DOMAIN a |-> a[i].v]>> ELSE <<>>, frames |-> ReadFrames(t, o, "frames")]
                      @@ [f \in { TaintField[n] : n \in DOMAIN TaintField } |-> Flagged(o, CHOOSE n \in DOMAIN TaintField : TaintField[n] = f)]
    [] OTHER -> LET b == [type |-> t, exception_name |-> ReadKey(o, "exception_name", "str", NULL), frames |-> ReadFrames(t, o, "stacktrace")]
                IN IF t = "js" THEN b @@ [platform |-> ReadPlat(o)] ELSE b
FromJson(t, o) == IF Errs(t, o) # <<>> THEN [ok |-> FALSE, err |-> Head(Errs(t, o)), n |-> Len(Errs(t, o)), st |-> <<>>]
                  ELSE [ok |-> TRUE, err |-> "", n |-> 0, st |-> <<ReadSt(t, o)>>]
-----------------------------------------------------------------------------
RunWrite(c) == [json |-> ToJson(c.st), back |-> Carried(c.st)]
RunRead(c) == FromJson(c.type, c.doc)
=============================================================================
