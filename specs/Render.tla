------------------------------- MODULE Render -------------------------------
(* Text made from stack traces: duplication hash text, backtrace hash text,
   short text, full text, lists of functions, reason. *)
EXTENDS Normalize
Unk(s) == IF s = NULL THEN "<unknown>" ELSE s
Opt(s) == IF s = NULL THEN "" ELSE s
B(b) == IF b THEN "1" ELSE "0"
NL == "\n"
Nat2Str(n) == ToString(n)
(* decimal text of a 64-bit number *)
RECURSIVE MulAdd(_, _)            \* digits least significant first: d * 16 + carry
MulAdd(ds, carry) == IF ds = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulAdd(<<>>, carry \div 10))
                     ELSE LET v == ds[1] * 16 + carry IN <<v % 10>> \o MulAdd(Tail(ds), v \div 10)
RECURSIVE HexToDigits(_, _, _)
HexToDigits(h, i, acc) == IF i > Len(h) THEN acc ELSE HexToDigits(h, i + 1, MulAdd(acc, HexVal(Ch(h, i))))
RECURSIVE DigitsText(_)
DigitsText(ds) == IF ds = <<>> THEN "" ELSE DigitsText(Tail(ds)) \o Ch("0123456789", ds[1] + 1)
HexToDec(h) == LET t == DigitsText(HexToDigits(HexDigitsOf(h), 1, <<>>)) IN IF t = "" THEN "0" ELSE t

-----------------------------------------------------------------------------
(* Duplication hash: the first n frames of the normalized thread that say
   something.  Flags: "nonorm", "compat" (kernel oops, unreliable frames do not count). *)
DupFrame(t, f, compat) ==
  CASE t = "core" -> IF f.build_id # NULL THEN f.build_id \o "+" \o f.build_id_offset \o NL
                     ELSE IF f.function_name # NULL THEN "  " \o f.function_name \o NL
                     ELSE IF f.fingerprint # NULL THEN f.fingerprint \o "+" \o f.build_id_offset \o NL ELSE f.address \o NL
    [] t = "gdb" -> " " \o (IF f.function_type = NULL THEN "" ELSE " " \o f.function_type) \o (IF f.function_name = NULL THEN "" ELSE " " \o f.function_name)
                    \o (IF f.signal_handler_called THEN " <signal handler called>" ELSE "") \o NL
    [] t = "java" -> IF f.name # NULL THEN f.name \o NL ELSE Unk(f.class_path) \o "/" \o Unk(f.file_name) \o ":" \o f.file_line \o NL
    [] t = "koops" -> IF compat /\ ~f.reliable THEN "" ELSE IF f.function_name # NULL THEN f.function_name \o NL ELSE f.address \o NL
    [] OTHER -> Unk(f.file_name) \o ":" \o f.file_line \o NL
RECURSIVE FirstTexts(_, _)
FirstTexts(ts, n) == IF ts = <<>> \/ n = 0 THEN "" ELSE ts[1] \o FirstTexts(Tail(ts), IF ts[1] = "" THEN n ELSE n - 1)
DupText(t, frames, n, prefix, nonorm, compat) ==
  LET fs == IF nonorm THEN frames ELSE Norm(t, frames)
  IN Opt(prefix) \o (IF compat THEN "" ELSE "Thread" \o NL) \o FirstTexts([i \in DOMAIN fs |-> DupFrame(t, fs[i], compat)], IF n = 0 THEN Len(fs) ELSE n)
\* with the kernel oops flag a thread that says nothing has no hash
DupHash(c) == LET x == DupText(c.type, c.frames, c.n, c.prefix, c.nonorm, c.compat) IN IF c.compat /\ x = "" THEN NULL ELSE x

-----------------------------------------------------------------------------
(* Backtrace hash: everything in the stack trace that is written down. *)
BtFrame(t, f) ==
  CASE t = "core" -> (IF f.address = "0x0" THEN "<unknown>" ELSE f.address) \o ", " \o Unk(f.build_id) \o "+" \o f.build_id_offset \o ", " \o Unk(f.file_name) \o ", " \o Unk(f.fingerprint) \o NL
    [] t = "gdb" -> Unk(f.function_name) \o ", " \o Unk(f.function_type) \o ", " \o f.number \o ", " \o Unk(f.source_file) \o ", " \o f.source_line \o ", " \o B(f.signal_handler_called) \o ", "
                    \o f.address \o ", " \o Unk(f.library_name) \o NL
    [] t = "java" -> Unk(f.name) \o ", " \o Unk(f.file_name) \o ", " \o f.file_line \o ", " \o Unk(f.class_path) \o ", " \o B(f.is_native) \o ", " \o B(f.is_exception) \o ", " \o Unk(f.message) \o NL
    [] t = "koops" -> f.address \o ", " \o B(f.reliable) \o ", " \o Unk(f.function_name) \o ", " \o f.function_offset \o ", " \o f.function_length \o ", " \o Unk(f.module_name) \o ", "
                    \o f.from_address \o ", " \o Unk(f.from_function_name) \o ", " \o f.from_function_offset \o ", " \o f.from_function_length \o ", " \o Unk(f.from_module_name) \o NL
    [] t = "python" -> Unk(f.file_name) \o ", " \o B(f.special_file) \o ", " \o f.file_line \o ", " \o Unk(f.function_name) \o ", " \o B(f.special_function) \o ", " \o Unk(f.line_contents) \o NL
    [] t = "ruby" -> Unk(f.file_name) \o ", " \o f.file_line \o ", " \o Unk(f.function_name) \o ", " \o B(f.special_function) \o ", " \o f.block_level \o ", " \o f.rescue_level \o NL
    [] OTHER -> Unk(f.file_name) \o ", " \o f.file_line \o ", " \o Unk(f.function_name) \o NL
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
BtHead(st) ==
  CASE st.type = "core" -> "Executable: " \o Unk(st.executable) \o "\nSignal: " \o st.signal \o "\n\n"
    [] st.type = "gdb" -> ConcatAll([i \in DOMAIN st.libs |-> HexDigitsOf(st.libs[i].from) \o "-" \o HexDigitsOf(st.libs[i].to) \o ", " \o Unk(st.libs[i].soname) \o NL]) \o NL
    [] st.type = "java" -> ""
    [] st.type = "koops" -> "Version: " \o Unk(st.version) \o "\nFlags: \nModules: " \o Join(st.modules, ", ") \o "\n\n"
    [] st.type = "js" -> "Error: " \o Unk(st.exception_name) \o "\n\n"
    [] OTHER -> "Exception: " \o Unk(st.exception_name) \o "\n\n"
BtThreadHead(t, th) == CASE t = "gdb" -> "Thread " \o th.number \o NL [] t = "java" -> "Thread " \o Unk(th.name) \o NL [] OTHER -> ""
ThreadsOf(st) == IF "threads" \in DOMAIN st THEN st.threads ELSE <<[frames |-> st.frames]>>
BtText(st) == BtHead(st) \o Join([i \in DOMAIN ThreadsOf(st) |-> BtThreadHead(st.type, ThreadsOf(st)[i])
                                      \o ConcatAll([j \in DOMAIN ThreadsOf(st)[i].frames |-> BtFrame(st.type, ThreadsOf(st)[i].frames[j])])], NL)

-----------------------------------------------------------------------------
(* One frame as text. *)
Angle(b, s) == IF b THEN "<" \o s \o ">" ELSE s
Line(f) == IF f.file_line = "0" THEN "" ELSE ":" \o f.file_line
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE s \o Repeat(s, n - 1)
SmallNat(s) == CHOOSE n \in 0..99 : ToString(n) = s
FileUrl(p) == LET s == Find(p, "/")  c == Find(p, ":") IN s # 0 /\ (c = 0 \/ c > s)     \* a plain path, not an URL
GdbStr(f, verbose) == (IF verbose THEN " #" \o f.number ELSE " ") \o (IF f.function_type = NULL THEN "" ELSE " " \o f.function_type) \o (IF f.function_name = NULL THEN "" ELSE " " \o f.function_name)
                      \o (IF verbose /\ f.source_file # NULL THEN (IF f.function_name = NULL THEN "" ELSE " at") \o " " \o f.source_file \o (IF f.source_line = U32Max THEN "" ELSE ":" \o f.source_line) ELSE "")
                      \o (IF f.signal_handler_called THEN " <signal handler called>" ELSE "")
FrameStr(t, f) ==
  CASE t = "core" -> (IF f.file_name = NULL THEN "" ELSE "[" \o BaseName(f.file_name) \o "]") \o " " \o (IF f.function_name # NULL THEN f.function_name ELSE f.build_id \o "+" \o HexToDec(f.build_id_offset))
    [] t = "python" -> (IF f.file_name = NULL THEN "" ELSE "[" \o Angle(f.special_file, f.file_name) \o Line(f) \o "]") \o " " \o Angle(f.special_function, IF f.function_name = NULL THEN "??" ELSE f.function_name)
    [] t = "ruby" -> Repeat("rescue in ", SmallNat(f.rescue_level)) \o (IF f.block_level = "0" THEN "" ELSE IF f.block_level = "1" THEN "block in " ELSE "block (" \o f.block_level \o " levels) in ")
                     \o Angle(f.special_function, IF f.function_name = NULL THEN "??" ELSE f.function_name) \o (IF f.file_name = NULL THEN "" ELSE " in " \o f.file_name \o Line(f))
    [] t = "js" -> LET at == f.file_name \o ":" \o f.file_line \o ":" \o f.line_column IN "at " \o (IF f.function_name = NULL THEN at ELSE f.function_name \o " (" \o at \o ")")
    [] t = "koops" -> (IF f.special_stack = NULL THEN "" ELSE "[" \o f.special_stack \o "] ") \o (IF f.reliable THEN "" ELSE "? ") \o (IF f.function_name = NULL THEN "??" ELSE f.function_name)
                      \o (IF f.module_name = NULL THEN "" ELSE " in " \o f.module_name)
    [] t = "java" -> IF f.is_exception THEN Opt(f.name) \o (IF f.message = NULL THEN "" ELSE ": " \o f.message)
                     ELSE "\tat " \o Opt(f.name) \o "(" \o (IF f.is_native THEN "Native Method" ELSE IF f.file_name = NULL THEN "Unknown Source" ELSE f.file_name) \o Line(f) \o ")"
                          \o (IF f.class_path = NULL THEN " [unknown]" ELSE " [" \o (IF FileUrl(f.class_path) THEN "file:" ELSE "") \o f.class_path \o "]")
    [] OTHER -> GdbStr(f, TRUE)
GdbThreadStr(th, verbose) == (IF verbose THEN "Thread no. " \o th.number \o " (" \o Nat2Str(Len(th.frames)) \o " frames)\n" ELSE "Thread\n")
                             \o ConcatAll([i \in DOMAIN th.frames |-> GdbStr(th.frames[i], verbose) \o NL])
GdbText(st, verbose) == (IF verbose THEN "Thread count: " \o Nat2Str(Len(st.threads)) \o NL ELSE "")
                        \o (IF verbose /\ st.crash # <<>> THEN "Crash frame: " \o GdbStr(st.crash[1], TRUE) \o NL ELSE "")
                        \o ConcatAll([i \in DOMAIN st.threads |-> GdbThreadStr(st.threads[i], verbose)])
ShortText(st, max) ==
  LET c == CrashThread(st) IN
  IF c = 0 THEN NULL
  ELSE IF st.type = "gdb" THEN GdbThreadStr([st.threads[c] EXCEPT !.frames = Optimized(st.libs, @, max)], TRUE)
  ELSE LET all == ThreadsOf(st)[c].frames  fs == IF max > 0 THEN Take(all, max) ELSE all
       IN ConcatAll([i \in DOMAIN fs |-> "#" \o Nat2Str(i) \o " " \o FrameStr(st.type, fs[i]) \o NL])
(* Java: the innermost cause comes last *)
RECURSIVE JavaParts(_, _, _)      \* groups of frames, one per exception
JavaParts(fs, cur, acc) == IF fs = <<>> THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
                           ELSE IF fs[1].is_exception /\ cur # <<>> THEN JavaParts(Tail(fs), <<fs[1]>>, Append(acc, cur)) ELSE JavaParts(Tail(fs), Append(cur, fs[1]), acc)
Funs(t, fs) == ConcatAll([i \in DOMAIN fs |-> IF t = "java" THEN (IF fs[i].name = NULL THEN "" ELSE fs[i].name \o NL)
                                              ELSE IF fs[i].function_name = NULL THEN "" ELSE fs[i].function_name \o (IF fs[i].library_name = NULL THEN "" ELSE " " \o fs[i].library_name) \o NL])
(* and back: names have no newline; the last space separates the library *)
RECURSIVE Lines(_)
Lines(s) == LET k == Find(s, NL) IN IF k = 0 THEN <<>> ELSE <<Upto(s, k - 1)>> \o Lines(From(s, k + 1))
FunLine(l, n) == LET k == FindLast(l, " ") IN [function_name |-> IF k <= 1 THEN l ELSE Upto(l, k - 1), library_name |-> IF k <= 1 \/ k = Len(l) THEN NULL ELSE From(l, k + 1), number |-> Nat2Str(n)]
ParseFuns(s) == [i \in DOMAIN Lines(s) |-> FunLine(Lines(s)[i], i - 1)]

(* Reason: one sentence that says what happened and where. *)
FirstIdx(s, P(_)) == LET x == { i \in DOMAIN s : P(s[i]) } IN IF x = {} THEN 0 ELSE CHOOSE i \in x : \A j \in x : i <= j
Where(f) == Unk(f.file_name) \o ":" \o f.file_line
Reason(st) ==
  CASE st.type = "core" -> "Program " \o Unk(st.executable) \o " was terminated by signal " \o st.signal
    [] st.type = "python" -> (IF st.exception_name = NULL THEN "Unknown error" ELSE st.exception_name) \o " in " \o (IF st.frames = <<>> THEN "<unknown>:0" ELSE Where(st.frames[Len(st.frames)]))
    [] st.type = "ruby" -> (IF st.exception_name = NULL THEN "Unknown error" ELSE st.exception_name) \o " in " \o (IF st.frames = <<>> THEN "<unknown>:0" ELSE Where(st.frames[1]))
    [] st.type = "js" -> (IF st.exception_name = NULL THEN "Error" ELSE st.exception_name) \o " at " \o (IF st.frames = <<>> THEN "<unknown>:0:0" ELSE Where(st.frames[1]) \o ":" \o st.frames[1].line_column)
    [] st.type = "java" -> LET fs == IF st.threads = <<>> THEN <<>> ELSE st.threads[1].frames
                               e == FirstIdx(fs, LAMBDA f : f.is_exception /\ f.name # NULL)
                               l == IF fs = <<>> THEN <<>> ELSE IF fs[Len(fs)].file_name = NULL THEN <<>> ELSE <<fs[Len(fs)]>>
                           IN "Exception " \o (IF e = 0 THEN "<unknown>" ELSE fs[e].name) \o " occurred in " \o (IF l = <<>> THEN "<unknown>:0" ELSE Where(l[1]))
    [] st.type = "koops" -> LET n == NormKoops(st.frames)  fn == IF n = <<>> THEN "<unknown>" ELSE Unk(n[1].function_name)
                            IN (IF st.reason = NULL THEN "Kernel oops in " \o fn
                                ELSE IF HasSub(st.reason, "general protection fault: ") THEN "general protection fault in " \o fn
                                ELSE IF HasSub(st.reason, "kernel paging request at") THEN "kernel paging request at " \o fn ELSE st.reason)
                               \o (IF n # <<>> /\ n[1].module_name # NULL THEN " [" \o n[1].module_name \o "]" ELSE "")
    [] OTHER -> NULL

-----------------------------------------------------------------------------
RunDup(c) == DupHash(c)
RunBt(c) == BtText(c.st)
RunText(c) == [short |-> [i \in DOMAIN c.max |-> ShortText(c.st, c.max[i])], frames |-> [i \in DOMAIN ThreadsOf(c.st) |-> [j \in DOMAIN ThreadsOf(c.st)[i].frames |-> FrameStr(c.st.type, ThreadsOf(c.st)[i].frames[j])]],
               reason |-> Reason(c.st), text |-> IF c.st.type = "gdb" THEN <<GdbText(c.st, TRUE), GdbText(c.st, FALSE)>> ELSE <<>>,
               funs |-> IF c.st.type \in {"gdb", "java"} THEN [i \in DOMAIN c.st.threads |-> Funs(c.st.type, c.st.threads[i].frames)] ELSE <<>>]
RunFuns(c) == ParseFuns(c.text)
=============================================================================
