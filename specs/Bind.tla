-------------------------------- MODULE Bind --------------------------------
(* The Python module: objects that stand for frames, threads, stack traces and
   so on, kept in lists that Python programs edit as they like.  Every method
   sees what the lists contain when it is called; copies share nothing; objects
   live while a variable or a list refers to them; what does not fit is refused
   and changes nothing.

   The heap is a sequence of objects, the number of an object is its place.
     k     frame, thread, st, lib, os, pkg, report, dist (matrix), part (of one)   t   type of stack trace
     f     attributes                                    kids, libs   lists (0: something else, such as None)
     a     crash frame (gdb), crash thread (core), operating system (report)
     b     stack trace (report)                          0 none, -1 something else
     c     what the text of a gdb stack trace says about the crash frame
     held  a variable refers to it *)
EXTENDS Render, SequencesExt
J == INSTANCE Report
D == INSTANCE Distance
P == INSTANCE Parts
GT == INSTANCE GdbText
JT == INSTANCE JavaText
PT == INSTANCE PythonText
RT == INSTANCE RubyText
JsT == INSTANCE JsText
KT == INSTANCE KoopsText

Max64 == "0xffffffffffffffff"
NoFields == [x |-> ""]
Obj(k, t, f, kids) == [k |-> k, t |-> t, f |-> f, kids |-> kids, libs |-> <<>>, a |-> 0, b |-> 0, c |-> <<>>, held |-> TRUE]
Multi(t) == t \in MultiThreaded
Framed(o) == o.k = "thread" \/ (o.k = "st" /\ ~Multi(o.t))
NewIds(i, n) == [j \in 1..n |-> i + j]
-----------------------------------------------------------------------------
(* New objects: numbered from the outside in, in the order of the lists. *)
GdbFrame == [function_name |-> NULL, function_type |-> NULL, number |-> "0", source_file |-> NULL, source_line |-> U32Max, signal_handler_called |-> FALSE, address |-> Max64, library_name |-> NULL]
BlankFrame(t) == IF t = "gdb" THEN GdbFrame ELSE J!FrameDefault(t)
BlankLib == [from |-> Max64, to |-> Max64, soname |-> NULL, symbols |-> 2]
BlankSt(t) == IF t = "gdb" THEN [type |-> t, crash_tid |-> U32Max, crash |-> <<>>, threads |-> <<>>, libs |-> <<>>] ELSE J!StDefault(t)
ThreadF(t, th) == CASE t = "gdb" -> [number |-> th.number, tid |-> th.tid] [] t = "java" -> [name |-> th.name] [] OTHER -> NoFields
StF(st) == LET d == DOMAIN st \ {"type", "threads", "frames", "libs", "crash", "crash_thread"} IN IF d = {} THEN NoFields ELSE [x \in d |-> st[x]]
Frames1(t, fs) == [i \in DOMAIN fs |-> Obj("frame", t, fs[i], <<>>)]
AddFrame(S, t, f) == Append(S, Obj("frame", t, f, <<>>))
AddThread(S, t, th) == Append(S, Obj("thread", t, ThreadF(t, th), NewIds(Len(S) + 1, Len(th.frames)))) \o Frames1(t, th.frames)
AddThreads(S, t, ths) == FoldLeft(LAMBDA r, th : [s |-> AddThread(r.s, t, th), ids |-> Append(r.ids, Len(r.s) + 1)], [s |-> S, ids |-> <<>>], ths)
AddSt(S, st) ==
  LET t == st.type  n == Len(S) + 1
  IN IF ~Multi(t) THEN Append(S, Obj("st", t, StF(st), NewIds(n, Len(st.frames)))) \o Frames1(t, st.frames)
     ELSE LET r == AddThreads(Append(S, Obj("st", t, StF(st), <<>>)), t, st.threads)
              ls == IF t = "gdb" THEN st.libs ELSE <<>>
              k == Len(r.s)
          IN [r.s EXCEPT ![n].kids = r.ids, ![n].libs = NewIds(k, Len(ls)), ![n].c = IF t = "gdb" THEN st.crash ELSE <<>>,
                         ![n].a = IF t # "core" THEN 0 ELSE IF st.crash_thread < 0 THEN 0 ELSE r.ids[st.crash_thread + 1]]
             \o [i \in DOMAIN ls |-> Obj("lib", "", ls[i], <<>>)]
ReportF(r) == [x \in DOMAIN r \ {"os", "packages", "stacktrace"} |-> r[x]]
AddReport(S, r) ==
  LET n == Len(S) + 1  no == Len(r.os)  np == Len(r.packages)
      s1 == Append(S, [Obj("report", "", ReportF(r), NewIds(n + no, np)) EXCEPT !.a = IF no = 0 THEN 0 ELSE n + 1, !.b = IF r.stacktrace = <<>> THEN 0 ELSE n + no + np + 1])
            \o [i \in DOMAIN r.os |-> Obj("os", "", r.os[i], <<>>)] \o [i \in DOMAIN r.packages |-> Obj("pkg", "", r.packages[i], <<>>)]
  IN IF r.stacktrace = <<>> THEN s1 ELSE AddSt(s1, r.stacktrace[1])
BlankReport(c) == [report_version |-> "2", report_type |-> "invalid", reporter_name |-> c.name, reporter_version |-> c.version, user_root |-> FALSE, user_local |-> TRUE,
                   os |-> <<J!NoOs>>, component_name |-> NULL, packages |-> <<>>, stacktrace |-> <<>>, serial |-> "0", auth |-> <<>>]
-----------------------------------------------------------------------------
(* What refers to what. *)
Kids(o) == o.kids \o o.libs \o <<o.a, o.b>>
KidSet(S, L) == UNION { { x \in { Kids(S[i])[j] : j \in DOMAIN Kids(S[i]) } : x > 0 } : i \in L }
Live(S) == LET l0 == { i \in DOMAIN S : S[i].held }  l1 == l0 \cup KidSet(S, l0)  l2 == l1 \cup KidSet(S, l1) IN l2 \cup KidSet(S, l2)
\* every reference there is, as a sequence of targets
Referred(S) == LET l == Live(S) IN FoldLeft(LAMBDA acc, i : IF i \in l THEN acc \o Kids(S[i]) ELSE acc, <<>>, [i \in DOMAIN S |-> i])
HasDup(s) == Cardinality({ s[i] : i \in DOMAIN s }) < Len(s)
Range1(s) == { s[i] : i \in DOMAIN s }
-----------------------------------------------------------------------------
(* Values of the C library made from the lists as they are now. *)
Fs(S, i) == [j \in DOMAIN S[i].kids |-> S[S[i].kids[j]].f]
ThRec(S, i) == S[i].f @@ [frames |-> Fs(S, i)]
PosOf(s, x) == IF x \in Range1(s) THEN CHOOSE j \in DOMAIN s : s[j] = x ELSE 0
Rec(S, i) ==
  LET o == S[i]
  IN IF o.k = "thread" THEN ThRec(S, i) @@ [type |-> o.t]
     ELSE IF ~Multi(o.t) THEN o.f @@ [type |-> o.t, frames |-> Fs(S, i)]
     ELSE LET b == o.f @@ [type |-> o.t, threads |-> [j \in DOMAIN o.kids |-> ThRec(S, o.kids[j])]]
          IN CASE o.t = "gdb" -> b @@ [libs |-> [j \in DOMAIN o.libs |-> S[o.libs[j]].f], crash |-> o.c]
               [] o.t = "core" -> b @@ [crash_thread |-> PosOf(o.kids, o.a) - 1]
               [] OTHER -> b
\* the list of modules as it is written
Flat(r) == IF r.type = "koops" THEN [r EXCEPT !.modules = IF @ = <<>> THEN <<>> ELSE @[1]] ELSE r
(* The lists are looked at when a method is called: they may hold anything. *)
IsA(S, x, k, t) == x > 0 /\ S[x].k = k /\ S[x].t = t
FramesBad(S, i) == LET o == S[i] IN IF \E j \in DOMAIN o.kids : ~IsA(S, o.kids[j], "frame", o.t) THEN "TypeError" ELSE IF HasDup(o.kids) THEN "ValueError" ELSE "ok"
LibsBad(S, i) == LET o == S[i] IN IF o.t # "gdb" THEN "ok" ELSE IF \E j \in DOMAIN o.libs : ~IsA(S, o.libs[j], "lib", "") THEN "TypeError" ELSE IF HasDup(o.libs) THEN "ValueError" ELSE "ok"
\* a frame of two threads, with something else behind it
Tangled(S, ts) == \E p, q \in DOMAIN ts : p < q /\ LET x == S[ts[p]].kids  y == S[ts[q]].kids
                                                  IN \E a \in DOMAIN x, b \in DOMAIN y : x[a] = y[b] /\ SubSeq(x, a + 1, Min2(Len(x), a + 1)) # SubSeq(y, b + 1, Min2(Len(y), b + 1))
ThreadsBad(S, i) ==
  LET o == S[i]  r == FoldLeft(LAMBDA r, x : IF r # "ok" THEN r ELSE IF ~IsA(S, x, "thread", o.t) THEN "TypeError" ELSE FramesBad(S, x), "ok", o.kids)
  IN IF r # "ok" THEN r ELSE IF HasDup(o.kids) \/ Tangled(S, o.kids) THEN "ValueError" ELSE LibsBad(S, i)
Bad(S, i) == IF Framed(S[i]) THEN FramesBad(S, i) ELSE ThreadsBad(S, i)
\* a crash thread that is not in the list any more is forgotten
Look(S, i) == IF S[i].k = "st" /\ S[i].t = "core" /\ Bad(S, i) = "ok" /\ S[i].a \notin Range1(S[i].kids) THEN [S EXCEPT ![i].a = 0] ELSE S
-----------------------------------------------------------------------------
(* Commands name objects by kind: the n-th of those a variable refers to. *)
Fits(S, i, s) ==
  LET o == S[i] IN (s.t = "" \/ o.t = s.t) /\
  CASE s.sel = "any" -> TRUE [] s.sel = "framed" -> Framed(o) [] s.sel = "multi" -> o.k = "st" /\ Multi(o.t) [] s.sel = "rated" -> o.k = "thread" /\ o.t \in {"gdb", "java"}
    [] s.sel = "gdb" -> o.k = "st" /\ o.t = "gdb" [] s.sel = "normal" -> o.k = "st" /\ o.t \in {"gdb", "koops"} [] s.sel = "copied" -> o.k \in {"frame", "thread", "st", "dist"}
    [] s.sel = "listed" -> o.k \in {"thread", "st", "report"} [] s.sel = "compared" -> o.k = "frame" \/ Framed(o) [] OTHER -> o.k = s.sel
Cands(S, s) == SelectSeq([i \in DOMAIN S |-> i], LAMBDA i : S[i].held /\ Fits(S, i, s))
\* 0: something else; -1: there is none
Pick(S, s) == IF s.sel = "none" THEN 0 ELSE LET cs == Cands(S, s) IN IF cs = <<>> THEN -1 ELSE cs[(s.n % Len(cs)) + 1]
-----------------------------------------------------------------------------
(* Attributes. *)
ClassIn(fields, a) == IF \E i \in DOMAIN fields : fields[i][1] = a THEN fields[CHOOSE i \in DOMAIN fields : fields[i][1] = a][2] ELSE "none"
GdbFields == <<<<"function_name", "str">>, <<"function_type", "str">>, <<"number", "u32">>, <<"source_file", "str">>, <<"source_line", "u32">>, <<"signal_handler_called", "bool">>, <<"address", "u64">>, <<"library_name", "str">>>>
Fields(o) ==
  CASE o.k = "frame" -> (CASE o.t = "gdb" -> GdbFields [] o.t = "java" -> Append(J!FrameFields("java"), <<"function_name", "str">>)
                           [] o.t = "python" -> J!FrameFields("python") \o <<<<"special_file", "bool">>, <<"special_function", "bool">>>> [] o.t = "ruby" -> Append(J!FrameFields("ruby"), <<"special_function", "bool">>)
                           [] OTHER -> J!FrameFields(o.t))
    [] o.k = "thread" -> <<<<"frames", "list">>>> \o (CASE o.t = "gdb" -> <<<<"number", "u32">>>> [] o.t = "java" -> <<<<"name", "str">>>> [] OTHER -> <<>>)
    [] o.k = "st" -> (IF Multi(o.t) THEN <<<<"threads", "list">>, <<"crash_thread", "later">>>> ELSE <<<<"frames", "list">>, <<"crash_thread", "fixed">>>>)
                     \o (CASE o.t = "core" -> <<<<"signal", "u16">>, <<"executable", "str">>, <<"only_crash_thread", "bool">>>> [] o.t = "gdb" -> <<<<"libs", "list">>, <<"crashframe", "fixed">>>>
                           [] o.t = "koops" -> <<<<"version", "str">>, <<"raw_oops", "str">>, <<"modules", "later">>, <<"taint_flags", "later">>>> [] o.t = "java" -> <<>> [] OTHER -> <<<<"exception_name", "str">>>>)
    [] o.k = "lib" -> <<<<"start_address", "u64">>, <<"end_address", "u64">>, <<"soname", "str">>, <<"symbols", "symbols">>>>
    [] o.k = "os" -> J!OsFields
    [] o.k = "pkg" -> Append(J!PkgFields, <<"role", "role">>)
    [] o.k = "report" -> <<<<"reporter_name", "str">>, <<"reporter_version", "str">>, <<"component_name", "str">>, <<"user_root", "bool">>, <<"user_local", "bool">>, <<"serial", "u32">>, <<"report_version", "fixed">>,
                           <<"report_type", "type">>, <<"auth", "later">>, <<"packages", "list">>>>
FieldOf(o, a) == IF o.k = "frame" /\ o.t = "java" /\ a = "function_name" THEN "name" ELSE IF o.k = "lib" THEN (CASE a = "start_address" -> "from" [] a = "end_address" -> "to" [] OTHER -> a) ELSE a
(* A Python value: [t, s, x, d, neg, truth]; a number by its hexadecimal (x) and
   decimal (d) digits. *)
Number(v) == v.t \in {"int", "bool"}
Upto64(v, max) == ~v.neg /\ NumCmp(v.x, max) <= 0
IntTo(v, max, new) == IF ~Number(v) THEN <<"TypeError">> ELSE IF ~Upto64(v, max) THEN <<"RangeError">> ELSE <<"ok", new>>
TextTo(v) == CASE v.t = "str" -> <<"ok", v.s>> [] v.t \in {"nul", "surrogate"} -> <<"ValueError">> [] OTHER -> <<"TypeError">>
SetTo(cl, v) ==
  CASE cl = "none" -> <<"AttributeError">> [] cl = "fixed" -> <<"AttributeError">> [] cl = "later" -> <<"NotImplementedError">>
    [] v.t = "del" -> <<"TypeError">>
    [] cl = "str" -> TextTo(v)
    [] cl = "bool" -> <<"ok", v.truth>>
    [] cl = "u16" -> IntTo(v, "0xffff", v.d) [] cl = "u32" -> IntTo(v, "0xffffffff", v.d)
    [] cl = "u64" -> IF v.t = "none" THEN <<"ok", Max64>> ELSE IntTo(v, Max64, v.x)
    [] cl = "symbols" -> IntTo(v, "0x2", HexVal(Ch(v.x, 3))) [] cl = "role" -> IntTo(v, "0x1", v.d)
    [] cl = "type" -> LET s == TextTo(v) IN IF s[1] # "ok" THEN s ELSE IF J!TypeOfName(v.s) = "invalid" THEN <<"ValueError">> ELSE <<"ok", J!TypeOfName(v.s)>>
    [] cl = "list" -> <<"TypeError">>            \* lists are set by another command
-----------------------------------------------------------------------------
(* Steps.  R: the heap afterwards; what is observed: how the call ended, which
   objects took part, what it returned. *)
R(S, r, ids, val) == [s |-> S, o |-> [r |-> r, ids |-> ids, val |-> val, n |-> Len(S)]]
Skip(S) == R(S, "skip", <<>>, "")
Unjudged(t, f) == (t = "ruby" /\ Len(f.rescue_level) > 2) \/ (t = "js" /\ f.file_name = NULL) \/ (t = "core" /\ f.function_name = NULL /\ f.build_id = NULL)
TextOf(t, text) ==
  LET None == [how |-> "bad", st |-> <<>>]
      Got(how, st) == [how |-> how, st |-> <<st>>]
  IN CASE t = "gdb" -> LET x == GT!Read(text) IN IF x.how # "ok" THEN [None EXCEPT !.how = x.how] ELSE Got("ok", [type |-> t, crash_tid |-> U32Max, crash |-> x.crash, threads |-> x.threads, libs |-> x.libs])
       [] t = "java" -> LET x == JT!Read(text) IN IF x.how # "ok" THEN [None EXCEPT !.how = x.how] ELSE Got("ok", [type |-> t, threads |-> <<[name |-> IF x.name = <<>> THEN NULL ELSE x.name[1], frames |-> x.frames]>>])
       [] t = "koops" -> LET x == KT!Read(text) IN IF x.how # "ok" THEN [None EXCEPT !.how = x.how]
                         ELSE Got("ok", [type |-> t, version |-> NULL, raw_oops |-> text, reason |-> x.reason, modules |-> x.modules, frames |-> x.frames]
                                        @@ [z \in { "taint_" \o J!TaintNames[i] : i \in DOMAIN J!TaintNames } |-> z \in { "taint_" \o y : y \in x.taints }])
       [] OTHER -> LET x == CASE t = "python" -> PT!Read(text) [] t = "ruby" -> RT!Read(text) [] OTHER -> JsT!Read(text)
                       b == [type |-> t, exception_name |-> x.exception_name, frames |-> x.frames]
                   IN IF x.how # "ok" THEN [None EXCEPT !.how = x.how] ELSE Got("ok", IF t = "js" THEN b @@ [platform |-> "1"] ELSE b)
New(S, c) ==
  LET s == CASE c.k = "frame" -> AddFrame(S, c.t, BlankFrame(c.t)) [] c.k = "thread" -> AddThread(S, c.t, [number |-> U32Max, tid |-> U32Max, name |-> NULL, frames |-> <<>>])
             [] c.k = "st" -> AddSt(S, BlankSt(c.t)) [] c.k = "lib" -> Append(S, Obj("lib", "", BlankLib, <<>>))
             [] c.k = "os" -> Append(S, Obj("os", "", [J!NoOs EXCEPT !.name = c.args[1], !.version = c.args[2], !.architecture = c.args[3]], <<>>))
             [] c.k = "pkg" -> Append(S, Obj("pkg", "", [J!NoPkg EXCEPT !.name = c.args[1], !.epoch = c.args[2], !.version = c.args[3], !.release = c.args[4], !.architecture = c.args[5]], <<>>))
             [] c.k = "report" -> AddReport(S, BlankReport(c))
  IN R(s, "ok", <<Len(S) + 1>>, "")
Text(S, c) == LET x == TextOf(c.t, c.text) IN CASE x.how = "any" -> R(S, "stop", <<>>, "") [] x.how = "bad" -> R(S, "ValueError", <<>>, "")
                [] OTHER -> IF c.k = "thread" THEN R(AddThread(S, c.t, x.st[1].threads[1]), "ok", <<Len(S) + 1>>, "") ELSE R(AddSt(S, x.st[1]), "ok", <<Len(S) + 1>>, "")
FunsThread(text) == LET fs == ParseFuns(text) IN [number |-> U32Max, tid |-> U32Max, frames |-> [i \in DOMAIN fs |-> fs[i] @@ GdbFrame]]
FromDoc(S, c) == IF c.t = "gdb" THEN R(S, "ValueError", <<>>, "") ELSE LET x == J!FromJson(c.t, c.doc) IN IF x.ok THEN R(AddSt(S, x.st[1]), "ok", <<Len(S) + 1>>, "") ELSE R(S, "ValueError", <<>>, "")
ReportDoc(S, c) == LET x == J!FromReport(c.doc, c.name, c.version) IN IF x.ok THEN R(AddReport(S, x.rep[1]), "ok", <<Len(S) + 1>>, "") ELSE R(S, "ValueError", <<>>, "")
Set(S, i, c) == LET o == S[i]  x == SetTo(ClassIn(Fields(o), c.a), c.v) IN IF x[1] # "ok" THEN R(S, x[1], <<i>>, "") ELSE R([S EXCEPT ![i].f[FieldOf(o, c.a)] = x[2]], "ok", <<i>>, "")
(* lists are edited in place or replaced *)
Edited(l, c, x) == CASE c.e = "append" -> Append(l, x) [] c.e = "insert" -> LET p == c.p % (Len(l) + 1) IN Take(l, p) \o <<x>> \o Drop(l, p)
                     [] c.e = "pop" -> LET p == c.p % Len(l) IN Take(l, p) \o Drop(l, p + 1) [] c.e = "clear" -> <<>> [] c.e = "reverse" -> Reverse(l)
                     [] c.e = "assign" -> Append(Take(l, c.p), x) [] c.e = "cut" -> Take(l, c.p) [] c.e = "set" -> LET p == c.p % Len(l) IN [l EXCEPT ![p + 1] = x]
Edit(S, i, c) ==
  LET libs == c.l = "libs"  l == IF libs THEN S[i].libs ELSE S[i].kids
      x == IF c.e \in {"append", "insert", "assign", "set"} THEN Pick(S, c.v) ELSE 0
  IN IF (libs /\ ~(S[i].k = "st" /\ S[i].t = "gdb")) \/ x = -1 \/ x = i \/ (c.e \in {"pop", "set"} /\ l = <<>>) THEN Skip(S)
     ELSE R(IF libs THEN [S EXCEPT ![i].libs = Edited(l, c, x)] ELSE [S EXCEPT ![i].kids = Edited(l, c, x)], "ok", <<i, x>>, "")
\* the system and the stack trace of a report may be set to anything
Attach(S, i, c) == LET x == Pick(S, c.v)  y == IF x = 0 THEN (IF c.none THEN 0 ELSE -1) ELSE x
                   IN IF x = -1 THEN Skip(S) ELSE R(IF c.a = "operating_system" THEN [S EXCEPT ![i].a = y] ELSE [S EXCEPT ![i].b = y], "ok", <<i, x>>, "")
Dup(S, i) ==
  LET o == S[i]  n == Len(S) + 1  s == Look(S, i)
  IN IF o.k = "dist" THEN R(Append(S, Obj("dist", "", o.f, <<>>)), "ok", <<i, n>>, "")
     ELSE IF o.k = "frame" THEN R(AddFrame(S, o.t, o.f), "ok", <<i, n>>, "")
     ELSE IF Bad(S, i) # "ok" THEN R(S, Bad(S, i), <<i>>, "")
     ELSE IF o.k = "thread" THEN R(AddThread(S, o.t, ThRec(S, i)), "ok", <<i, n>>, "")
     ELSE LET s1 == AddSt(s, Rec(s, i)) IN IF o.t = "gdb" /\ o.a # 0 THEN R(AddFrame([s1 EXCEPT ![n].a = Len(s1) + 1], "gdb", S[o.a].f), "ok", <<i, n>>, "") ELSE R(s1, "ok", <<i, n>>, "")
(* frames and threads equal those of the same class with the same content *)
Equals(S, i, j) ==
  LET o == S[i]  q == S[j]
  IN IF (o.k = "frame" /\ q.k # "frame") \/ (o.k # "frame" /\ ~Framed(q)) THEN R(S, "TypeError", <<i, j>>, "")
     ELSE IF o.k # q.k \/ o.t # q.t THEN R(S, "ok", <<i, j>>, FALSE)
     ELSE IF o.k = "frame" THEN R(S, "ok", <<i, j>>, FrameCmp(o.t, o.f, q.f) = 0)
     ELSE IF FramesBad(S, i) # "ok" THEN R(S, FramesBad(S, i), <<i, j>>, "") ELSE IF FramesBad(S, j) # "ok" THEN R(S, FramesBad(S, j), <<i, j>>, "")
     ELSE R(S, "ok", <<i, j>>, ThreadCmp(o.t, Rec(S, i), Rec(S, j)) = 0)
Distance(S, i, j, c) ==
  LET o == S[i]  q == S[j]
  IN IF ~Framed(q) THEN R(S, "TypeError", <<i, j>>, "")
     ELSE IF FramesBad(S, i) # "ok" THEN R(S, FramesBad(S, i), <<i, j>>, "") ELSE IF FramesBad(S, j) # "ok" THEN R(S, FramesBad(S, j), <<i, j>>, "")
     ELSE IF o.k # q.k \/ o.t # q.t THEN R(S, "TypeError", <<i, j>>, "")
     ELSE IF c.d \notin 0..3 THEN R(S, "ValueError", <<i, j>>, "")
     ELSE R(S, "ok", <<i, j>>, D!Dist(c.d, o.t, Fs(S, i), Fs(S, j)))
CountOk(t, fs) == Count(fs, LAMBDA f : IF t = "gdb" THEN GdbOk(f) ELSE JavaOk(f))
\* methods of one object that look at its lists and leave everything as it is
View(S, i, c) ==
  LET o == S[i]  bad == IF c.op = "crash" /\ Framed(o) THEN "ok" ELSE Bad(S, i)  s == Look(S, i)  Ok(v) == R(s, "ok", <<i>>, v)
  IN IF bad # "ok" THEN R(S, bad, <<i>>, "")
     ELSE CASE c.op = "duphash" -> LET x == DupHash([type |-> o.t, frames |-> Fs(S, i), n |-> c.n, prefix |-> c.prefix, nonorm |-> c.nonorm, compat |-> c.compat]) IN IF x = NULL THEN R(s, "RuntimeError", <<i>>, "") ELSE Ok(x)
            [] c.op = "bthash" -> Ok(BtText(Flat(Rec(s, i))))
            [] c.op = "short" -> LET r == Rec(s, i)  k == CrashThread(r)  fs == IF k = 0 THEN <<>> ELSE ThreadsOf(r)[k].frames
                                 IN IF \E x \in DOMAIN fs : Unjudged(o.t, fs[x]) THEN Skip(S) ELSE LET x == ShortText(r, c.n) IN IF x = NULL THEN R(s, "LookupError", <<i>>, "") ELSE Ok(x)
            [] c.op = "crash" -> LET r == Rec(s, i)  k == CrashThread(r) IN Ok(IF ~Multi(o.t) THEN i ELSE IF k = 0 THEN 0 ELSE o.kids[k])
            [] c.op = "counts" -> Ok(<<CountOk(o.t, Fs(S, i)), Len(o.kids)>>)
            [] c.op = "quality" -> Ok(IF o.t = "gdb" THEN ThreadQ(Fs(S, i)) ELSE JavaQ(Fs(S, i)))
            [] c.op = "funs" -> Ok(Funs(o.t, Fs(S, i)))
            [] c.op = "simple" -> Ok(SimpleQ(Rec(S, i))) [] c.op = "complex" -> Ok(ComplexQ(Rec(S, i)))
            [] c.op = "address" -> IF ~Number(c.v) THEN R(S, "TypeError", <<i>>, "") ELSE IF ~Upto64(c.v, Max64) THEN R(S, "RangeError", <<i>>, "")
                                   ELSE LET x == SelectSeq(o.libs, LAMBDA l : U64Cmp(S[l].f.from, c.v.x) <= 0 /\ U64Cmp(c.v.x, S[l].f.to) <= 0) IN Ok(IF c.v.x = Max64 \/ x = <<>> THEN 0 ELSE x[1])
(* methods that change a stack trace: its lists get new objects, the old ones
   keep what they had *)
Renew(S, i, st) == LET r == AddThreads(S, S[i].t, st.threads) IN [r.s EXCEPT ![i].kids = r.ids]
Change(S, i, c) ==
  LET o == S[i]  bad == Bad(S, i)
  IN IF bad # "ok" THEN R(S, bad, <<i>>, "")
     ELSE CASE c.op = "normalize" ->
                 IF o.t = "gdb" THEN LET st == NormSt(Rec(S, i)) IN R([Renew(S, i, st) EXCEPT ![i].c = st.crash, ![i].f.crash_tid = st.crash_tid], "ok", <<i>>, "")
                 ELSE LET fs == NormKoops(Fs(S, i)) IN R([S EXCEPT ![i].kids = NewIds(Len(S), Len(fs))] \o Frames1(o.t, fs), "ok", <<i>>, "")
            [] c.op = "limit" -> IF c.n <= 0 THEN R(S, "ValueError", <<i>>, "")
                                 ELSE LET st == Rec(S, i) IN R(Renew(S, i, [st EXCEPT !.threads = [j \in DOMAIN st.threads |-> [st.threads[j] EXCEPT !.frames = Take(@, c.n)]]]), "ok", <<i>>, "")
            [] c.op = "libnames" -> LET ls == Rec(S, i).libs  fr == UNION { Range1(S[o.kids[j]].kids) : j \in DOMAIN o.kids }
                                    IN R([x \in DOMAIN S |-> IF x \in fr THEN [S[x] EXCEPT !.f = SetLib(ls, @)] ELSE S[x]], "ok", <<i>>, "")
            [] c.op = "findcrash" -> LET f == CrashFrame(Rec(S, i)) IN IF f = <<>> THEN R(S, "LookupError", <<i>>, "") ELSE R(AddFrame([S EXCEPT ![i].a = Len(S) + 1], "gdb", f[1]), "ok", <<i, Len(S) + 1>>, "")
PkgsBad(S, i) == LET l == S[i].kids IN IF \E j \in DOMAIN l : ~IsA(S, l[j], "pkg", "") THEN "TypeError" ELSE IF HasDup(l) THEN "ValueError" ELSE "ok"
ToJson(S, i) ==
  LET o == S[i]  t == o.f.report_type  with == o.b # 0 /\ J!Sent(t)
  IN IF PkgsBad(S, i) # "ok" THEN R(S, PkgsBad(S, i), <<i>>, "")
     ELSE IF o.a # 0 /\ ~IsA(S, o.a, "os", "") THEN R(S, "TypeError", <<i>>, "")
     ELSE IF with /\ ~IsA(S, o.b, "st", t) THEN R(S, "TypeError", <<i>>, "")
     ELSE IF with /\ Bad(S, o.b) # "ok" THEN R(S, Bad(S, o.b), <<i>>, "")
     ELSE LET s == IF with THEN Look(S, o.b) ELSE S
          IN R(s, "ok", <<i>>, J!ReportJ(o.f @@ [os |-> IF o.a = 0 THEN <<>> ELSE <<S[o.a].f>>, packages |-> [j \in DOMAIN o.kids |-> S[o.kids[j]].f], stacktrace |-> IF with THEN <<Rec(s, o.b)>> ELSE <<>>]))
-----------------------------------------------------------------------------
(* Matrices of distances, and their parts.  A value is a fraction, or <<>> where
   nothing was ever put. *)
Params(m, n, d) == m >= 1 /\ n >= 2 /\ d \in 1..3
\* threads are given in a list, each as it is now
Picks(S, ts) == [j \in DOMAIN ts |-> Pick(S, ts[j])]
ThreadList(S, ps) == LET r == FoldLeft(LAMBDA r, x : IF r.bad # "ok" THEN r
                                                     ELSE IF x = 0 THEN [r EXCEPT !.bad = "TypeError"]
                                                     ELSE IF ~Framed(S[x]) \/ (r.k # "" /\ (S[x].k # r.k \/ S[x].t # r.t)) THEN [r EXCEPT !.bad = "TypeError"]
                                                     ELSE [bad |-> FramesBad(S, x), k |-> S[x].k, t |-> S[x].t], [bad |-> "ok", k |-> "", t |-> ""], ps)
                     IN r
NewDist(S, m, n, v) == Append(S, Obj("dist", "", [m |-> m, n |-> n, v |-> v], <<>>))
Distances(S, c) ==
  LET ps == Picks(S, c.ts)  n == Len(ps)
  IN IF \E j \in DOMAIN ps : ps[j] = -1 THEN Skip(S)
     ELSE IF ~Params(c.m, n, c.d) THEN R(S, "ValueError", ps, "")
     ELSE LET l == ThreadList(S, ps) IN IF l.bad # "ok" THEN R(S, l.bad, ps, "")
          ELSE R(NewDist(S, P!Rows(c.m, n), n, D!RunMatrix([m |-> c.m, k |-> c.d, type |-> l.t, ts |-> [j \in DOMAIN ps |-> Fs(S, ps[j])]])), "ok", ps, "")
Matrix(S, c) == IF c.m < 1 \/ c.n < 2 THEN R(S, "ValueError", <<>>, "") ELSE LET m == P!Rows(c.m, c.n) IN R(NewDist(S, m, c.n, [i \in 1..m |-> [j \in 1..(c.n - i) |-> <<>>]]), "ok", <<>>, "")
Cell(o, c, F(_, _)) == LET a == Min2(c.i, c.j)  b == IF c.i < c.j THEN c.j ELSE c.i IN F(a + 1, b - a)
Inside(o, c) == c.i \in 0..(o.f.m - 1) /\ c.j \in 0..(o.f.n - 1)
GetD(S, i, c) == LET o == S[i] IN IF ~Inside(o, c) THEN R(S, "ValueError", <<i>>, "") ELSE R(S, "ok", <<i>>, IF c.i = c.j THEN <<0, 1>> ELSE Cell(o, c, LAMBDA a, b : o.f.v[a][b]))
SetD(S, i, c) == LET o == S[i] IN IF ~Inside(o, c) THEN R(S, "ValueError", <<i>>, "") ELSE IF c.i = c.j THEN R(S, "ok", <<i>>, "")
                                  ELSE R(Cell(o, c, LAMBDA a, b : [S EXCEPT ![i].f.v[a][b] = c.v]), "ok", <<i>>, "")
\* no number of rows stands for all of them
CreateParts(S, c) ==
  LET m == IF c.m = 0 THEN c.n - 1 ELSE c.m
  IN IF ~Params(m, c.n, c.d) THEN R(S, "ValueError", <<>>, "") ELSE IF c.nparts = 0 THEN R(S, "RuntimeError", <<>>, "")
     ELSE LET ps == P!Create(m, c.n, c.nparts) IN R(S \o [j \in DOMAIN ps |-> Obj("part", "", P!Fresh(ps[j]) @@ [d |-> c.d], <<>>)], "ok", <<>>, "")
Compute(S, i, c) ==
  LET ps == Picks(S, c.ts)  ids == <<i>> \o ps  l == ThreadList(S, ps)
  IN IF \E j \in DOMAIN ps : ps[j] = -1 THEN Skip(S) ELSE IF l.bad # "ok" THEN R(S, l.bad, ids, "") ELSE IF Len(ps) # S[i].f.n THEN R(S, "ValueError", ids, "")
     ELSE R([S EXCEPT ![i].f = P!ComputePart(@, [j \in DOMAIN ps |-> Fs(S, ps[j])], @.d, l.t)], "ok", ids, "")
MergeParts(S, c) ==
  LET ps == Picks(S, c.ts)
  IN IF \E j \in DOMAIN ps : ps[j] = -1 THEN Skip(S) ELSE IF \E j \in DOMAIN ps : ~IsA(S, ps[j], "part", "") THEN R(S, "TypeError", ps, "")
     ELSE IF ps = <<>> \/ HasDup(ps) THEN R(S, "ValueError", ps, "")
     ELSE LET l == [j \in DOMAIN ps |-> S[ps[j]].f] IN IF ~P!MergeOk(l) THEN R(S, "RuntimeError", ps, "") ELSE R(NewDist(S, l[1].m, l[1].n, P!Merge(l)), "ok", ps, "")
Place(x, y) == "(" \o Nat2Str(x) \o ", " \o Nat2Str(y) \o ")"
(* a short description *)
Plus(p, x) == IF x = NULL THEN "" ELSE p \o x
StrOf(o) ==
  LET n == Nat2Str(Len(o.kids))
  IN CASE o.k = "thread" -> (CASE o.t = "gdb" -> "Thread #" \o o.f.number [] o.t = "java" -> "Thread" \o Plus(" ", o.f.name) [] OTHER -> "Thread") \o " with " \o n \o " frames"
       [] o.k = "st" -> (CASE o.t = "gdb" -> "Stacktrace" [] o.t = "koops" -> "Kerneloops" [] o.t = "js" -> "JavaScript stacktrace" [] o.t = "core" -> "Core stacktrace" [] o.t = "java" -> "Java stacktrace"
                           [] o.t = "python" -> "Python stacktrace" [] OTHER -> "Ruby stacktrace") \o " with " \o n \o (IF Multi(o.t) THEN " threads" ELSE " frames")
       [] o.k = "lib" -> IF o.f.soname = NULL THEN "Unknown shared library" ELSE o.f.soname
       [] o.k = "os" -> (IF o.f.name = NULL THEN "(unknown)" ELSE o.f.name) \o Plus(" ", o.f.version) \o (IF o.f.architecture = NULL THEN "" ELSE " (" \o o.f.architecture \o ")") \o Plus(", CPE: ", o.f.cpe)
       [] o.k = "pkg" -> IF o.f.name = NULL THEN "(unknown)" ELSE o.f.name \o (IF o.f.version = NULL THEN "" ELSE "-" \o (IF o.f.epoch = "0" THEN "" ELSE o.f.epoch \o ":") \o o.f.version
                                                                              \o (IF o.f.release = NULL THEN "" ELSE "-" \o o.f.release \o Plus(".", o.f.architecture)))
       [] o.k = "dist" -> Nat2Str(o.f.m) \o "-by-" \o Nat2Str(o.f.n) \o " distance matrix"
       [] o.k = "part" -> Nat2Str(o.f.m) \o "-by-" \o Nat2Str(o.f.n) \o " distance matrix part starting at " \o Place(o.f.i, o.f.j) \o " of length " \o Nat2Str(o.f.len) \o (IF o.f.done = P!Unset THEN ", not " ELSE ", ") \o "computed"
       [] o.k = "report" -> "Report, type: " \o J!TypeName(o.f.report_type) \o Plus(", component: ", o.f.component_name)
       [] OTHER -> NULL         \* frames: not judged
-----------------------------------------------------------------------------
One == {"new", "text", "funs_text", "json", "report_json", "distances", "matrix", "parts", "merge"}
\* what an object would then hold itself is never released
RECURSIVE Below(_, _, _)
Below(S, L, n) == IF n = 0 THEN L ELSE Below(S, L \cup KidSet(S, L), n - 1)
Cyclic(S, i, c) == c.op \in {"edit", "attach"} /\ LET j == Pick(S, c.v) IN j > 0 /\ i \in Below(S, {j}, 5)
Step(S, c) ==
  IF c.op \in One THEN CASE c.op = "new" -> New(S, c) [] c.op = "text" -> Text(S, c) [] c.op = "funs_text" -> R(AddThread(S, "gdb", FunsThread(c.text)), "ok", <<Len(S) + 1>>, "")
                         [] c.op = "json" -> FromDoc(S, c) [] c.op = "report_json" -> ReportDoc(S, c) [] c.op = "distances" -> Distances(S, c) [] c.op = "matrix" -> Matrix(S, c)
                         [] c.op = "parts" -> CreateParts(S, c) [] c.op = "merge" -> MergeParts(S, c)
  ELSE LET i == Pick(S, c.o) IN
  IF i <= 0 THEN Skip(S)
  ELSE IF Cyclic(S, i, c) THEN Skip(S)
  ELSE CASE c.op = "set" -> Set(S, i, c)
         [] c.op = "edit" -> Edit(S, i, c)
         [] c.op = "attach" -> Attach(S, i, c)
         [] c.op = "drop" -> R([S EXCEPT ![i].held = FALSE], "ok", <<i>>, "")
         [] c.op = "dup" -> Dup(S, i)
         [] c.op \in {"equals", "distance"} -> LET j == Pick(S, c.v) IN IF j <= 0 THEN Skip(S) ELSE IF c.op = "equals" THEN Equals(S, i, j) ELSE Distance(S, i, j, c)
         [] c.op = "frametext" -> IF Unjudged(S[i].t, S[i].f) THEN Skip(S) ELSE R(S, "ok", <<i>>, FrameStr(S[i].t, S[i].f))
         [] c.op = "calls" -> R(S, "ok", <<i>>, IF S[i].f.function_name = c.name /\ (c.file = NULL \/ (S[i].f.source_file # NULL /\ HasSub(S[i].f.source_file, c.file))) THEN 1 ELSE 0)
         [] c.op \in {"normalize", "limit", "libnames", "findcrash"} -> Change(S, i, c)
         [] c.op = "to_json" -> ToJson(S, i)
         [] c.op = "getd" -> GetD(S, i, c) [] c.op = "setd" -> SetD(S, i, c) [] c.op = "size" -> R(S, "ok", <<i>>, <<S[i].f.m, S[i].f.n>>)
         [] c.op = "compute" -> Compute(S, i, c)
         [] c.op = "pickle" -> R(Append(S, Obj("part", "", S[i].f, <<>>)), "ok", <<i>>, "")      \* written down and read again
         [] c.op = "str" -> R(S, "ok", <<i>>, StrOf(S[i]))
         [] OTHER -> View(S, i, c)
(* Everything that variables refer to, as Python sees it. *)
Dump(S) ==
  LET all == Referred(S)  held == SelectSeq([i \in DOMAIN S |-> i], LAMBDA i : S[i].held)
  IN [j \in DOMAIN held |-> LET i == held[j]  o == S[i]
        IN [id |-> i, k |-> o.k, t |-> o.t, f |-> o.f, kids |-> o.kids, libs |-> o.libs, a |-> IF o.t = "core" THEN 0 ELSE o.a, b |-> o.b, refs |-> 1 + Len(SelectSeq(all, LAMBDA x : x = i))]]
Run(c) == LET r == FoldLeft(LAMBDA r, x : IF r.stop THEN r ELSE LET y == Step(r.s, x) IN [s |-> y.s, outs |-> Append(r.outs, y.o), stop |-> y.o.r = "stop"], [s |-> <<>>, outs |-> <<>>, stop |-> FALSE], c.cmds)
          IN [outs |-> r.outs, dump |-> Dump(r.s)]
=============================================================================
