------------------------------ MODULE Normalize ------------------------------
(* Normalization of threads (gdb, core, kernel oops), search for the crashed
   thread and frame, library names, quality rating. *)
EXTENDS Frames, NormTables
In(tab, f, src) == f \in DOMAIN tab /\ src # NULL /\ \E p \in tab[f] : HasSub(src, p)
Src(t, f) == IF t = "core" THEN f.file_name ELSE f.source_file
Nm(f) == f.function_name
IsExit(t, f) == Nm(f) # NULL /\ (IF t = "gdb" THEN In(GdbExit, Nm(f), f.source_file)
                                 ELSE Nm(f) \in DOMAIN CoreExit /\ (CoreExit[Nm(f)] = {} \/ In(CoreExit, Nm(f), f.file_name)))
ExitIndex(t, fs) == LET s == { i \in DOMAIN fs : IsExit(t, fs[i]) } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
(* prefixes *)
Cut4(s, p) == IF StartsWith(s, p) THEN From(s, 5) ELSE s
StripPrefixes(n) == LET a == Cut4(Cut4(Cut4(n, "IA__gdk"), "IA__g_"), "IA__gtk") IN IF StartsWith(a, "__GI_") THEN From(a, 6) ELSE a
StripFrame(t, f) == IF Nm(f) = NULL \/ (t = "gdb" /\ f.source_file = NULL) THEN f ELSE [f EXCEPT !.function_name = StripPrefixes(Nm(f))]
(* processor-specific variants of C library functions *)
ArchTable == [n \in { "__" \o f \o s : f \in ArchFuncs, s \in ArchSuffixes } |-> CHOOSE f \in ArchFuncs : \E s \in ArchSuffixes : n = "__" \o f \o s]
Rename(t, f) ==
  IF Nm(f) = NULL \/ Nm(f) \notin DOMAIN ArchTable \/ Src(t, f) = NULL THEN f
  ELSE LET g == ArchTable[Nm(f)]  sys == IF Nm(f) = "__" \o g \o "_ia32" THEN "/sysdeps" ELSE "/sysdeps/"
       IN IF HasSub(Src(t, f), g) \/ HasSub(Src(t, f), sys) \/ HasSub(Src(t, f), "libc.so") THEN [f EXCEPT !.function_name = g] ELSE f
(* frames that say nothing about the cause *)
RECURSIVE Prune(_, _, _, _)
Prune(t, fs, i, kept) ==
  IF i > Len(fs) THEN kept
  ELSE LET f == fs[i] IN
       IF Nm(f) # NULL /\ (In(RemovableWithAbove, Nm(f), Src(t, f)) \/ IsExit(t, f)) THEN Prune(t, fs, i + 1, <<>>)
       ELSE IF Nm(f) # NULL /\ In(Removable, Nm(f), Src(t, f)) THEN Prune(t, fs, i + 1, kept)
       ELSE Prune(t, fs, i + 1, Append(kept, f))
NullCall(t, f) == f.address = "0x0" /\ Nm(f) = (IF t = "gdb" THEN "??" ELSE NULL)
DropFirst(t, fs) == IF fs # <<>> /\ NullCall(t, fs[1]) THEN Tail(fs) ELSE fs
DropLast(t, fs) == IF fs # <<>> /\ NullCall(t, fs[Len(fs)]) THEN Take(fs, Len(fs) - 1) ELSE fs
Mergeable(t, n) == IF t = "gdb" THEN n # "??" ELSE n # NULL
RECURSIVE Merge(_, _, _)
Merge(t, fs, acc) == IF fs = <<>> THEN acc
                     ELSE IF acc # <<>> /\ Mergeable(t, Nm(acc[Len(acc)])) /\ Nm(acc[Len(acc)]) = Nm(fs[1]) THEN Merge(t, Tail(fs), acc)
                     ELSE Merge(t, Tail(fs), Append(acc, fs[1]))
(* the home directory's owner is not told *)
Anon(p) == IF p = NULL \/ ~StartsWith(p, "/home/") THEN p
           ELSE LET k == FindFrom(p, 7, "/") IN IF k = 0 THEN p ELSE "/home/anonymized" \o From(p, k)
AnonFrame(f) == [f EXCEPT !.file_name = Anon(@)]
MapS(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
NormCG(t, fs) ==
  LET a == Drop(fs, ExitIndex(t, fs))
      b == MapS(a, LAMBDA f : Rename(t, StripFrame(t, f)))
      c == Prune(t, b, 1, <<>>)
      d == IF t = "core" THEN MapS(c, AnonFrame) ELSE c
  IN Merge(t, DropLast(t, DropFirst(t, d)), <<>>)
(* kernel oops: suffixes after a dot, frames of the generic call path *)
UndotAt(n) == LET k == Find(n, ".") IN IF k = 0 THEN n ELSE Upto(n, k - 1)
RECURSIVE KoopsPrune(_)
KoopsPrune(fs) == IF fs = <<>> THEN <<>> ELSE (IF fs[1].module_name = NULL /\ Nm(fs[1]) \in KoopsNoise THEN <<>> ELSE <<fs[1]>>) \o KoopsPrune(Tail(fs))
NormKoops(fs) == KoopsPrune(MapS(fs, LAMBDA f : IF Nm(f) = NULL THEN f ELSE [f EXCEPT !.function_name = UndotAt(@)]))
Norm(t, fs) == IF t \in {"gdb", "core"} THEN NormCG(t, fs) ELSE IF t = "koops" THEN NormKoops(fs) ELSE fs

-----------------------------------------------------------------------------
(* Crash thread: 1-based index, 0 if unknown.  The crash frame of a gdb stack
   trace is a sequence of at most one frame. *)
RECURSIVE FramesOrder(_, _)
FramesOrder(a, b) == SeqCmp("gdb", a, b)
TopIs(th, n) == th.frames # <<>> /\ Nm(th.frames[1]) = n
OnlyOne(s) == IF Cardinality(s) = 1 THEN CHOOSE x \in s : TRUE ELSE 0
GdbCrash(st) ==
  LET n == Len(st.threads)  all == 1..n
      tid == { i \in all : st.threads[i].tid = st.crash_tid }
      cand == IF st.crash = <<>> \/ (st.crash # <<>> /\ Nm(st.crash[1]) = NULL) THEN {} ELSE { i \in all : TopIs(st.threads[i], Nm(st.crash[1])) }
      ex == { i \in cand : ExitIndex("gdb", st.threads[i].frames) # 0 }
      least == { i \in cand : \A j \in cand : FramesOrder(st.threads[i].frames, st.threads[j].frames) <= 0 }
  IN IF n <= 1 THEN n
     ELSE IF st.crash_tid # U32Max /\ tid # {} THEN CHOOSE i \in tid : \A j \in tid : i <= j
     ELSE IF OnlyOne(cand) # 0 THEN OnlyOne(cand)
     ELSE IF OnlyOne(ex) # 0 THEN OnlyOne(ex)
     ELSE IF cand = {} THEN 0 ELSE CHOOSE i \in least : \A j \in least : i <= j
CoreCrash(st) ==
  LET n == Len(st.threads)  ex == { i \in 1..n : ExitIndex("core", st.threads[i].frames) # 0 }
  IN IF st.crash_thread >= 0 THEN st.crash_thread + 1
     ELSE IF n <= 1 THEN n ELSE IF ex = {} THEN 0 ELSE CHOOSE i \in ex : \A j \in ex : i <= j
CrashThread(st) == CASE st.type = "gdb" -> GdbCrash(st) [] st.type = "core" -> CoreCrash(st) [] st.type = "java" -> Min2(1, Len(st.threads)) [] OTHER -> 1
(* normalization of a whole gdb stack trace remembers the crash thread first *)
NormThreads(st) == [st EXCEPT !.threads = [i \in DOMAIN st.threads |-> [st.threads[i] EXCEPT !.frames = Norm(st.type, @)]]]
NormSt(st) ==
  IF st.type = "gdb"
  THEN LET c == GdbCrash(st)
           s1 == IF st.crash_tid = U32Max /\ c # 0 THEN [st EXCEPT !.crash_tid = st.threads[c].tid] ELSE st
       IN NormThreads([s1 EXCEPT !.crash = MapS(st.crash, LAMBDA f : StripFrame("gdb", f))])
  ELSE IF "threads" \in DOMAIN st THEN NormThreads(st) ELSE [st EXCEPT !.frames = Norm(st.type, @)]
CrashFrame(st) == LET c == GdbCrash(st) IN IF c = 0 THEN <<>> ELSE Take(NormSt(st).threads[c].frames, 1)

-----------------------------------------------------------------------------
(* Quality: the share of frames that are understood. *)
GdbOk(f) == f.signal_handler_called \/ (Nm(f) \notin {NULL, "??"} /\ f.source_file \notin {NULL, ""})
Count(s, P(_)) == Cardinality({ i \in DOMAIN s : P(s[i]) })
RECURSIVE SumSeq(_)
SumSeq(ns) == IF ns = <<>> THEN 0 ELSE ns[1] + SumSeq(Tail(ns))
AllFrames(st) == SumSeq([i \in DOMAIN st.threads |-> Len(st.threads[i].frames)])
OkFrames(st) == SumSeq([i \in DOMAIN st.threads |-> Count(st.threads[i].frames, GdbOk)])
ThreadQ(fs) == IF fs = <<>> THEN <<1, 1>> ELSE <<Count(fs, GdbOk), Len(fs)>>
JavaOk(f) == f.is_native \/ f.file_name # NULL
JavaQ(fs) == IF fs = <<>> THEN <<1, 1>> ELSE <<Count(fs, JavaOk), Len(fs)>>
SimpleQ(st) == IF AllFrames(st) = 0 THEN <<0, 1>> ELSE <<OkFrames(st), AllFrames(st)>>
ComplexQ(st) ==
  LET c == GdbCrash(st)  ns == NormSt(st)  q1 == SimpleQ(ns)
  IN IF c = 0 THEN q1
     ELSE LET q2 == ThreadQ(ns.threads[c].frames)  q3 == ThreadQ(Take(ns.threads[c].frames, 5))
              d == q1[2] * q2[2] * q3[2]
          IN <<5 * q1[1] * q2[2] * q3[2] + 7 * q1[2] * q2[1] * q3[2] + 8 * q1[2] * q2[2] * q3[1], 20 * d>>

-----------------------------------------------------------------------------
(* Shared libraries: the first whose address range contains the address. *)
FindLib(libs, a) ==
  IF a = "0xffffffffffffffff" THEN 0
  ELSE LET s == { i \in DOMAIN libs : U64Cmp(libs[i].from, a) <= 0 /\ U64Cmp(a, libs[i].to) <= 0 } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
BaseName(p) == From(p, FindLast(p, "/") + 1)
LibName(p) == LET b == BaseName(p)  k == Find(b, ".so") IN IF k = 0 THEN b ELSE Upto(b, k + 2)
SetLib(libs, f) == LET i == FindLib(libs, f.address) IN IF i = 0 THEN f ELSE IF libs[i].soname = NULL THEN f ELSE [f EXCEPT !.library_name = LibName(libs[i].soname)]
SetLibs(libs, fs) == MapS(fs, LAMBDA f : SetLib(libs, f))
SetLibnames(st) == [st EXCEPT !.threads = [i \in DOMAIN st.threads |-> [st.threads[i] EXCEPT !.frames = SetLibs(st.libs, @)]]]
RECURSIVE Interesting(_)
Interesting(fs) == IF fs = <<>> THEN <<>> ELSE (IF Nm(fs[1]) \in {NULL, "main"} THEN <<>> ELSE <<fs[1]>>) \o Interesting(Tail(fs))
Optimized(libs, fs, max) == LET r == Interesting(Norm("gdb", SetLibs(libs, fs))) IN IF max > 0 THEN Take(r, max) ELSE r

-----------------------------------------------------------------------------
(* Unknown functions of two gdb threads that sit between the same known
   functions get a common name. *)
LibsAgree(f, g) == f.library_name = NULL \/ g.library_name = NULL \/ f.library_name = g.library_name
NextAgree(a, i, b, j) == (i = Len(a) /\ j = Len(b)) \/ (i < Len(a) /\ j < Len(b) /\ Nm(a[i + 1]) = Nm(b[j + 1]) /\ Nm(a[i + 1]) # "??" /\ LibsAgree(a[i + 1], b[j + 1]))
Unknown(f) == Nm(f) = "??"
CanPair(a, i, b, j) == Unknown(a[i]) /\ Unknown(b[j]) /\ LibsAgree(a[i], b[j]) /\ NextAgree(a, i, b, j)
                       /\ (IF i = 1 THEN j = 1 ELSE j > 1 /\ ~Unknown(b[j - 1]) /\ Nm(a[i - 1]) = Nm(b[j - 1]) /\ LibsAgree(a[i - 1], b[j - 1]))
RECURSIVE PairFrom(_, _, _, _)
PairFrom(a, b, i, k) ==
  IF i > Len(a) THEN <<a, b>>
  ELSE LET js == { j \in DOMAIN b : CanPair(a, i, b, j) }  j == CHOOSE x \in js : \A y \in js : x <= y  nm == "__unknown_function_" \o ToString(k)
       IN IF js = {} THEN PairFrom(a, b, i + 1, k) ELSE PairFrom([a EXCEPT ![i].function_name = nm], [b EXCEPT ![j].function_name = nm], i + 1, k + 1)
Paired(a, b) == PairFrom(a, b, 1, 0)

-----------------------------------------------------------------------------
RunNorm(c) == Norm(c.type, c.frames)
RunPaired(c) == Paired(c.a, c.b)
RunCrash(c) == [crash |-> CrashThread(c.st) - 1, norm |-> NormSt(c.st), crash_after |-> CrashThread(NormSt(c.st)) - 1,
                frame |-> IF c.st.type = "gdb" THEN CrashFrame(c.st) ELSE <<>>,
                exits |-> IF c.st.type \in {"gdb", "core"} THEN [i \in DOMAIN c.st.threads |-> ExitIndex(c.st.type, c.st.threads[i].frames) - 1] ELSE <<>>]
RunQuality(c) == IF c.st.type = "java" THEN [threads |-> [i \in DOMAIN c.st.threads |-> JavaQ(c.st.threads[i].frames)]]
                 ELSE [threads |-> [i \in DOMAIN c.st.threads |-> ThreadQ(c.st.threads[i].frames)], simple |-> SimpleQ(c.st), complex |-> ComplexQ(c.st)]
RunLibs(c) == [found |-> [i \in DOMAIN c.addrs |-> FindLib(c.st.libs, c.addrs[i]) - 1], named |-> SetLibnames(c.st),
               opt |-> [i \in DOMAIN c.st.threads |-> Optimized(c.st.libs, c.st.threads[i].frames, c.max)]]
=============================================================================
