-------------------------------- MODULE Dump --------------------------------
(* Core dumps: what a dump holds (modules, the stack, threads with their
   registers and signals), how the stack of a thread is followed, and the core
   stack trace that is made of it - from the dump alone, from gdb's backtrace
   and the dump, or from gdb's backtrace and a listing of modules. *)
EXTENDS Libs
Gdb == INSTANCE GdbText
MaxFrames == 256
Main0 == "__libc_start_main"
U64Pred(a) == U64Sub(a, "0x1")
LE(a, b) == U64Cmp(a, b) <= 0
LT(a, b) == U64Cmp(a, b) < 0
FirstOf(s) == IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j

(* ---- what an address belongs to *)
Within(r, a) == LE(r.from, a) /\ LT(a, r.to)
ModOf(mods, a) == FirstOf({ i \in DOMAIN mods : Within(mods[i], a) })
FuncOf(m, a) == LET f == FirstOf({ i \in DOMAIN m.funcs : Within(m.funcs[i], a) }) IN IF f = 0 THEN NULL ELSE m.funcs[f].name
Frame0(ip) == [address |-> ip, build_id |-> NULL, build_id_offset |-> ip, function_name |-> NULL, file_name |-> NULL, fingerprint |-> NULL, fingerprint_hashed |-> TRUE]
(* A return address belongs to the call before it, which may be the last
   instruction of a function or of a module; the address itself is reported. *)
FrameAt(mods, ip, own) ==
  LET a == IF own THEN ip ELSE U64Pred(ip)  m == ModOf(mods, a)
  IN IF m = 0 THEN Frame0(ip)
     ELSE [Frame0(ip) EXCEPT !.build_id = mods[m].build, !.build_id_offset = U64Sub(ip, mods[m].from), !.file_name = mods[m].file, !.function_name = FuncOf(mods[m], a)]

(* ---- following the stack: registers [pc, sp, bp]; mem maps the
   address of a cell of the stack to the caller's bp and the address to return to *)
Above(a) == U64Add(a, "0x10")
CanStep(mem, r) == r.bp # "0x0" /\ r.bp \in DOMAIN mem /\ LT(r.sp, Above(r.bp))
Step(mem, r) == LET c == mem[r.bp] IN [pc |-> c.ret, sp |-> Above(r.bp), bp |-> c.prev]
RECURSIVE Walk(_, _, _, _)
Walk(d, r, own, acc) ==
  LET f == FrameAt(d.mods, r.pc, own)
  IN IF f.function_name = Main0 THEN acc
     ELSE IF CanStep(d.mem, r) THEN Walk(d, Step(d.mem, r), FALSE, Append(acc, f)) ELSE Append(acc, f)
(* Whether following the stack comes to the start of the program. *)
RECURSIVE Whole(_, _, _)
Whole(d, r, own) == FrameAt(d.mods, r.pc, own).function_name = Main0 \/ (CanStep(d.mem, r) /\ Whole(d, Step(d.mem, r), FALSE))
Oldest(fs) == Drop(fs, Max2(0, Len(fs) - MaxFrames))
ThreadFrames(d, t) == Oldest(Walk(d, [pc |-> t.pc, sp |-> t.sp, bp |-> t.bp], TRUE, <<>>))
Signal(d) == LET i == FirstOf({ k \in DOMAIN d.threads : d.threads[k].sig # "0" }) IN IF i = 0 THEN "0" ELSE d.threads[i].sig
CoreSt(sig, exe, ths, crash) == [type |-> "core", signal |-> sig, executable |-> exe, only_crash_thread |-> FALSE, threads |-> [i \in DOMAIN ths |-> [frames |-> ths[i]]], crash_thread |-> crash]
FromDump(d) == CoreSt(Signal(d), d.exe, [i \in DOMAIN d.threads |-> ThreadFrames(d, d.threads[i])], IF d.threads = <<>> THEN -1 ELSE 0)
(* A process that is looked at while it dies: its one thread; a stack that
   cannot be followed to the start of the program may be refused. *)
FromHook(d) == LET t == d.threads[1] IN
  IF ~Whole(d, [pc |-> t.pc, sp |-> t.sp, bp |-> t.bp], TRUE) THEN [how |-> "any"]
  ELSE [how |-> "ok", st |-> [FromDump(d) EXCEPT !.only_crash_thread = TRUE]]

(* ---- gdb's frames, addresses looked up in the dump *)
GdbSt(g) == [type |-> "gdb", threads |-> g.threads, crash |-> g.crash, libs |-> g.libs, crash_tid |-> U32Max]
Real(fs) == SelectSeq(fs, LAMBDA f : ~f.signal_handler_called)
FromGdb(d, g) ==
  LET ths == [i \in DOMAIN g.threads |-> MapS(Oldest(Real(g.threads[i].frames)), LAMBDA f : FrameAt(d.mods, f.address, TRUE))]
  IN CoreSt(Signal(d), d.real, ths, GdbCrash(GdbSt(g)) - 1)

(* ---- gdb's frames, addresses looked up in the listing of modules *)
Create(g, es, exe) ==
  LET one(f) == LET m == FindMod(es, f.address)  n == IF f.function_name = "??" THEN NULL ELSE f.function_name
                IN IF m = 0 THEN [Frame0(f.address) EXCEPT !.build_id_offset = AllOnes, !.function_name = n]
                   ELSE [Frame0(f.address) EXCEPT !.build_id = es[m].build_id, !.build_id_offset = U64Sub(f.address, es[m].start), !.file_name = es[m].file_name, !.function_name = n]
  IN CoreSt("0", exe, [i \in DOMAIN g.threads |-> MapS(g.threads[i].frames, one)], -1)

RunDump(c) == FromDump(c)
RunHook(c) == FromHook(c)
RunFromGdb(c) == LET g == IF c.given = <<>> THEN Gdb!Read(c.text) ELSE c.given[1] IN    \* given: what is in a text too long to be read here
                 IF g.how # "ok" THEN [how |-> g.how] ELSE [how |-> "ok", st |-> FromGdb(c, g)]
RunCreate(c) == LET g == Gdb!Read(c.text)  es == ParseUnstrip(c.unstrip)
                IN IF g.how = "any" THEN [how |-> "any"] ELSE IF g.how = "bad" \/ es = <<>> THEN [how |-> "bad"] ELSE [how |-> "ok", st |-> Create(g, es, c.exe)]
=============================================================================
