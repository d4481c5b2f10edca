------------------------------ MODULE MCGdbText ------------------------------
(* gdb writes a backtrace: the crash frame, and the threads frame by frame. *)
EXTENDS GdbText
CONSTANTS MaxThreads, MaxFrames, Names, Params0, Sites
VARIABLES text, crash, ths
vars == <<text, crash, ths>>
Vars == {"", "        x = 1\n"}
\* [shown, name, type]
F(n, x) == [NoFrame EXCEPT !.number = n, !.function_name = x.name, !.function_type = x.type, !.address = x.address, !.source_file = x.file, !.source_line = x.line]
SitesV == { [address |-> AllOnes, file |-> "a.c", line |-> "7"], [address |-> "0xc01", file |-> NULL, line |-> U32Max], [address |-> "0x7fffffffffff", file |-> "../x/y_z-1.2+3/lib.cc", line |-> "4294967294"], [address |-> "0xc02", file |-> "b.c", line |-> U32Max] }
Calls(n) == { F(n, [name |-> x[1], type |-> x[2], address |-> s.address, file |-> s.file, line |-> s.line]) : x \in Names, s \in Sites } \cup { [NoFrame EXCEPT !.number = n, !.signal_handler_called = TRUE] }
Init == \E c \in { <<>> } \cup { <<f>> : f \in { x \in Calls("0") : x.signal_handler_called \/ x.function_name = "raise" } } :
          /\ crash = c /\ ths = <<>>
          /\ text = "Core was generated by `x'.\n" \o (IF c = <<>> THEN "" ELSE ShowFrame(c[1], "")) \o "Missing separate debuginfos\n"
Thread == /\ Len(ths) < MaxThreads /\ (ths # <<>> => ths[Len(ths)].frames # <<>>)
          /\ \E d \in {U32Max, "77"} : LET th == [number |-> ToString(9 - Len(ths)), tid |-> d, frames |-> <<>>] IN ths' = Append(ths, th) /\ text' = text \o ShowHead(th)
          /\ UNCHANGED crash
Frame == /\ ths # <<>> /\ Len(ths[Len(ths)].frames) < MaxFrames
         /\ \E f \in Calls(ToString(Len(ths[Len(ths)].frames))), p \in Params0, v \in Vars :
              /\ ths' = [ths EXCEPT ![Len(ths)].frames = Append(@, f)]
              /\ text' = text \o ShowFrame(f, p) \o v
         /\ UNCHANGED crash
Next == Thread \/ Frame
Spec == Init /\ [][Next]_vars
Whole == ths # <<>> /\ ths[Len(ths)].frames # <<>>
Want == [how |-> "ok", crash |-> crash, threads |-> ths, libs |-> <<>>]
Back == Whole => Read(text) = Want
\* the libraries are found wherever they are listed
L0 == <<[from |-> "0xa000", to |-> "0xb000", symbols |-> 0, soname |-> "/lib64/libc.so.6"], [from |-> AllOnes, to |-> AllOnes, symbols |-> 1, soname |-> "x"]>>
Listed == Whole => \A t \in {Libraries!ShowLibs(L0) \o "\n" \o text, text \o Libraries!ShowLibs(L0) \o "\n"} : Read(t) = [Want EXCEPT !.libs = L0]
\* what follows the threads changes nothing before it
After0 == Whole => Read(text \o "\nThread x:\n#0  lost () at x.c:1\n") = Want
NamesV == {<<"raise", NULL>>, <<"construct<int>", "void">>, <<"operator<< <a>", "std::b<char, c>&">>, <<"(anonymous namespace)::f(int, <c>) const", NULL>>, <<"??", NULL>>}
ParamsV == {"", "a=1, s=0x1 \")\\\"\\\\\", c=34 '\"', d=41 ')', e=39 '\\'', f=...", "(x=<optimized out>, y=@0x1: {z = 0x2 <g(int)>})", "t=\"(((truncated)"}
NamesF == {<<"raise", NULL>>}
ParamsF == {"s=\"(\""}
SitesF == { [address |-> "0xc01", file |-> "a.c", line |-> "7"] }
=============================================================================
