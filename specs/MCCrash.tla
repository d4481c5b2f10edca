------------------------------- MODULE MCCrash -------------------------------
(* Search for the crash thread over all small gdb stack traces. *)
EXTENDS Normalize
CONSTANT MaxThreads
VARIABLE st
G(n, s) == [function_name |-> n, function_type |-> NULL, number |-> "0", source_file |-> s, source_line |-> "1", signal_handler_called |-> FALSE, address |-> "0x5", library_name |-> NULL]
Bodies == { <<>>, <<G("f", "a.c")>>, <<G("f", "a.c"), G("abort", "abort.c")>>, <<G("raise", "raise.c"), G("f", "a.c")>>, <<G("g", NULL), G("f", "a.c")>> }
Thr == [frames : Bodies, tid : {"1", "2", U32Max}, number : {"1"}]
Init == \E n \in 0..MaxThreads : \E ths \in [1..n -> Thr] : \E ct \in {"1", "2", U32Max} : \E cf \in {"f", "raise", NULL} :
          st = [type |-> "gdb", crash_tid |-> ct, crash |-> IF cf = NULL THEN <<>> ELSE <<G(cf, "x.c")>>, threads |-> ths, libs |-> <<>>]
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
C == GdbCrash(st)
\* normalizing does not lose a crash thread that has a thread id of its own
Kept == C # 0 /\ (\A i \in DOMAIN st.threads : st.threads[i].tid # U32Max /\ (i # C => st.threads[i].tid # st.threads[C].tid))
        => GdbCrash(NormSt(st)) = C
Deterministic == (Len(st.threads) = 1 => C = 1) /\ (C = 0 => Len(st.threads) # 1)
\* the order of the threads does not matter (up to equal threads)
Swap(s) == [s EXCEPT !.threads = [i \in DOMAIN s.threads |-> s.threads[Len(s.threads) + 1 - i]]]
Distinct == \A i, j \in DOMAIN st.threads : i # j => st.threads[i].tid # st.threads[j].tid
OrderFree == Distinct => LET d == GdbCrash(Swap(st)) IN (C = 0) = (d = 0) /\ (C # 0 => SeqCmp("gdb", st.threads[C].frames, Swap(st).threads[d].frames) = 0)
=============================================================================
