----------------------------- MODULE MCNormalize -----------------------------
(* Laws of normalization on all short threads over frames of every kind:
   ordinary, unknown, exit, removable, removable with everything above,
   prefixed, processor-specific. *)
EXTENDS Normalize
CONSTANTS Type, MaxLen
VARIABLE fs
G(n, s, a) == [function_name |-> n, function_type |-> NULL, number |-> "0", source_file |-> s, source_line |-> "1", signal_handler_called |-> FALSE, address |-> a, library_name |-> NULL]
C(n, s, a) == [function_name |-> n, address |-> a, build_id |-> NULL, build_id_offset |-> "0x0", file_name |-> s, fingerprint |-> NULL, fingerprint_hashed |-> TRUE]
Kinds == {<<"f", "f.c", "0x5">>, <<"g", NULL, "0x5">>, <<NULL, NULL, "0x0">>, <<"??", NULL, "0x0">>, <<"abort", "abort.c libc.so", "0x5">>, <<"__assert_fail", "assert.c", "0x5">>,
          <<"g_log", "gmessages.c", "0x5">>, <<"IA__g_log", "gmessages.c", "0x5">>, <<"__GI_abort", "abort.c", "0x5">>, <<"__strlen_sse2", "strlen.S", "0x5">>, <<"strlen", "/home/u/strlen.S", "0x5">>}
F(k) == IF Type = "gdb" THEN G(k[1], k[2], k[3]) ELSE C(k[1], k[2], k[3])
Init == fs = <<>>
Next == Len(fs) < MaxLen /\ \E k \in Kinds : fs' = Append(fs, F(k))
Spec == Init /\ [][Next]_fs
N == Norm(Type, fs)
Clean(f) == f.function_name # NULL => ~IsExit(Type, f) /\ ~In(Removable, f.function_name, Src(Type, f)) /\ ~In(RemovableWithAbove, f.function_name, Src(Type, f))
                                      /\ (~StartsWith(f.function_name, "__GI_") \/ Src(Type, f) = NULL)
NothingUseless == \A i \in DOMAIN N : Clean(N[i])
NoRepeats == \A i \in 1..(Len(N) - 1) : Mergeable(Type, Nm(N[i])) => Nm(N[i]) # Nm(N[i + 1])
Shrinks == Len(N) <= Len(fs)
\* what remains comes from below the last exit frame, in the original order
RECURSIVE Embeds(_, _)
Key(f) == <<IF f.function_name = NULL THEN NULL ELSE Nm(Rename(Type, StripFrame(Type, f))), IF Type = "core" THEN Anon(Src(Type, f)) ELSE Src(Type, f), f.address>>
Raw(f) == <<f.function_name, Src(Type, f), f.address>>
Embeds(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF Raw(a[1]) = Key(b[1]) THEN Embeds(Tail(a), Tail(b)) ELSE Embeds(a, Tail(b))
Subsequence == Embeds(N, Drop(fs, ExitIndex(Type, fs)))
=============================================================================
