------------------------------- MODULE MCShow -------------------------------
(* Laws of the texts shown to people, on short gdb threads. *)
EXTENDS Render
CONSTANT MaxLen
VARIABLE fs
G(n, l) == [function_name |-> n, function_type |-> NULL, number |-> "0", source_file |-> "f.c", source_line |-> "1", signal_handler_called |-> n = NULL, address |-> "0x5", library_name |-> l]
Pool == {G("f", NULL), G("main", NULL), G(NULL, NULL), G("g", "l.so"), G("??", NULL), G("abort", NULL)}
Init == fs = <<>>
Next == Len(fs) < MaxLen /\ \E f \in Pool : fs' = Append(fs, f)
Spec == Init /\ [][Next]_fs
St == [type |-> "gdb", threads |-> <<[frames |-> fs, number |-> "1", tid |-> U32Max]>>, libs |-> <<>>, crash |-> <<>>, crash_tid |-> U32Max]
\* one heading and one line per frame, never more than asked for
Counted == \A n \in 1..MaxLen : LET ls == Lines(ShortText(St, n)) IN Len(ls) <= n + 1 /\ ls = Take(Lines(ShortText(St, n)), Len(ls))
                                /\ Drop(ls, 1) = Take(Drop(Lines(ShortText(St, 0)), 1), Len(ls) - 1)
\* a list of functions reads back as the named frames
ReadBack == LET p == ParseFuns(Funs("gdb", fs))  named == SelectSeq(fs, LAMBDA f : f.function_name # NULL)
            IN Len(p) = Len(named) /\ \A i \in DOMAIN p : p[i].function_name = named[i].function_name /\ p[i].library_name = named[i].library_name
Dec == HexToDec("0xffffffffffffffff") = "18446744073709551615" /\ HexToDec("0x0") = "0" /\ HexToDec("0x100000000") = "4294967296" /\ HexToDec("0x3e8") = "1000"
=============================================================================
