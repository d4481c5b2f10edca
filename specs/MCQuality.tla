------------------------------ MODULE MCQuality ------------------------------
(* Ratings are shares: between 0 and 1, 1 for understood threads, and they never
   drop when an unknown frame becomes understood. *)
EXTENDS Normalize
CONSTANT MaxLen
VARIABLE fs
G(n, s, h) == [function_name |-> n, function_type |-> NULL, number |-> "0", source_file |-> s, source_line |-> "1", signal_handler_called |-> h, address |-> "0x5", library_name |-> NULL]
Good == G("f", "f.c", FALSE)
Pool == {Good, G("g", "g.c", FALSE), G("??", NULL, FALSE), G("h", NULL, FALSE), G(NULL, NULL, TRUE)}
Init == fs = <<>>
Next == Len(fs) < MaxLen /\ \E f \in Pool : fs' = Append(fs, f)
Spec == Init /\ [][Next]_fs
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
St(x) == [type |-> "gdb", threads |-> <<[frames |-> x, number |-> "1", tid |-> U32Max]>>, libs |-> <<>>, crash |-> <<>>, crash_tid |-> U32Max]
Bounds == Le(<<0, 1>>, ThreadQ(fs)) /\ Le(ThreadQ(fs), <<1, 1>>) /\ Le(<<0, 1>>, ComplexQ(St(fs))) /\ Le(ComplexQ(St(fs)), <<1, 1>>)
Share == (\A i \in DOMAIN fs : GdbOk(fs[i])) => ThreadQ(fs)[1] = ThreadQ(fs)[2]
Monotone == \A i \in DOMAIN fs : Le(ThreadQ(fs), ThreadQ([fs EXCEPT ![i] = Good]))
=============================================================================
