------------------------------ MODULE MCRender ------------------------------
(* Laws of the texts behind the hashes, on all short threads of one type over
   a few frames that differ in one field each. *)
EXTENDS Render
CONSTANTS Type, MaxLen
VARIABLE fs
K == [address |-> "0x10", reliable |-> TRUE, function_name |-> "f", function_offset |-> "0x1", function_length |-> "0x2", module_name |-> NULL, from_address |-> "0x0",
      from_function_name |-> NULL, from_function_offset |-> "0x0", from_function_length |-> "0x0", from_module_name |-> NULL, special_stack |-> NULL]
G == [function_name |-> "f", function_type |-> NULL, number |-> "0", source_file |-> "f.c", source_line |-> "1", signal_handler_called |-> FALSE, address |-> "0x5", library_name |-> NULL]
C == [function_name |-> "f", address |-> "0x5", build_id |-> "b", build_id_offset |-> "0x5", file_name |-> "f.c", fingerprint |-> NULL, fingerprint_hashed |-> TRUE]
J == [name |-> "f", file_name |-> "F.java", file_line |-> "1", class_path |-> NULL, is_native |-> FALSE, is_exception |-> FALSE, message |-> NULL]
P == [special_file |-> FALSE, file_name |-> "f.py", file_line |-> "1", special_function |-> FALSE, function_name |-> "f", line_contents |-> "x"]
Pool == CASE Type = "koops" -> {K, [K EXCEPT !.reliable = FALSE], [K EXCEPT !.function_name = NULL], [K EXCEPT !.function_name = "g", !.module_name = "m"], [K EXCEPT !.function_name = "do_softirq"]}
          [] Type = "gdb" -> {G, [G EXCEPT !.function_name = "g", !.library_name = "l"], [G EXCEPT !.function_name = NULL, !.signal_handler_called = TRUE], [G EXCEPT !.function_name = "abort", !.source_file = "abort.c"], [G EXCEPT !.function_name = "??"]}
          [] Type = "core" -> {C, [C EXCEPT !.build_id = NULL], [C EXCEPT !.build_id = NULL, !.function_name = NULL], [C EXCEPT !.build_id = NULL, !.function_name = NULL, !.fingerprint = "p"], [C EXCEPT !.build_id_offset = "0x6", !.function_name = "g"]}
          [] Type = "java" -> {J, [J EXCEPT !.name = NULL], [J EXCEPT !.name = NULL, !.class_path = "c"], [J EXCEPT !.is_exception = TRUE, !.name = "e", !.message = "m"]}
          [] OTHER -> {P, [P EXCEPT !.file_line = "2"], [P EXCEPT !.file_name = NULL], [P EXCEPT !.special_function = TRUE]}
Init == fs = <<>>
Next == Len(fs) < MaxLen /\ \E f \in Pool : fs' = Append(fs, f)
Spec == Init /\ [][Next]_fs
D(s, n, nn, cc) == DupText(Type, s, n, "pre", nn, cc)
\* more frames only extend the text, and 0 means all of them
Extends == \A nn, cc \in BOOLEAN : \A n \in 1..MaxLen : StartsWith(D(fs, n + 1, nn, cc), D(fs, n, nn, cc)) /\ StartsWith(D(fs, 0, nn, cc), D(fs, n, nn, cc))
Unlimited == \A nn, cc \in BOOLEAN : D(fs, 0, nn, cc) = D(fs, MaxLen + 1, nn, cc)
\* what lies below the counted frames does not matter
Deep == \A n \in 1..Len(fs) : \A g \in Pool : (\A i \in 1..n : DupFrame(Type, fs[i], FALSE) # "") => D(fs, n, TRUE, FALSE) = D(Append(fs, g), n, TRUE, FALSE)
\* hashing the normalized thread as it is equals hashing the thread
NormFirst == D(fs, 0, FALSE, FALSE) = D(Norm(Type, fs), 0, TRUE, FALSE)
\* the backtrace text tells apart threads that differ in what it lists
Bt(s) == ConcatAll([i \in DOMAIN s |-> BtFrame(Type, s[i])])
Tells == \A i \in DOMAIN fs : \A g \in Pool : (Bt([fs EXCEPT ![i] = g]) = Bt(fs)) => BtFrame(Type, g) = BtFrame(Type, fs[i])
=============================================================================
