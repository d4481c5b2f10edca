------------------------------ MODULE MCCompare ------------------------------
(* The comparison relations of the specification are total orders with the
   stated identities, on all frames over small value sets. *)
EXTENDS Compare
CONSTANT Type
VARIABLE t3
S == {NULL, "a"}
N == {"0x0", "0x100000000"}
L == {"1", "4294967295"}
Fs == CASE Type = "core" -> [build_id : S, build_id_offset : N, function_name : S, file_name : S, fingerprint : {NULL}]
        [] Type = "gdb" -> [function_name : {"??", "a"}, function_type : {NULL}, source_file : S, source_line : L, library_name : S, signal_handler_called : BOOLEAN, number : {"1"}]
        [] Type = "java" -> [name : S, class_path : {NULL}, file_name : S, file_line : L, is_native : BOOLEAN, is_exception : BOOLEAN]
        [] Type = "python" -> [function_name : S, file_name : S, file_line : {"1"}, special_function : BOOLEAN, special_file : BOOLEAN, line_contents : {NULL}]
        [] Type = "ruby" -> [function_name : S, file_name : {NULL}, file_line : L, special_function : BOOLEAN, block_level : L, rescue_level : {"1"}]
        [] OTHER -> [function_name : S, file_name : S, file_line : L, line_column : L]
Init == t3 \in Fs \X Fs \X {<<>>}
Next == t3[3] = <<>> /\ \E z \in Fs : t3' = <<t3[1], t3[2], z>>
Spec == Init /\ [][Next]_t3
C(a, b) == FrameCmp(Type, a, b)
ZeroIffIdentity == (C(t3[1], t3[2]) = 0) <=> Identity(Type, t3[1]) = Identity(Type, t3[2])
Antisymmetric == C(t3[1], t3[2]) = -C(t3[2], t3[1])
Transitive == t3[3] # <<>> => (C(t3[1], t3[2]) <= 0 /\ C(t3[2], t3[3]) <= 0 => C(t3[1], t3[3]) <= 0)
SameReflexiveEnough == Identity(Type, t3[1]) = Identity(Type, t3[2]) /\ Same(Type, t3[1], t3[1]) => Same(Type, t3[1], t3[2]) \/ Type = "gdb"
=============================================================================
