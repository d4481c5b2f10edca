------------------------------- MODULE Compare -------------------------------
(* What comparison functions must satisfy: zero exactly for equal identities,
   antisymmetric and transitive, whatever direction each field is ordered in. *)
EXTENDS Frames
(* identity of a frame: the fields that take part in its comparison *)
Identity(t, f) ==
  CASE t = "core" -> <<f.build_id, f.build_id_offset, f.function_name, f.file_name, f.fingerprint>>
    [] t = "gdb" -> IF f.signal_handler_called THEN <<TRUE>> ELSE <<FALSE, f.function_name, f.function_type, f.source_file, f.source_line, f.library_name>>
    [] t = "java" -> IF f.is_exception THEN <<TRUE, f.name>> ELSE <<FALSE, f.name, f.class_path, f.file_name, f.is_native, f.file_line>>
    [] t = "koops" -> <<f.address, f.reliable, f.function_name, f.function_offset, f.function_length, f.module_name, f.from_address, f.from_function_name,
                        f.from_function_offset, f.from_function_length, f.from_module_name, f.special_stack>>
    [] t = "python" -> <<f.function_name, f.file_name, f.file_line, f.special_function, f.special_file, f.line_contents>>
    [] t = "ruby" -> <<f.function_name, f.file_name, f.file_line, f.special_function, f.block_level, f.rescue_level>>
    [] OTHER -> <<f.function_name, f.file_name, f.file_line, f.line_column>>
SameId(k, t, a, b) == CASE k = "frame" -> Identity(t, a) = Identity(t, b)
                        [] k = "number" -> Identity(t, a) = Identity(t, b) /\ (a.signal_handler_called \/ a.number = b.number)
                        [] k = "distance" -> Same(t, a, b)
                        [] k = "thread" -> ThreadCmp(t, a, b) = 0
                        [] OTHER -> ThreadsCmp(t, a.threads, b.threads) = 0
IsOrder(k) == k # "distance"
Bad(c) == { <<p, q, r>> \in (DOMAIN c.xs) \X (DOMAIN c.xs) \X (DOMAIN c.xs) :
            \/ r = 1 /\ (c.got[p][q] = 0) # SameId(c.kind, c.type, c.xs[p], c.xs[q])
            \/ r = 1 /\ IsOrder(c.kind) /\ c.got[p][q] # -c.got[q][p]
            \/ IsOrder(c.kind) /\ c.got[p][q] <= 0 /\ c.got[q][r] <= 0 /\ c.got[p][r] > 0 }
RunOrder(c) == LET b == Bad(c) IN IF b = {} THEN <<>> ELSE CHOOSE x \in b : TRUE
=============================================================================
