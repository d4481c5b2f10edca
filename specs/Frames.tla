------------------------------- MODULE Frames -------------------------------
(* Frames of the seven stack trace types: identity (Cmp), similarity (Same),
   and comparison of threads and stack traces. *)
EXTENDS SatyrBase
MultiThreaded == {"core", "java", "gdb"}
FrameTypes == {"core", "python", "koops", "java", "gdb", "ruby", "js"}

RECURSIVE FirstNonZero(_)
FirstNonZero(s) == IF s = <<>> THEN 0 ELSE IF Head(s) # 0 THEN Head(s) ELSE FirstNonZero(Tail(s))
BoolCmp(a, b) == IF a = b THEN 0 ELSE IF a THEN 1 ELSE -1

(* Total order used to identify frames; zero means "the same frame". *)
CmpCore(a, b) == FirstNonZero(<<StrCmp0(a.build_id, b.build_id), U64Cmp(a.build_id_offset, b.build_id_offset), StrCmp0(a.function_name, b.function_name),
                                StrCmp0(a.file_name, b.file_name), StrCmp0(a.fingerprint, b.fingerprint)>>)
CmpGdb(a, b, num) == IF a.signal_handler_called \/ b.signal_handler_called
                     THEN BoolCmp(a.signal_handler_called, b.signal_handler_called)
                     ELSE FirstNonZero(<<StrCmp0(a.function_name, b.function_name), StrCmp0(a.function_type, b.function_type), StrCmp0(a.source_file, b.source_file),
                                         U32Cmp(a.source_line, b.source_line), StrCmp0(a.library_name, b.library_name), IF num THEN U32Cmp(a.number, b.number) ELSE 0>>)
CmpJava(a, b) == IF a.is_exception # b.is_exception THEN BoolCmp(a.is_exception, b.is_exception)
                 ELSE IF a.name # b.name \/ a.is_exception THEN StrCmp0(a.name, b.name)
                 ELSE FirstNonZero(<<StrCmp0(a.class_path, b.class_path), StrCmp0(a.file_name, b.file_name), BoolCmp(a.is_native, b.is_native), U32Cmp(a.file_line, b.file_line)>>)
CmpKoops(a, b) == FirstNonZero(<<U64Cmp(b.address, a.address), BoolCmp(b.reliable, a.reliable), StrCmp0(a.function_name, b.function_name),
                                 U64Cmp(b.function_offset, a.function_offset), U64Cmp(b.function_length, a.function_length), StrCmp0(a.module_name, b.module_name),
                                 U64Cmp(b.from_address, a.from_address), StrCmp0(a.from_function_name, b.from_function_name),
                                 U64Cmp(b.from_function_offset, a.from_function_offset), U64Cmp(b.from_function_length, a.from_function_length),
                                 StrCmp0(a.from_module_name, b.from_module_name), StrCmp0(a.special_stack, b.special_stack)>>)
CmpPython(a, b) == FirstNonZero(<<StrCmp0(a.function_name, b.function_name), StrCmp0(a.file_name, b.file_name), U32Cmp(a.file_line, b.file_line),
                                  BoolCmp(a.special_function, b.special_function), BoolCmp(a.special_file, b.special_file), StrCmp0(a.line_contents, b.line_contents)>>)
CmpRuby(a, b) == FirstNonZero(<<StrCmp0(a.function_name, b.function_name), StrCmp0(a.file_name, b.file_name), U32Cmp(a.file_line, b.file_line),
                                BoolCmp(a.special_function, b.special_function), U32Cmp(a.block_level, b.block_level), U32Cmp(a.rescue_level, b.rescue_level)>>)
CmpJs(a, b) == FirstNonZero(<<StrCmp0(a.function_name, b.function_name), StrCmp0(a.file_name, b.file_name), U32Cmp(a.file_line, b.file_line), U32Cmp(a.line_column, b.line_column)>>)
FrameCmp(t, a, b) == CASE t = "core" -> CmpCore(a, b) [] t = "gdb" -> CmpGdb(a, b, FALSE) [] t = "java" -> CmpJava(a, b) [] t = "koops" -> CmpKoops(a, b)
                       [] t = "python" -> CmpPython(a, b) [] t = "ruby" -> CmpRuby(a, b) [] OTHER -> CmpJs(a, b)
(* In a gdb thread the frame number matters as well. *)
ThreadFrameCmp(t, a, b) == IF t = "gdb" THEN CmpGdb(a, b, TRUE) ELSE FrameCmp(t, a, b)

(* Do two frames count as the same function for similarity measures? *)
Same(t, a, b) ==
  CASE t = "gdb" -> /\ a.function_name = b.function_name /\ a.function_name # "??"
                    /\ (a.library_name = NULL \/ b.library_name = NULL \/ a.library_name = b.library_name)
    [] t = "core" -> IF a.function_name # NULL /\ b.function_name # NULL THEN a.function_name = b.function_name
                     ELSE \/ a.build_id = b.build_id /\ a.build_id_offset = b.build_id_offset
                          \/ a.fingerprint # NULL /\ b.fingerprint # NULL /\ a.fingerprint = b.fingerprint
    [] t = "java" -> a.name = b.name
    [] t = "koops" -> a.function_name = b.function_name
    [] t = "python" -> a.function_name = b.function_name /\ a.file_name = b.file_name /\ a.special_function = b.special_function /\ a.special_file = b.special_file
    [] t = "ruby" -> a.function_name = b.function_name /\ a.file_name = b.file_name /\ a.special_function = b.special_function
    [] OTHER -> a.file_line = b.file_line /\ a.function_name = b.function_name /\ a.file_name = b.file_name

RECURSIVE SeqCmp(_, _, _)
(* frame by frame; a thread that is a prefix of the other sorts before it *)
SeqCmp(t, s1, s2) == IF s1 = <<>> /\ s2 = <<>> THEN 0 ELSE IF s2 = <<>> THEN 1 ELSE IF s1 = <<>> THEN -1
                     ELSE LET c == ThreadFrameCmp(t, s1[1], s2[1]) IN IF c # 0 THEN c ELSE SeqCmp(t, Tail(s1), Tail(s2))
ThreadCmp(t, x, y) == LET key == CASE t = "gdb" -> U32Cmp(x.number, y.number) [] t = "java" -> StrCmp0(x.name, y.name) [] OTHER -> 0
                      IN IF key # 0 THEN key ELSE SeqCmp(t, x.frames, y.frames)
RECURSIVE ThreadsCmp(_, _, _)
ThreadsCmp(t, x, y) == IF x = <<>> /\ y = <<>> THEN 0 ELSE IF y = <<>> THEN 1 ELSE IF x = <<>> THEN -1
                       ELSE LET c == ThreadCmp(t, x[1], y[1]) IN IF c # 0 THEN c ELSE ThreadsCmp(t, Tail(x), Tail(y))
=============================================================================
