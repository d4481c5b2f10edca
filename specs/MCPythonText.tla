---------------------------- MODULE MCPythonText ----------------------------
(* A program calls deeper and deeper, then an exception is raised. *)
EXTENDS PythonText
CONSTANT MaxDepth
VARIABLE fs
Calls == { [NoFrame EXCEPT !.file_name = n, !.special_file = s, !.file_line = l, !.function_name = g, !.special_function = p, !.line_contents = c] :
             n \in {"/a b.py", "x"}, s \in BOOLEAN, l \in {"1", "4294967295"}, g \in {"f", "module"}, p \in BOOLEAN, c \in {NULL, "g(x): ^", "  File \"y\""} }
         \cup { [NoFrame EXCEPT !.file_name = "s.py", !.file_line = "2", !.function_name = "syntax", !.special_function = TRUE, !.line_contents = c] : c \in {NULL, "x y"} }
Init == fs = <<>>
Call == \E c \in Calls : fs' = <<c>> \o fs
Next == Len(fs) < MaxDepth /\ Call
Spec == Init /\ [][Next]_fs
Excs == {"ValueError", "a.b: no"}
Name(e) == IF e = "a.b: no" THEN "a.b" ELSE e
Want(e) == IF fs = <<>> THEN Refused ELSE [how |-> "ok", exception_name |-> Name(e), frames |-> fs]
\* what is read is what was written, the last call first
Back == \A e \in Excs : Read(Show(fs, e)) = Want(e)
\* whatever precedes the header, and with no newline at the end
Around == \A e \in Excs : LET t == Show(fs, e) IN Read("x.py:1: y\n\n" \o Upto(t, Len(t) - 1)) = Want(e)
\* marks below the source lines change nothing
Marked == LET m(i) == LET f == fs[Len(fs) + 1 - i] IN ShowFrame(f) \o (IF f.line_contents = NULL THEN "" ELSE "    ~~^~\n")
          IN Read(Header \o Join([i \in 1..Len(fs) |-> m(i)]) \o "E\n") = Want("E")
=============================================================================
