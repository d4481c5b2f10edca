----------------------------- MODULE MCRubyText -----------------------------
(* A program calls deeper and deeper, then an exception is raised. *)
EXTENDS RubyText
CONSTANT MaxDepth
VARIABLE fs
Calls == { [NoFrame EXCEPT !.file_name = n, !.file_line = l, !.function_name = IF s /\ g # "main" THEN "class:X" ELSE g, !.special_function = s, !.block_level = b, !.rescue_level = r] :
             n \in {"/a b.rb:1", "x"}, l \in {"1", "4294967295"}, g \in {"<=>", "<", "main"}, s \in BOOLEAN, b \in {"0", "1", "3"}, r \in {"0", "2"} }
Init == fs \in { <<c>> : c \in Calls }
Call == \E c \in Calls : fs' = <<c>> \o fs
Next == Len(fs) < MaxDepth /\ Call
Spec == Init /\ [][Next]_fs
Want == [how |-> "ok", exception_name |-> "A::B", frames |-> fs]
Messages == {"bad", "a (b) c", "two\nlines\tand", ""}
\* what is read is what was written, whatever the message
Back == \A m \in Messages : Read(Show(fs, m, "A::B")) = Want
End == LET t == Show(fs, "m", "A::B") IN Read(Upto(t, Len(t) - 1)) = Want
\* anything but a further caller is refused
More == Read(Show(fs, "m", "A::B") \o "x") \in {Refused, [Refused EXCEPT !.how = "any"]}
Cut == LET t == Show(fs, "m", "A::B") IN Read(Upto(t, Len(t) - 2)).how # "ok"
=============================================================================
