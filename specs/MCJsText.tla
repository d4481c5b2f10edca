------------------------------ MODULE MCJsText ------------------------------
EXTENDS JsText
CONSTANT MaxDepth
VARIABLE fs
Calls == { [file_name |-> n, file_line |-> l, line_column |-> c, function_name |-> g] : n \in {"/a b.js", "x", "(a:1) at", "y:3:4"}, l \in {"1", "4294967295"}, c \in {"0", "22"}, g \in {NULL, "f", "Object.<anonymous>"} }
Init == fs = <<>>
Call == \E c \in Calls : fs' = <<c>> \o fs
Next == Len(fs) < MaxDepth /\ Call
Spec == Init /\ [][Next]_fs
Want == [how |-> "ok", exception_name |-> "E", frames |-> fs]
\* what is read is what was written, whatever the message
Back == \A m \in {"x", "", "a: b\tat c:1:2", " "} : Read(Show("E", m, fs)) = Want
End == LET t == Show("E", "m", fs) IN fs # <<>> => Read(Upto(t, Len(t) - 1)) = Want /\ Read(Upto(t, Len(t) - 1) \o "  ") = Want
\* a frame that is none spoils the trace
Cut == \A f \in {"x", "    at ", "    at f", "    at f ()", "    at f (a:1)", "at :1:2", "    at f (a:1:4294967296)"} : Read(Show("E", "m", fs) \o f) = Refused
=============================================================================
