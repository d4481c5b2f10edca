----------------------------- MODULE MCJavaText -----------------------------
(* A trace is built step by step: method calls and causes are added. *)
EXTENDS JavaText
CONSTANT MaxSize
VARIABLES name, es         \* the exceptions, outermost first: the exception itself, then its frames
Excs == { [NoFrame EXCEPT !.name = n, !.is_exception = TRUE, !.message = m] : n \in {"E", "a.b.F"}, m \in {NULL, "x: y", "at z(q)", "Caused by: g"} }
Calls == { [NoFrame EXCEPT !.name = n, !.is_native = k = 1, !.file_name = IF k = 3 THEN "F.java" ELSE NULL, !.file_line = IF k = 3 THEN l ELSE "0", !.class_path = p] :
             n \in {"at.b", "f"}, k \in 1..3, l \in {"0", "7"}, p \in {NULL, "/a/b.jar"} }
Size == FoldLeft(LAMBDA n, e : n + Len(e), 0, es)
Init == name \in {<<>>, <<"main">>} /\ es \in { <<<<e>>>> : e \in Excs }
AddCall == \E f \in Calls : es' = [es EXCEPT ![Len(es)] = Append(@, f)]
AddCause == \E e \in Excs : es' = Append(es, <<e>>)
Next == Size < MaxSize /\ (AddCall \/ AddCause) /\ UNCHANGED name
Spec == Init /\ [][Next]_<<name, es>>
Want == [how |-> "ok", name |-> name, frames |-> FlattenSeq(Reverse(es))]
Text == Show(name, es)
\* what is read is what was written, innermost exception first
Back == Read(Text) = Want
\* with or without the last newline, and whatever blank lines follow
End == LET t == Text IN Read(Upto(t, Len(t) - 1)) = Want /\ Read(t \o "\n \n\t") = Want
\* suppressed exceptions are left out wherever they are
Suppressed == LET t == Text  s == "\tSuppressed: E: a\n\t\tat f(F.java:1)\n\t\t... 3 more\n\tCaused by: G\n\t\tat g(G.java)\n"
              IN \A i \in 1..Len(t) : (Ch(t, i) = "\n" /\ (i = Len(t) \/ StartsAt(t, i + 1, Cause))) => Read(Upto(t, i) \o s \o From(t, i + 1)) = Want
Order == LET r == Read(Text) IN r.frames[1].name = es[Len(es)][1].name
=============================================================================
