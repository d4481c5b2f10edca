------------------------------- MODULE MCDir -------------------------------
(* A problem directory is filled file by file; each file in one of a few forms. *)
EXTENDS ProblemDir
CONSTANTS MaxFiles, TypeText
VARIABLE f
Traces == [t \in {"core", "python", "koops", "js", "java", "ruby"} |-> <<[version |-> NULL, platform |-> "1"]>>]
File(t) == [dir |-> FALSE, text |-> t]
Dir == [dir |-> TRUE, text |-> ""]
Forms == [type |-> {File(TypeText)}, os_info |-> {File("ID=a\nVERSION_ID=1"), File("ID=a")}, os_release |-> {File("Fedora release 20"), Dir}, architecture |-> {File("x86_64"), Dir},
          count |-> {File("1"), File("x")}, package |-> {File("")}, pkg_epoch |-> {File("0"), File("(")}, executable |-> {File("/bin/x")}, dso_list |-> {File("/l a-1-1.x p 5"), Dir},
          backtrace |-> {File("")}, core_backtrace |-> {File("")}, kernel |-> {File("3")}, analyzer |-> {File("Node.js")}]
Init == f \in { ("pkg_name" :> File("a")) @@ ("pkg_version" :> File("1")) @@ ("pkg_release" :> File("1")) @@ ("pkg_arch" :> File("x")) @@ g : g \in {("type" :> File(TypeText)), ("type" :> File(TypeText)) @@ ("count" :> File("7")) @@ ("architecture" :> File("x"))} }
Next == Cardinality(DOMAIN f) < MaxFiles + 4 /\ \E n \in DOMAIN Forms \ DOMAIN f : \E t \in Forms[n] : f' = f @@ (n :> t)
Spec == Init /\ [][Next]_f
Ok == Complete(f, Traces)
Needs == Ok => /\ {"type", "architecture", "count"} \subseteq DOMAIN f /\ (There(f, "os_info") \/ There(f, "os_release"))
               /\ (There(f, "package") => There(f, "pkg_epoch"))
               /\ (Type(TypeText) # "invalid" => There(f, TraceFile(Type(TypeText))))
\* an affected package is reported exactly when the program is packaged
One == Ok => LET r == Report(f, Traces) IN Cardinality({ i \in DOMAIN r.packages : r.packages[i].role = "1" }) = (IF There(f, "package") THEN 1 ELSE 0)
Comp == Ok => LET r == Report(f, Traces) IN r.component_name # NULL <=> (~There(f, "package") /\ There(f, "executable"))
Src == Ok => Len(Report(f, Traces).stacktrace) = (IF Type(TypeText) = "invalid" THEN 0 ELSE 1)
\* optional files never make a complete directory incomplete
Optional == Ok => \A n \in {"executable", "analyzer", "kernel", "os_info"} \ DOMAIN f : \A t \in Forms[n] \cup {Dir} : Complete(f @@ (n :> t), Traces)
=============================================================================
