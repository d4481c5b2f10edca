-------------------------------- MODULE MCOs --------------------------------
(* An os-release file is written line by line, in any order. *)
EXTENDS Os
CONSTANT MaxLines
VARIABLE ls
Ls == {"ID=f", "ID=\"g\"", "VERSION_ID=1", "VERSION_ID='2'", "VERSION=\"3 (Rawhide)\"", "VERSION=4", "CPE_NAME=c", "#ID=x", "ID", "=ID=x", "", "VARIANT_ID=\\\"w", "XID=y"}
Init == ls = <<>>
Next == Len(ls) < MaxLines /\ \E l \in Ls : ls' = Append(ls, l)
Spec == Init /\ [][Next]_ls
RECURSIVE JoinLines(_)
JoinLines(s) == IF s = <<>> THEN "" ELSE Head(s) \o "\n" \o JoinLines(Tail(s))
O == OsRelease(JoinLines(ls))
In(S) == \E i \in DOMAIN ls : ls[i] \in S
\* a missing last newline makes no difference
Newline == LET t == JoinLines(ls) IN t = "" \/ OsRelease(Upto(t, Len(t) - 1)) = OsRelease(t)
Names == (O.name # NULL <=> In({"ID=f", "ID=\"g\""})) /\ (O.name # NULL => O.name \in {"f", "g"})
Rawhide == In({"VERSION=\"3 (Rawhide)\""}) <=> O.version = "rawhide"
Versions == (O.version # NULL <=> In({"VERSION_ID=1", "VERSION_ID='2'", "VERSION=\"3 (Rawhide)\""}))
First == LET idx == { i \in DOMAIN ls : ls[i] \in {"VERSION_ID=1", "VERSION_ID='2'"} }
         IN (O.version \notin {NULL, "rawhide"}) => LET m == CHOOSE i \in idx : \A j \in idx : i <= j IN O.version = (IF ls[m] = "VERSION_ID=1" THEN "1" ELSE "2")
Noise == OsRelease(JoinLines(SelectSeq(ls, LAMBDA l : l \notin {"#ID=x", "ID", "=ID=x", "", "XID=y", "VERSION=4"}))) = O
Quotes == O.variant \in {NULL, "\"w"}
=============================================================================
