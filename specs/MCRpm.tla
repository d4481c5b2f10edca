------------------------------- MODULE MCRpm -------------------------------
(* A list of package records grows by one record at a time. *)
EXTENDS Rpm
CONSTANT MaxLen
VARIABLE s
Pk(n, e, a, t, r) == [NoPkg EXCEPT !.name = n, !.version = "1", !.release = "1", !.epoch = e, !.architecture = a, !.install_time = t, !.role = r]
Records == { Pk(n, e, a, t, r) : n \in {"a"}, e \in {"0", "4294967295"}, a \in {NULL, "x", "y"}, t \in {"0x0", "0x5"}, r \in {"0"} } \cup { Pk("a", "0", NULL, "0x0", "1"), Pk("b", "0", "x", "0x0", "0") }
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E p \in Records : s' = Append(s, p)
Spec == Init /\ [][Next]_s
Count(q, p) == Cardinality({ i \in DOMAIN q : q[i] = p })
Id(p) == <<p.name, p.version, p.release, p.epoch>>
Ids(q) == { Id(q[i]) : i \in DOMAIN q }
Permutation == LET t == Sort(s) IN Len(t) = Len(s) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
Sorted == LET t == Sort(s) IN \A i \in 1..(Len(t) - 1) : NevraCmp(t[i], t[i + 1]) <= 0
\* nothing is lost or made up, and what is left cannot be merged further
Kept == LET u == Uniq(Sort(s)) IN /\ Ids(u) = Ids(s)
                                  /\ \A i \in 1..(Len(u) - 1) : ~Mergeable(u[i], u[i + 1])
                                  /\ \A i \in DOMAIN s : s[i].role = "1" => \E j \in DOMAIN u : u[j].role = "1" /\ Id(u[j]) = Id(s[i])
                                  /\ \A i \in DOMAIN s : s[i].architecture # NULL => \E j \in DOMAIN u : Id(u[j]) = Id(s[i]) /\ u[j].architecture = s[i].architecture
Again == LET u == Uniq(Sort(s)) IN Uniq(u) = u
\* every triple is a list of three
Order == Len(s) = 3 => /\ PkgCmp(s[1], s[2]) = -PkgCmp(s[2], s[1])
                       /\ (PkgCmp(s[1], s[2]) <= 0 /\ PkgCmp(s[2], s[3]) <= 0 => PkgCmp(s[1], s[3]) <= 0)
                       /\ (NevraCmp(s[1], s[2]) # 0 => PkgCmp(s[1], s[2]) = NevraCmp(s[1], s[2]))
=============================================================================