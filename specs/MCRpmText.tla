----------------------------- MODULE MCRpmText -----------------------------
(* Text is typed one character at a time. *)
EXTENDS Rpm
CONSTANT MaxLen
VARIABLE t
Alphabet == {"a", "1", "-", ".", ":"}
Init == t = "a-1-"
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = t \o c
Spec == Init /\ [][Next]_t
\* what is read is what is written
Nvr == LET p == ParseNvr(t) IN p # <<>> => ShowNvr(p[1]) = t
Nevra == LET p == ParseNevra(t) IN (p # <<>> /\ ~HasSub(t, ":")) => ShowNevra(p[1]) = t
Back == LET p == ParseNevra(t) IN p # <<>> => ParseNevra(ShowNevra(p[1])) = p
Full == LET p == ParseNevra(t) IN p # <<>> => p[1].name # "" /\ p[1].version # "" /\ p[1].release # "" /\ p[1].architecture # ""
Agree == LET p == ParseNevra(t) IN p # <<>> => LET q == ParseNvr(t) IN q # <<>> /\ q[1].name = p[1].name /\ q[1].release = p[1].release \o "." \o p[1].architecture
=============================================================================
