----------------------------- MODULE MCDistance -----------------------------
(* Every pair (and, for the triangle inequality, triple) of short threads. *)
EXTENDS Distance
CONSTANTS MaxLen, Names
Fr(n) == [function_name |-> n, library_name |-> NULL]
Threads == UNION { [1..n -> {Fr(f) : f \in Names}] : n \in 0..MaxLen }
VARIABLES x, y, z
Init == x \in Threads /\ y = <<>> /\ z = <<>>
Next == y = <<>> /\ z = <<>> /\ x' = x /\ y' \in Threads /\ z' \in Threads
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
Known(s) == \A i \in DOMAIN s : s[i].function_name # "??"
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
D(k, a, b) == Dist(k, "gdb", a, b)
Range01 == \A k \in 1..3 : LET d == D(k, x, y) IN d[1] >= 0 /\ Leq(d, <<1, 1>>)
Symmetric == \A k \in 1..3 : Eq(D(k, x, y), D(k, y, x))
Identity == Known(x) => \A k \in 1..3 : D(k, x, x)[1] = 0
Separation == \A k \in 2..3 : D(k, x, y)[1] = 0 => x = y
JaccardIsSets == (Known(x) /\ Known(y)) => LET sx == {x[i] : i \in DOMAIN x} sy == {y[i] : i \in DOMAIN y}
                    IN sx \cup sy # {} => Eq(D(1, x, y), <<Cardinality(sx \cup sy) - Cardinality(sx \cap sy), Cardinality(sx \cup sy)>>)
DamerauLeqLev == Leq(D(3, x, y), D(2, x, y))
Triangle == Edit("gdb", x, z, FALSE) <= Edit("gdb", x, y, FALSE) + Edit("gdb", y, z, FALSE)
\* the Jaro-Winkler formula leaves 0..1 only when frames repeat
JwRange == (Distinct(x) /\ Distinct(y)) => LET d == D(0, x, y) IN d[1] >= 0 /\ Leq(d, <<1, 1>>)
JwIdentity == (Known(x) /\ Distinct(x)) => Eq(D(0, x, x), <<1, 1>>)
=============================================================================
