------------------------------- MODULE MCLibs -------------------------------
(* Lists of libraries and modules with touching, overlapping and empty ranges. *)
EXTENDS Libs
CONSTANT MaxLen
VARIABLES libs, mods
vars == <<libs, mods>>
A == {"0x10", "0x1f", "0x20", "0x30"}
L == [from : A, to : A, symbols : {0, 1}, soname : {"/l/a.so.1"}] \cup {[from |-> AllOnes, to |-> AllOnes, symbols |-> 2, soname |-> "b"]}
M == [start : A, length : {"0x0", "0x1", "0x10"}, build_id : {"ab"}, file_name : {"/f"}, mod_name : {"m"}]
Init == libs = <<>> /\ mods = <<>>
Next == \/ Len(libs) < MaxLen /\ mods = <<>> /\ \E l \in L : libs' = Append(libs, l) /\ UNCHANGED mods
        \/ Len(mods) < MaxLen /\ libs = <<>> /\ \E m \in M : mods' = Append(mods, m) /\ UNCHANGED libs
Spec == Init /\ [][Next]_vars
ReadBack == ParseLibs("junk\n" \o ShowLibs(libs)) = libs /\ ParseUnstrip("junk\n" \o ShowMods(mods)) = mods
Addrs == A \cup {"0x0", "0xf", "0x21", AllOnes}
First == \A a \in Addrs : LET i == FindLib(libs, a) IN
            /\ i # 0 => U64Cmp(libs[i].from, a) <= 0 /\ U64Cmp(a, libs[i].to) <= 0 /\ \A j \in 1..(i - 1) : ~(U64Cmp(libs[j].from, a) <= 0 /\ U64Cmp(a, libs[j].to) <= 0)
            /\ i = 0 /\ a # AllOnes => \A j \in DOMAIN libs : ~(U64Cmp(libs[j].from, a) <= 0 /\ U64Cmp(a, libs[j].to) <= 0)
\* a module covers [start, start + length)
Half == \A a \in Addrs : \A m \in DOMAIN mods : (mods[m].length = "0x0" => ~Covers(mods[m], a)) /\ (mods[m].length = "0x1" => (Covers(mods[m], a) <=> a = mods[m].start))
=============================================================================
