------------------------------- MODULE MCLists -------------------------------
(* All editing histories on two small stack traces. *)
EXTENDS Lists
CONSTANTS Depth, MaxFrames, MaxThreads
VARIABLES heap, last, n
F(k) == [name |-> k]
T(fs) == [frames |-> fs]
Init == heap = [x \in {"A"} |-> [threads |-> <<T(<<F("a"), F("b"), F("a")>>), T(<<F("c")>>)>>]] /\ last = [op |-> "none"] /\ n = 0
On(h) == LET o == heap[h] IN
   { [op |-> "append", h |-> h, i |-> i, frame |-> F("n")] : i \in { i \in 1..Len(o.threads) : Len(Fr(o, i)) < MaxFrames } }
   \cup UNION { { [op |-> k, h |-> h, i |-> i, j |-> j, frame |-> F("m")] : j \in 1..Len(Fr(o, i)), k \in {"remove", "above", "set"} } : i \in 1..Len(o.threads) }
   \cup { [op |-> "below", h |-> h, i |-> i, n |-> k] : i \in 1..Len(o.threads), k \in 0..3 }
   \cup { [op |-> "limit", h |-> h, n |-> k] : k \in 1..2 } \cup { [op |-> "except", h |-> h, i |-> i] : i \in 1..Len(o.threads) }
   \cup { [op |-> "dup", h |-> h, to |-> "B"] : x \in {0} \ {k : k \in {0} \cap (IF "B" \in DOMAIN heap THEN {0} ELSE {})} }
   \cup { [op |-> "addThread", h |-> h, i |-> i, to |-> t, sib |-> b] : i \in 1..Len(o.threads), t \in { t \in DOMAIN heap : Len(heap[t].threads) < MaxThreads }, b \in {FALSE} }
   \cup { [op |-> "free", h |-> h] : x \in (IF Cardinality(DOMAIN heap) > 1 THEN {0} ELSE {}) }
Cmds == UNION { On(h) : h \in DOMAIN heap }
Next == n < Depth /\ \E c \in Cmds : heap' = Step(heap, c).heap /\ last' = [op |-> c.op, c |-> c, before |-> heap] /\ n' = n + 1
Spec == Init /\ [][Next]_<<heap, last, n>>
Target(c) == IF c.op \in {"dup", "addThread"} THEN c.to ELSE c.h
\* a command touches nothing but its target
Frame == last.op # "none" => \A h \in DOMAIN last.before : h # Target(last.c) => h \in DOMAIN heap /\ heap[h] = last.before[h]
CopyEqual == last.op = "dup" => heap["B"] = heap[last.c.h]
Bounds == \A h \in DOMAIN heap : \A i \in DOMAIN heap[h].threads : Len(heap[h].threads[i].frames) <= MaxFrames
RemoveOne == last.op = "remove" => Len(Fr(heap[last.c.h], last.c.i)) = Len(Fr(last.before[last.c.h], last.c.i)) - 1
AboveKeepsTail == last.op = "above" => Fr(heap[last.c.h], last.c.i) = Drop(Fr(last.before[last.c.h], last.c.i), last.c.j - 1)
=============================================================================
