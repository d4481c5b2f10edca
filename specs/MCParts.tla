------------------------------ MODULE MCParts ------------------------------
(* All ways to split small matrices into parts and to compute the parts in any
   order, with one worker possibly using a wrong array of threads. *)
EXTENDS Parts
CONSTANTS MaxN, Extra
VARIABLES m, n, nparts, parts, merged
vars == <<m, n, nparts, parts, merged>>
\* cell values are symbolic here: the cell itself, tagged with the array used
Init == /\ n \in 2..MaxN /\ m \in 1..n /\ nparts \in 1..(Len(Cells(m, n)) + Extra)
        /\ parts = [p \in DOMAIN Create(m, n, nparts) |-> Fresh(Create(m, n, nparts)[p])] /\ merged = <<>>
Compute(p, a) == /\ merged = <<>> /\ parts[p].done = Unset
                 /\ parts' = [parts EXCEPT ![p].done = [v |-> [x \in DOMAIN PartCells(parts[p]) |-> <<a, PartCells(parts[p])[x]>>], sum |-> <<a>>]]
                 /\ UNCHANGED <<m, n, nparts, merged>>
DoMerge == merged = <<>> /\ merged' = <<Merge(parts)>> /\ UNCHANGED <<m, n, nparts, parts>>
Next == (\E p \in DOMAIN parts, a \in {0, 1} : (a = 1 => p = 2) /\ Compute(p, a)) \/ DoMerge
Spec == Init /\ [][Next]_vars
AllCells == { Cells(m, n)[x] : x \in DOMAIN Cells(m, n) }
Covers(p) == { PartCells(parts[p])[x] : x \in DOMAIN PartCells(parts[p]) }
ExactlyOnce == /\ UNION { Covers(p) : p \in DOMAIN parts } = AllCells
               /\ \A p, q \in DOMAIN parts : p # q => Covers(p) \cap Covers(q) = {}
               /\ \A p \in DOMAIN parts : Len(PartCells(parts[p])) = Cardinality(Covers(p)) /\ parts[p].len >= 1
BigIsCreate == CreateBig(m, n, nparts) = Create(m, n, nparts)
Balanced == /\ Len(parts) <= nparts /\ \A p, q \in DOMAIN parts : parts[p].len - parts[q].len \in {-1, 0, 1}
MergeRight == merged # <<>> =>
   IF \A p \in DOMAIN parts : parts[p].done # Unset /\ parts[p].done.sum = parts[1].done.sum
   THEN MergeOk(parts) /\ merged[1] = [i \in 1..Rows(m, n) |-> [j \in 1..(n - i) |-> <<parts[1].done.sum[1], <<i - 1, i + j - 1>>>>]]
   ELSE ~MergeOk(parts)
=============================================================================
