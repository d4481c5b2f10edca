-------------------------------- MODULE MCBind --------------------------------
(* All short histories on a small heap: a stack trace with a thread of two
   frames, another thread and a frame; a report. *)
EXTENDS Bind
CONSTANTS Type, Depth, MaxObjects
VARIABLES heap, last, n
FrameNamed(x) == IF Type = "java" THEN [J!FrameDefault("java") EXCEPT !.name = x] ELSE [BlankFrame(Type) EXCEPT !.function_name = x]
Th(fs) == [number |-> "1", tid |-> U32Max, name |-> NULL, frames |-> fs]
Init == /\ heap = AddFrame(AddThread(IF Multi(Type) THEN AddSt(<<>>, [BlankSt(Type) EXCEPT !.threads = <<Th(<<FrameNamed("a"), FrameNamed("b")>>)>>])
                                     ELSE AddSt(<<>>, [BlankSt(Type) EXCEPT !.frames = <<FrameNamed("a"), FrameNamed("b")>>]), Type, Th(<<FrameNamed("c")>>)), Type, FrameNamed("d"))
        /\ last = [c |-> [op |-> "none"], before |-> <<>>, o |-> [r |-> "skip"]] /\ n = 0

\* commands name objects by their place here
Held == { i \in DOMAIN heap : heap[i].held }
Nth(i) == Cardinality({ j \in Held : j < i })
This(i) == [sel |-> "any", t |-> "", n |-> Nth(i)]
Lists0 == { i \in Held : heap[i].k \in {"thread", "st"} }
Edits == { [op |-> "edit", o |-> This(i), l |-> "kids", e |-> e, p |-> p, v |-> IF j = 0 THEN [sel |-> "none", t |-> "", n |-> 0] ELSE This(j)]
           : i \in Lists0, e \in {"insert", "assign"}, p \in 0..1, j \in Held \cup {0} }
         \cup { [op |-> "edit", o |-> This(i), l |-> "kids", e |-> e, p |-> 0, v |-> [sel |-> "none", t |-> "", n |-> 0]] : i \in Lists0, e \in {"pop", "reverse", "clear"} }
Val(s) == [t |-> "str", s |-> s, x |-> "0x0", d |-> "0", neg |-> FALSE, truth |-> TRUE]
NameAttr == IF Type = "java" THEN "name" ELSE "function_name"
Sets == { [op |-> "set", o |-> This(i), a |-> NameAttr, v |-> v] : i \in { x \in Held : heap[x].k = "frame" }, v \in {Val("n"), [Val("n") EXCEPT !.t = "none"]} }
Views == { [op |-> k, o |-> This(i), n |-> 2, prefix |-> "", nonorm |-> FALSE, compat |-> FALSE] : k \in {"dup", "duphash"} \cup (IF Type \in {"gdb", "koops"} THEN {"normalize"} ELSE {}), i \in Lists0 }
         \cup { [op |-> k, o |-> This(i), v |-> This(j), d |-> 0] : k \in {"equals", "distance"}, i \in { x \in Held : Framed(heap[x]) }, j \in { x \in Held : Framed(heap[x]) } }
Drops == { [op |-> "drop", o |-> This(i)] : i \in Held }
Usable(c) == c.op = "duphash" => Framed(heap[Pick(heap, c.o)])
Next == n < Depth /\ \E c \in Edits \cup Sets \cup Views \cup Drops :
   Usable(c) /\ LET y == Step(heap, c) IN (c.op = "normalize" => Cands(heap, c.o) # <<>> /\ heap[Pick(heap, c.o)].k = "st") /\ Len(y.s) <= MaxObjects
                             /\ heap' = y.s /\ last' = [c |-> c, before |-> heap, o |-> y.o] /\ n' = n + 1
Spec == Init /\ [][Next]_<<heap, last, n>>
-----------------------------------------------------------------------------
Op == last.c.op
Seen(i) == heap[i] = last.before[i] \/ (heap[i].t = "core" /\ [heap[i] EXCEPT !.a = 0] = [last.before[i] EXCEPT !.a = 0])
\* what is refused changes nothing
Refused == last.o.r \notin {"ok", "skip"} => heap = last.before
\* no method touches objects other than its own
Others == Op # "none" => \A i \in DOMAIN last.before : last.o.r = "skip" \/ i = last.o.ids[1] \/ heap[i] = last.before[i]
\* methods that look change nothing but what is remembered of the crash thread
Looks == Op \in {"duphash", "equals", "distance", "dup"} => \A i \in DOMAIN last.before : Seen(i)
\* a copy is like the original and made of new objects only
Copies == (Op = "dup" /\ last.o.r = "ok") => LET i == last.o.ids[1]  j == last.o.ids[2]
                                              IN /\ Below(heap, {j}, 3) \cap DOMAIN last.before = {}
                                                 /\ heap[j].held /\ Rec(heap, i) = Rec(heap, j)
\* everything equals itself, whichever way it is asked
Reflexive == (Op = "equals" /\ last.o.r = "ok" /\ last.o.ids[1] = last.o.ids[2]) => last.o.val = TRUE
Mutual == (Op = "equals" /\ last.o.r = "ok") => Equals(heap, last.o.ids[2], last.o.ids[1]).o.val = last.o.val
\* what a variable or a list refers to is there
Alive == \A i \in Live(heap) : \A j \in KidSet(heap, {i}) : j \in Live(heap)
\* only lists of frames of the right class, each once, are worked on
Judged == (Op \in {"duphash", "distance", "dup", "normalize"} /\ last.o.r = "ok" /\ last.before[last.o.ids[1]].k # "frame") =>
            LET i == last.o.ids[1] IN Bad(last.before, i) = "ok"
===============================================================================
