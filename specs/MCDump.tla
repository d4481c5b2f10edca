-------------------------------- MODULE MCDump --------------------------------
(* Following every small stack, sound or damaged, one frame at a time. *)
EXTENDS Dump
CONSTANTS Cells, Rets
VARIABLES mem, regs0, regs, own, acc, done
vars == <<mem, regs0, regs, own, acc, done>>
Three == 3
F(a, b, n) == [from |-> a, to |-> b, name |-> n]
Mods == << [from |-> "0x1000", to |-> "0x1010", file |-> "/a", build |-> "aa", funcs |-> <<F("0x1000", "0x1008", "f"), F("0x1008", "0x1010", "g")>>],
           [from |-> "0x1010", to |-> "0x1020", file |-> "/b", build |-> NULL, funcs |-> <<F("0x1010", "0x1018", Main0), F("0x1018", "0x101f", "h")>>] >>
RetsQ == {"0x0", "0x1008", "0x1010", "0x1011", "0x1018"}
RetsT == RetsQ \cup {"0x1000", "0x1009", "0x1020"}
CellsQ == {"0x100", "0x110"}
CellsT == {"0x100", "0x110", "0x130"}
World == [mods |-> Mods, mem |-> mem]
Init == /\ mem \in [Cells -> [prev : Cells \cup {"0x0", "0x108"}, ret : Rets]]
        /\ regs \in [pc : Rets, sp : {"0x90", "0x108"}, bp : {"0x100", "0x0"}]
        /\ regs0 = regs /\ own = TRUE /\ acc = <<>> /\ done = FALSE
Cur == FrameAt(Mods, regs.pc, own)
Next == /\ ~done /\ UNCHANGED <<mem, regs0>>
        /\ IF Cur.function_name = Main0 THEN done' = TRUE /\ UNCHANGED <<regs, own, acc>>
           ELSE /\ acc' = Append(acc, Cur)
                /\ IF CanStep(mem, regs) THEN regs' = Step(mem, regs) /\ own' = FALSE /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED <<regs, own>>
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the stack is left behind, so that following it ends
Climbs == [][regs' = regs \/ LT(regs.sp, regs'.sp)]_vars
Ends == Len(acc) <= Cardinality(Cells) + 1
\* step by step or all at once
Agree == done => acc = Walk(World, regs0, TRUE, <<>>)
\* a function is reported for the crash inside it and for calls inside it
Inside == \A k \in DOMAIN acc : LET f == acc[k] IN
            /\ f.function_name # NULL => \E m \in DOMAIN Mods : \E i \in DOMAIN Mods[m].funcs : LET g == Mods[m].funcs[i] IN
                 /\ g.name = f.function_name /\ f.file_name = Mods[m].file
                 /\ IF k = 1 THEN LE(g.from, f.address) /\ LT(f.address, g.to) ELSE LT(g.from, f.address) /\ LE(f.address, g.to)
            /\ f.file_name # NULL => \E m \in DOMAIN Mods : f.file_name = Mods[m].file /\ f.build_id = Mods[m].build /\ U64Add(Mods[m].from, f.build_id_offset) = f.address
            /\ f.file_name = NULL => f.function_name = NULL /\ f.build_id_offset = f.address
NoMain == \A k \in DOMAIN acc : acc[k].function_name # Main0
Limit == Len(Oldest(acc)) = Min2(3, Len(acc)) /\ \A k \in DOMAIN Oldest(acc) : Oldest(acc)[k] = acc[Len(acc) - Len(Oldest(acc)) + k]
=============================================================================
