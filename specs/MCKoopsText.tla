---------------------------- MODULE MCKoopsText ----------------------------
(* The kernel logs an oops line by line. *)
EXTENDS KoopsText
CONSTANT MaxLines
VARIABLES ls, fs, alt, ip, mods
vars == <<ls, fs, alt, ip, mods>>
Calls == { [NoFrame EXCEPT !.address = "0xc01", !.reliable = q, !.function_name = n, !.function_offset = "0x5", !.function_length = "0x10", !.module_name = m] : q \in BOOLEAN, n \in {"do_it", "f.part.8"}, m \in {NULL, "wl"} }
         \cup { [NoFrame EXCEPT !.address = "0xffffffffc0000001", !.reliable = TRUE, !.function_name = "g", !.function_length = "0xffffffffffffffff", !.from_address = "0xc02", !.from_function_name = "h", !.from_function_offset = "0x1", !.from_function_length = "0x2", !.from_module_name = "b"] }
Noise == {"Call Trace:", "", "CPU: 1 Not tainted", "Code: 00 <8b> 45", "[<c01>]", "RSP: 0018:ffff", "irq event stamp: 3"}
Stamp == "[    1.234567] "
Init == ls = <<"BUG: unable">> /\ fs = <<>> /\ alt = NULL /\ ip = FALSE /\ mods = <<>>
Add(l) == ls' = Append(ls, l)
Say == \E n \in Noise : Add(n) /\ UNCHANGED <<fs, alt, ip, mods>>
Call == \E f \in Calls : Add(" " \o ShowFrame(f)) /\ fs' = Append(fs, [f EXCEPT !.special_stack = alt]) /\ UNCHANGED <<alt, ip, mods>>
Irq == \E n \in {"IRQ", "NMI"} : Add(" <" \o n \o "> ") /\ alt' = n /\ UNCHANGED <<fs, ip, mods>>
Eoi == \E l \in {" <EOI>", " <<EOE>> "} : Add(l) /\ alt' = NULL /\ UNCHANGED <<fs, ip, mods>>
Rip == \E f \in Calls : ~ip /\ f.from_address = "0x0" /\ Add("RIP: 0010:[<c01>]  " \o ShowFrame(f)) /\ fs' = <<f>> \o fs /\ ip' = TRUE /\ UNCHANGED <<alt, mods>>
Eip == \E f \in Calls : ~ip /\ f.from_address = "0x0" /\ Add("EIP: " \o ShowFrame(f) \o " SS:ESP 0068:f180dbf8") /\ fs' = <<f>> \o fs /\ ip' = TRUE /\ UNCHANGED <<alt, mods>>
\* a list of modules ends with the last one unloaded, or before a line that tells the processor
Mods == mods = <<>> /\ Add("Modules linked in: a b(O) [last unloaded: c]") /\ mods' = << <<"a", "b(O)">> >> /\ UNCHANGED <<fs, alt, ip>>
Mods2 == mods = <<>> /\ ls' = ls \o <<"Modules linked in: a b_", "c", " d", "CPU: 1">> /\ mods' = << <<"a", "b_c", "d">> >> /\ UNCHANGED <<fs, alt, ip>>
Next == Len(ls) < MaxLines /\ (Say \/ Call \/ Irq \/ Eoi \/ Rip \/ Eip \/ Mods \/ Mods2)
Spec == Init /\ [][Next]_vars
Text(p) == Join([i \in 1..Len(ls) |-> (IF i > 1 THEN p ELSE "") \o ls[i] \o "\n"])
Want == [how |-> "ok", reason |-> "BUG: unable", modules |-> mods, taints |-> {}, frames |-> fs]
Back == Read(Text("")) = Want
\* timestamps are immaterial (to lists of modules that end in their line)
Stamped == (mods = <<>> \/ mods[1] = <<"a", "b(O)">>) => Read(Text(Stamp)) = Want
\* so is the last newline, and what comes after the last breaking event address
End == LET t == Text("") IN (ls[Len(ls)] # "" => Read(Upto(t, Len(t) - 1)) = Want) /\ Read(t \o "Last Breaking-Event-Address:\n [<c01>] x+0x1/0x2\n") = Want
=============================================================================
