------------------------------- MODULE MCScan -------------------------------
(* A scanner at work: any steps on any text over the alphabet. *)
EXTENDS Scan
CONSTANTS Alphabet, MaxLen
VARIABLES t, pos, loc, last
vars == <<t, pos, loc, last>>
C(n) == [op |-> n, c |-> 0, set |-> <<>>]
Sets == { <<>> } \cup { <<a>> : a \in Alphabet } \cup { <<a, b>> : a, b \in Alphabet }
Ops == { C(n) : n \in {"eat", "parse_digit", "skip_uint", "parse_uint32", "parse_uint64", "skip_hexadecimal_uint", "skip_hexadecimal_0xuint", "parse_hexadecimal_uint64", "parse_hexadecimal_0xuint64", "skip_whitespace", "skip_non_whitespace", "skip_to_next_line"} }
       \cup { [C(n) EXCEPT !.c = a] : n \in {"skip_char", "skip_char_sequence", "strchr"}, a \in Alphabet }
       \cup { [C(n) EXCEPT !.set = s] : n \in {"skip_char_limited", "parse_char_limited", "skip_char_span", "parse_char_span", "skip_char_cspan", "parse_char_cspan", "skip_string", "parse_string", "strstr"}, s \in Sets }
Init == t \in UNION { [1..n -> Alphabet] : n \in 0..MaxLen } /\ pos = 1 /\ loc = [line |-> 1, column |-> 0] /\ last = [op |-> "eat", from |-> 1, ret |-> 0]
Step1 == \E c \in Ops : LET o == Step(t, pos, c) IN
           /\ pos' = o.pos /\ last' = [op |-> c.op, from |-> pos, ret |-> o.ret]
           /\ loc' = Add(loc, Where(Rest(t, pos), o.pos - pos + 1))
           /\ UNCHANGED t
Spec == Init /\ [][Step1]_vars
\* never back, never past the end
Bounded == last.from <= pos /\ pos <= Len(t) + 1
\* line and column, added up step by step, tell the position
Located == loc = Where(t, pos)
\* refused is unmoved
Unmoved == (last.ret = 0 /\ last.op \notin {"eat", "skip_whitespace", "skip_non_whitespace", "skip_to_next_line", "strchr", "strstr"}) => last.from = pos
=============================================================================
