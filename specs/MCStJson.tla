------------------------------ MODULE MCStJson ------------------------------
(* Laws of the JSON form, over stack traces that grow one frame or one thread
   at a time and documents damaged at every place. *)
EXTENDS StJson
CONSTANTS Type, MaxFrames
VARIABLE s
Multi == Type \in {"core", "java"}
D == FrameDefault(Type)
(* every frame that differs from the empty one in at most two fields *)
Alt(k) == LET kind == IF k \in {"special_file", "special_function"} THEN "bool" ELSE LET i == CHOOSE j \in DOMAIN FrameFields(Type) : FrameFields(Type)[j][1] = k IN FrameFields(Type)[i][2]
          IN CASE kind = "bool" -> {~D[k]} [] kind = "str" -> {"", "a"} [] kind = "u32" -> {"7", "4294967295"} [] kind = "u64" -> {"0x0", "0x7", "0x8000000000000000"}
Pool == {D} \cup UNION { { [D EXCEPT ![k] = v] : v \in Alt(k) } : k \in DOMAIN D }
        \cup UNION { UNION { { [D EXCEPT ![k] = v, ![l] = w] : v \in Alt(k), w \in Alt(l) } : l \in DOMAIN D } : k \in DOMAIN D }
Bases == CASE Type = "core" -> {StDefault("core"), [StDefault("core") EXCEPT !.signal = "11", !.executable = "/bin/x", !.only_crash_thread = TRUE]}
           [] Type = "koops" -> {StDefault("koops"), [StDefault("koops") EXCEPT !.modules = <<<<>>>>, !.version = "5", !.reason = "r"],
                                 [StDefault("koops") EXCEPT !.modules = <<<<"a", "b">>>>, !.raw_oops = "x", !.taint_mce = TRUE, !.taint_live_patched = TRUE]}
           [] Type = "js" -> {StDefault("js")} \cup { [StDefault("js") EXCEPT !.exception_name = "E", !.platform = p] : p \in {"1", "16", "17", "65535"} }
           [] Type = "java" -> {StDefault("java")}
           [] OTHER -> {StDefault(Type), [StDefault(Type) EXCEPT !.exception_name = ""]}
Init == s \in Bases
Total == IF Multi THEN LET c[i \in 0..Len(s.threads)] == IF i = 0 THEN 0 ELSE c[i - 1] + Len(s.threads[i].frames) IN c[Len(s.threads)] ELSE Len(s.frames)
AddFrame == Total < MaxFrames /\ \E f \in Pool :
              IF Multi THEN \E i \in DOMAIN s.threads : s' = [s EXCEPT !.threads[i].frames = Append(@, f)] ELSE s' = [s EXCEPT !.frames = Append(@, f)]
AddThread == Multi /\ Len(s.threads) < 2 /\ \E n \in (IF Type = "java" THEN {NULL, "main"} ELSE {NULL}) :
               s' = [s EXCEPT !.threads = Append(@, IF Type = "java" THEN [name |-> n, frames |-> <<>>] ELSE [frames |-> <<>>])]
Choose == Type = "core" /\ \E i \in DOMAIN s.threads : s' = [s EXCEPT !.crash_thread = i - 1]
Next == AddFrame \/ AddThread \/ Choose
Spec == Init /\ [][Next]_s

RoundTrip == FromJson(Type, ToJson(s)) = [ok |-> TRUE, err |-> "", n |-> 0, st |-> <<Carried(s)>>]
Idempotent == Carried(Carried(s)) = Carried(s) /\ ((Type = "js" /\ s.platform = "65535") \/ ToJson(Carried(s)) = ToJson(s))
(* a document keeps its meaning when unknown keys are added, and is refused
   when any value that is read is replaced by null *)
Unknown == LET o == ToJson(s) IN FromJson(Type, JObj(<<<<"@unknown", JStr("x")>>>> \o o.v)) = FromJson(Type, o)
Nulls == LET o == ToJson(s) IN \A i \in DOMAIN o.v : ~FromJson(Type, JObj([o.v EXCEPT ![i] = <<@[1], [t |-> "null", v |-> ""]>>])).ok
(* dropping a key gives the document of the same trace without it *)
Drops == LET o == ToJson(s) IN \A i \in DOMAIN o.v : FromJson(Type, JObj(SubSeq(o.v, 1, i - 1) \o SubSeq(o.v, i + 1, Len(o.v)))).ok
=============================================================================
