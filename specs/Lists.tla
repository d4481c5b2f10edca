-------------------------------- MODULE Lists --------------------------------
(* Stack traces as values: a heap of named stack traces, threads and frames and
   the editing commands on them.  A command changes the object it names and no
   other; copies are independent values. *)
EXTENDS SatyrBase
IsMulti(o) == "threads" \in DOMAIN o
ThreadCount(o) == IF IsMulti(o) THEN Len(o.threads) ELSE 1
(* thread i (1-based) of an object; a lone thread or a single-threaded stack trace is its own thread *)
Fr(o, i) == IF IsMulti(o) THEN o.threads[i].frames ELSE o.frames
SetFr(o, i, fs) == IF IsMulti(o) THEN [o EXCEPT !.threads[i].frames = fs] ELSE [o EXCEPT !.frames = fs]
ThreadOf(o, i) == IF IsMulti(o) THEN o.threads[i] ELSE o
RemoveAt(s, j) == Take(s, j - 1) \o Drop(s, j)
Over(f, g) == [k \in DOMAIN f |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Put(h, n, o) == [k \in DOMAIN h \cup {n} |-> IF k = n THEN o ELSE h[k]]
Del(h, n) == [k \in DOMAIN h \ {n} |-> h[k]]

Res(h, out) == [heap |-> h, out |-> out]
Step(h, c) ==
  CASE c.op = "append" -> Res(Put(h, c.h, SetFr(h[c.h], c.i, Append(Fr(h[c.h], c.i), c.frame))), "ok")
    [] c.op = "prepend" -> Res(Put(h, c.h, SetFr(h[c.h], c.i, <<c.frame>> \o Fr(h[c.h], c.i))), "ok")
    [] c.op = "remove" -> Res(Put(h, c.h, SetFr(h[c.h], c.i, RemoveAt(Fr(h[c.h], c.i), c.j))), "true")
    [] c.op = "above" -> Res(Put(h, c.h, SetFr(h[c.h], c.i, Drop(Fr(h[c.h], c.i), c.j - 1))), "true")
    \* a frame that does not belong to the thread: refused
    [] c.op \in {"removeForeign", "aboveForeign"} -> Res(h, "false")
    [] c.op = "below" -> Res(Put(h, c.h, SetFr(h[c.h], c.i, Take(Fr(h[c.h], c.i), c.n))), "ok")
    [] c.op = "limit" -> Res(Put(h, c.h, [h[c.h] EXCEPT !.threads = [i \in DOMAIN h[c.h].threads |-> [h[c.h].threads[i] EXCEPT !.frames = Take(@, c.n)]]]), "ok")
    [] c.op = "except" -> Res(Put(h, c.h, [h[c.h] EXCEPT !.threads = <<h[c.h].threads[c.i]>>]), "ok")
    [] c.op = "set" -> Res(Put(h, c.h, SetFr(h[c.h], c.i, [Fr(h[c.h], c.i) EXCEPT ![c.j] = Over(@, c.frame)])), "ok")
    [] c.op = "dup" -> Res(Put(h, c.to, h[c.h]), "ok")
    [] c.op = "dupThread" -> Res(Put(h, c.to, ThreadOf(h[c.h], c.i)), "ok")
    [] c.op = "dupFrames" -> Res(h, "frames")
    \* a copy of thread i (of it and the following ones, if sib) is added to another stack trace
    [] c.op = "addThread" -> Res(Put(h, c.to, [h[c.to] EXCEPT !.threads = @ \o (IF c.sib THEN Drop(h[c.h].threads, c.i - 1) ELSE <<h[c.h].threads[c.i]>>)]), "ok")
    [] c.op = "free" -> Res(Del(h, c.h), "ok")
    [] OTHER -> Res(h, "count")
(* what a command reports *)
Out(h, c) == LET r == Step(h, c).out IN
  CASE r = "frames" -> LET fs == Drop(Fr(h[c.h], c.i), c.j - 1) IN [v |-> IF c.sib THEN fs ELSE <<fs[1]>>]
    [] r = "count" -> [v |-> IF c.op = "threadCount" THEN ThreadCount(h[c.h]) ELSE Len(Fr(h[c.h], c.i))]
    [] OTHER -> [v |-> r]
RECURSIVE Go(_, _, _)
Go(h, cs, k) == IF k > Len(cs) THEN <<>> ELSE LET s == Step(h, cs[k]) IN <<[out |-> Out(h, cs[k]).v, heap |-> s.heap]>> \o Go(s.heap, cs, k + 1)
RunLists(c) == Go(c.heap, c.cmds, 1)
=============================================================================
