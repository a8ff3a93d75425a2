------------------------------ MODULE Streams ------------------------------
(* The standard streams of one invocation: the input of bab, shared by the   *)
(* commands run outside parallel blocks, and what reaches bab's two outputs. *)
(* A state is [inp: bytes not read yet, open: more input may come, out: the  *)
(* bytes on stdout and stderr, run: the commands that are running, ok].      *)
(* An event that the specification does not allow makes ok FALSE.            *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, Min(n, Len(s)) + 1, Len(s))

Start(inp, open) == [inp |-> inp, open |-> open, out |-> <<<<>>, <<>>>>, run |-> {}, ok |-> TRUE]
Bad(s) == [s EXCEPT !.ok = FALSE]
(* cmd: [par: run for a parallel block, shown: its output is displayed]      *)
Step(s, e, cmds) ==
  CASE e.e = "feed"  -> IF s.open THEN [s EXCEPT !.inp = @ \o e.d] ELSE Bad(s)
    [] e.e = "close" -> [s EXCEPT !.open = FALSE]
    [] e.e = "start" -> [s EXCEPT !.run = @ \cup {e.id}]
    [] e.e = "end"   -> [s EXCEPT !.run = @ \ {e.id}]
    \* a command in a parallel block finds no input; outside, what is there, in order
    [] e.e = "read"  -> IF e.id \notin s.run THEN Bad(s)
                        ELSE IF cmds[e.id].par THEN (IF e.d = <<>> THEN s ELSE Bad(s))
                        ELSE IF e.d = Take(s.inp, e.n) /\ (e.d # <<>> \/ ~s.open)
                             THEN [s EXCEPT !.inp = Drop(@, e.n)] ELSE Bad(s)
    [] e.e = "write" -> IF e.id \notin s.run THEN Bad(s)
                        ELSE IF cmds[e.id].shown THEN [s EXCEPT !.out[e.fd] = @ \o e.d] ELSE s
    [] OTHER         -> Bad(s)
RECURSIVE Fold(_, _, _, _)
Fold(s, evs, i, cmds) == IF i > Len(evs) \/ ~s.ok THEN [s |-> s, at |-> i - 1]
                         ELSE Fold(Step(s, evs[i], cmds), evs, i + 1, cmds)
=============================================================================
