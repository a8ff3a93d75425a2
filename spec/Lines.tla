-------------------------------- MODULE Lines --------------------------------
(* The output of an interleaved parallel block.  Leaves (the items that write,*)
(* at any nesting) write pieces of text to two streams; bab shows whole lines *)
(* with the label of the leaf.  A write may be split and shown in parts: each *)
(* line appears on its own, in the order of its leaf.                         *)
EXTENDS Clean, FiniteSets, TLC
VARIABLES leaf,    \* leaf -> colour off for it
          pend,    \* leaf -> stream -> what was written and is not shown yet
          out,     \* stream -> sequence of [leaf, text]
          over     \* leaves that have ended
lvars == <<leaf, pend, out, over>>
Streams == {1, 2}

Start(l) == /\ leaf = l
            /\ pend = [x \in DOMAIN l |-> [s \in Streams |-> <<>>]]
            /\ out = [s \in Streams |-> <<>>]
            /\ over = {}
Write(x, s, piece) ==
  /\ x \notin over
  /\ pend' = [pend EXCEPT ![x][s] = @ \o piece]
  /\ UNCHANGED <<leaf, out, over>>
\* the line of x that can be shown on s: [ok, line, rest]
Ready(x, s) ==
  LET p == pend[x][s]
      k == FirstLF(p, 1)
  IN IF k > 0 THEN [ok |-> TRUE, line |-> CleanLine(SubSeq(p, 1, k - 1), leaf[x]), rest |-> SubSeq(p, k + 1, Len(p))]
     ELSE IF x \in over /\ p # <<>> THEN [ok |-> TRUE, line |-> CleanLine(p, leaf[x]), rest |-> <<>>]
     ELSE [ok |-> FALSE, line |-> <<>>, rest |-> p]
Show(x, s) ==
  LET r == Ready(x, s)
  IN /\ r.ok
     /\ pend' = [pend EXCEPT ![x][s] = r.rest]
     /\ out' = [out EXCEPT ![s] = Append(@, [leaf |-> x, text |-> r.line])]
     /\ UNCHANGED <<leaf, over>>
End(x) == x \notin over /\ over' = over \cup {x} /\ UNCHANGED <<leaf, pend, out>>
\* nothing that could be shown is held back
Settled == \A x \in DOMAIN leaf, s \in Streams : ~Ready(x, s).ok
==============================================================================
