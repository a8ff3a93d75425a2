----------------------------- MODULE StreamsMC -----------------------------
(* Every history of two commands outside and one inside a parallel block on   *)
(* a small input: nothing is lost, read twice or out of order, and the        *)
(* outputs are exactly what the displayed commands wrote.                     *)
EXTENDS Streams
CONSTANT MaxLen
VARIABLES s, h
Cmds == [a |-> [par |-> FALSE, shown |-> TRUE], b |-> [par |-> FALSE, shown |-> FALSE], p |-> [par |-> TRUE, shown |-> TRUE]]
Fed(k) == [i \in 1..k |-> i]
NFed == Len(SelectSeq(h, LAMBDA e : e.e = "feed"))
Events == {[e |-> "feed", d |-> <<NFed + 1>>], [e |-> "close"]}
          \cup {[e |-> k, id |-> c] : k \in {"start", "end"}, c \in DOMAIN Cmds}
          \cup {[e |-> "read", id |-> c, n |-> n, d |-> d] : c \in s.run, n \in 1..2, d \in {<<>>} \cup {Take(s.inp, k) : k \in 1..2} \cup {<<1>>, <<2>>}}
          \cup {[e |-> "write", id |-> c, fd |-> f, d |-> <<Len(h)>>] : c \in s.run, f \in 1..2}
Init == s = Start(<<>>, TRUE) /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E e \in Events : /\ Step(s, e, Cmds).ok
                             /\ s' = Step(s, e, Cmds) /\ h' = Append(h, e)
RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN <<>> ELSE Head(x).d \o Cat(Tail(x))
Is(k) == SelectSeq(h, LAMBDA e : e.e = k)
Conserved == Cat(Is("read")) \o s.inp = Fed(NFed)
Outside   == \A i \in 1..Len(h) : h[i].e = "read" /\ h[i].id = "p" => h[i].d = <<>>
Written   == \A f \in 1..2 : s.out[f] = Cat(SelectSeq(h, LAMBDA e : e.e = "write" /\ e.fd = f /\ Cmds[e.id].shown))
=============================================================================
