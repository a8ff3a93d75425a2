------------------------------ MODULE LinesTrace ------------------------------
(* Are recorded outputs behaviours of Lines?  Batch: sequence of              *)
(* [leaves: <<name, colour off>>.., ev, out: [1 -> lines, 2 -> lines]] where  *)
(* a line is <<leaf, text>>; events                                           *)
(*   w    leaf wrote text to stream                                           *)
(*   end  the leaf ended                                                      *)
(*   see  at rest, bab had shown n1 and n2 lines                              *)
EXTENDS Lines, Integers, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES tr, pos
Ev(n) == Batch[n].ev
Obs(s) == Batch[tr].out[s]
MapL(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE i \in 1..Len(ps) : ps[i][1] = k) ]
Init == \E n \in 1..Len(Batch) :
          /\ tr = n /\ pos = 1 /\ TLCSet(n, 0)
          /\ LET ls == Batch[n].leaves
                 ix == MapL(ls)
             IN Start([k \in DOMAIN ix |-> ls[ix[k]][2]])
\* the next line of a stream, if it was observed as the next one
Fits(x, s) == /\ Ready(x, s).ok
              /\ Len(out[s]) < Len(Obs(s))
              /\ Obs(s)[Len(out[s]) + 1] = <<x, Ready(x, s).line>>
CanShow == {<<x, s>> \in (DOMAIN leaf) \X Streams : Fits(x, s)}
Next == \/ /\ CanShow # {}
           /\ LET c == CHOOSE c \in CanShow : TRUE IN Show(c[1], c[2])
           /\ UNCHANGED <<tr, pos>>
        \/ /\ CanShow = {} /\ pos <= Len(Ev(tr))
           /\ LET e == Ev(tr)[pos] IN
                CASE e.e = "w" -> Write(e.leaf, e.s, e.text)
                  [] e.e = "end" -> End(e.leaf)
                  [] e.e = "see" -> Settled /\ Len(out[1]) = e.n1 /\ Len(out[2]) = e.n2 /\ UNCHANGED lvars
                  [] OTHER -> FALSE
           /\ pos' = pos + 1 /\ tr' = tr
Track == IF TLCGet(tr) < pos THEN TLCSet(tr, pos) ELSE TRUE
Post == JsonSerialize(IOEnv.RESULT, [n \in 1..Len(Batch) |-> <<TLCGet(n), Len(Ev(n)) + 1>>])
==============================================================================
