------------------------------ MODULE BulkCheck ------------------------------
(* Large outputs written at full speed: [leaves: <<name, <<lines1, lines2>>>>.., out].  The lines *)
(* of every leaf appear on their stream, whole and in order, and nothing else.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
Of(b, s, l) == LET q == SelectSeq(b.out[s], LAMBDA e : e[1] = l) IN [i \in 1..Len(q) |-> q[i][2]]
Bad(b) == {<<b.leaves[i][1], s>> : <<i, s>> \in {<<i, s>> \in (1..Len(b.leaves)) \X {1, 2} : Of(b, s, b.leaves[i][1]) # b.leaves[i][2][s]}}
          \cup {<<"?", s>> : s \in {s \in {1, 2} : \E j \in 1..Len(b.out[s]) : ~\E i \in 1..Len(b.leaves) : b.leaves[i][1] = b.out[s][j][1]}}
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i])]])
==============================================================================
