---------------------------- MODULE StreamsCheck ----------------------------
(* Recorded histories against Streams.                                        *)
(* entry: [inp, open, cmds: id -> [par, shown], ev, rest, out, exact: the     *)
(* streams on which nothing but the output of the recorded commands may be]   *)
EXTENDS Streams, FiniteSets, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
Judge(b) == LET f == Fold(Start(b.inp, b.open), b.ev, 1, b.cmds)
            IN [at  |-> IF f.s.ok THEN 0 ELSE f.at,
                bad |-> IF ~f.s.ok THEN {"event"}
                        ELSE (IF b.rest = f.s.inp THEN {} ELSE {"rest"})
                             \cup {IF k = 1 THEN "stdout" ELSE "stderr" : k \in {k \in 1..Len(b.exact) : b.out[b.exact[k]] # f.s.out[b.exact[k]]}},
                want |-> [rest |-> f.s.inp, out |-> f.s.out]]
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> Judge(Batch[i])])
=============================================================================
