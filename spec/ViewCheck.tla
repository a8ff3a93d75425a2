------------------------------ MODULE ViewCheck ------------------------------
(* What the view shows after every message.  entry: [mode, labels, msgs].     *)
EXTENDS IOUtils, Json, Naturals, Sequences, TLC
Sym == JsonDeserialize(IOEnv.SYM)
INSTANCE View
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
RECURSIVE All(_, _, _)
All(v, ms, i) == IF i > Len(ms) THEN <<>> ELSE LET u == Msg(v, ms[i]) IN <<Show(u)>> \o All(u, ms, i + 1)
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> All(View0(Batch[i].mode, Batch[i].labels), Batch[i].msgs, 1)])
==============================================================================
