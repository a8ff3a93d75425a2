----------------------------- MODULE PromptCheck -----------------------------
(* The behaviours of Prompt to replay.  entry: [es: <<[d, keys]..>>, tty]     *)
EXTENDS Prompt, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
R(b) == Chain(b.es, b.tty, 1, <<>>, <<>>)
Sound(b, r) == b.tty => \A i \in 1..Len(r.ans) : Satisfies(b.es[i].d, r.ans[i])
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> LET r == R(Batch[i]) IN [end |-> r.end, ans |-> r.ans, used |-> r.used, sound |-> Sound(Batch[i], r)]])
==============================================================================
