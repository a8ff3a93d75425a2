------------------------------- MODULE DryCheck -------------------------------
(* Recorded dry runs against Dry: the exact records and the exit status, and *)
(* no command, prompt or change in the directory.                            *)
EXTENDS Dry, IOUtils, Json
NoEnv == EmptyMap
Batch == JsonDeserialize(IOEnv.BATCH)
Bad(b) ==
  LET w == DryRun(b.prog) IN
  (IF w.recs = b.recs THEN {} ELSE {"records"})
  \cup (IF (b.code = 0) <=> w.ok THEN {} ELSE {"status"})
  \cup (IF b.effects = <<>> THEN {} ELSE {"effects"})
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Out == [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), want |-> DryRun(Batch[i].prog)]]
Post == JsonSerialize(IOEnv.RESULT, Out)
=============================================================================
