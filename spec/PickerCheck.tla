----------------------------- MODULE PickerCheck -----------------------------
(* The behaviours of Picker to replay.  entry: [tasks, keys]; result: the     *)
(* state after 0, 1, .. keys.                                                 *)
EXTENDS Picker, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> States(Batch[i].tasks, Start(Batch[i].tasks), Batch[i].keys, 1)])
==============================================================================
