------------------------------ MODULE EngineHist ------------------------------
(* The predicates of EngineProps evaluated directly on recorded histories:   *)
(* for every trace of the batch the names of those it breaks.                *)
EXTENDS Values, Integers, TLC, IOUtils, Json
NoEnv == EmptyMap
P == INSTANCE EngineProps WITH Env <- NoEnv
Batch == JsonDeserialize(IOEnv.BATCH)
Broken(p, h) ==
     (IF P!Once(h) THEN {} ELSE {"Once"})
  \cup (IF P!DepsFirst(p, h) THEN {} ELSE {"DepsFirst"})
  \cup (IF P!ItemsInOrder(p, h) THEN {} ELSE {"ItemsInOrder"})
  \cup (IF P!PreDeps(p, h) THEN {} ELSE {"PreDeps"})
  \cup (IF P!LimitKept(p, h) THEN {} ELSE {"LimitKept"})
  \cup (IF P!Contained(p, h) THEN {} ELSE {"Contained"})
  \cup (IF P!Outcome(p, h) THEN {} ELSE {"Outcome"})
  \cup (IF P!Settled(h) /\ P!KillsOnlyCancelled(h) THEN {} ELSE {"Settled"})
VARIABLE x
Init == x = 0 /\ JsonSerialize(IOEnv.RESULT, [n \in 1..Len(Batch) |-> Broken(Batch[n].prog, Batch[n].ev)])
Next == FALSE /\ x' = x
=============================================================================
