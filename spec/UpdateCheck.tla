---------------------------- MODULE UpdateCheck ----------------------------
(* What each run of a history may do.  entry: [st, sv, run, finished,         *)
(* writable, tags]; result: the outcomes allowed.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt
Batch == JsonDeserialize(IOEnv.BATCH)
All == {Batch[i].tags[j] : i \in 1..Len(Batch), j \in 1..3}
VARIABLE n
Table == TLCGet(7)
Version(t) == Table[t]
INSTANCE Update
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Judge(e) == /\ TLCSet(7, [t \in {e.tags[j].tag : j \in 1..Len(e.tags)} |-> e.tags[CHOOSE j \in 1..Len(e.tags) : e.tags[j].tag = t].v])
            /\ TLCSet(8, {[o \in {"asked", "notice", "store", "inm"} |-> IF o = "inm" THEN With(e.st) ELSE x[o]] : x \in Outcomes(e.st, e.sv, e.run, e.finished, e.writable)})
RECURSIVE Res(_)
Res(i) == IF i > Len(Batch) THEN <<>> ELSE IF Judge(Batch[i]) THEN <<SetToSeq(TLCGet(8))>> \o Res(i + 1) ELSE <<>>
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, Res(1))
==============================================================================
