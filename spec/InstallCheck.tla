------------------------------ MODULE InstallCheck ------------------------------
EXTENDS Install, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
Case(b) == [tag |-> b.tag, os |-> b.os, mach |-> b.mach, latest |-> b.latest, tags |-> {b.tags[i] : i \in 1..Len(b.tags)},
            have |-> b.have, old |-> b.old, fault |-> MapOf(b.fault)]
Bad(b) == LET w == Outcome(Case(b)) IN
  (IF b.dir = w.dir THEN {} ELSE {"directory"})
  \cup (IF b.others THEN {"other files"} ELSE {})
  \cup (IF (b.code = 0) <=> (w.exit = "ok") THEN {} ELSE {"exit status"})
  \cup (IF b.urls = w.urls THEN {} ELSE {"requests"})
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), want |-> Outcome(Case(Batch[i]))]])
==============================================================================
