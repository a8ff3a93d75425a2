--------------------------------- MODULE CliCheck ---------------------------------
EXTENDS Cli, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
World(b) == [f \in {b.world[i].path : i \in 1..Len(b.world)} |-> LET x == CHOOSE i \in 1..Len(b.world) : b.world[i].path = f IN [ok |-> b.world[x].ok, tasks |-> b.world[x].tasks]]
Seen(b) == [code |-> b.code, out |-> b.out, ran |-> b.ran, named |-> {b.named[i] : i \in 1..Len(b.named)}]
Bad(b) == LET s == Read(Start(b.words))   w == Outcomes(World(b), b.words) IN
  (IF Seen(b) \in w THEN {} ELSE {"outcome"})
  \cup (IF b.debug => s.on.verbose THEN {} ELSE {"verbose without being asked"})
  \cup (IF s.on.verbose /\ Modes(s) \subseteq {"run", "validate", "list", "pick"} /\ Loads(World(b), s) => b.debug THEN {} ELSE {"not verbose"})
  \cup (IF b.code # 0 <=> b.errors THEN {} ELSE {"failure and message"})
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), want |-> Outcomes(World(Batch[i]), Batch[i].words), modes |-> Modes(Read(Start(Batch[i].words)))]])
==============================================================================
