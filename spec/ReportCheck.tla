------------------------------ MODULE ReportCheck ------------------------------
EXTENDS Report, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
ToSet(s) == {s[i] : i \in 1..Len(s)}
MapOf(s, val(_)) == [k \in {s[i].k : i \in 1..Len(s)} |-> val(s[CHOOSE i \in 1..Len(s) : s[i].k = k])]
TaskIn(t) == [vars |-> ToSet(t.vars), aliases |-> ToSet(t.aliases)]
SetOf(b) == MapOf(b.files, LAMBDA f : [vars |-> ToSet(f.vars), incs |-> MapOf(f.incs, LAMBDA i : i.file), tasks |-> MapOf(f.tasks, TaskIn)])
\* offers: [kind ("task" | "run" | "var"), name, offer, file, task, asks]
Exists(b, o) == LET set == SetOf(b) IN
  CASE o.kind = "task" -> o.offer \in Tasks(set, b.root)
    [] o.kind = "run"  -> o.offer \in Tasks(set, b.root) \cup Aliases(set, b.root)
    [] o.kind = "var"  -> o.offer \in Visible(set, b.root, [file |-> o.file, task |-> o.task, asks |-> ToSet(o.asks)])
Bad(b) == (IF Cardinality(ToSet(b.runs)) = 1 THEN {} ELSE {"not the same each time"})
          \cup (IF \A i \in 1..Len(b.offers) : Exists(b, b.offers[i]) /\ b.offers[i].offer # b.offers[i].name THEN {} ELSE {"offers what does not exist"})
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> Bad(Batch[i])])
==============================================================================
