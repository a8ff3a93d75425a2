----------------------------- MODULE EditorCheck ------------------------------
(* entry: [doc, schema: accepted by the generated schema, published: by the   *)
(*  committed one, validate: status of bab --validate (-1: not run), refs:    *)
(*  every reference names something]                                          *)
EXTENDS Editor, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
Bad(b) ==
  LET ok == SchemaOk(b.doc) IN
  (IF b.schema = ok THEN {} ELSE {"schema"})
  \cup (IF b.published = ok THEN {} ELSE {"published"})
  \cup (IF ok /\ CrossOk(b.doc) /\ b.refs /\ b.validate > 0 THEN {"program"} ELSE {})
  \* the two specifications agree: what an editor accepts is well-formed
  \cup (IF ok /\ CrossOk(b.doc) => WellFormed(b.doc) THEN {} ELSE {"specification"})
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), ok |-> SchemaOk(Batch[i].doc), cross |-> SchemaOk(Batch[i].doc) /\ CrossOk(Batch[i].doc)]])
==============================================================================
