----------------------------- MODULE GrammarCheck -----------------------------
(* entry: [doc, validate, lines: lines named by the messages, markers: number *)
(*  of marks left by runs of the rejected document, runs: <<[task, verbose,   *)
(*  code, seq: <<<<kind, text>>..>>, par: <<<<label, kind, text>>..>>]..>>]   *)
EXTENDS Grammar, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
NoLabel(s) == [i \in 1..Len(s) |-> <<s[i][2], s[i][3]>>]
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) \cup Rng(t) : Count(s, x) = Count(t, x)
Labelled(s) == {s[i] : i \in {i \in 1..Len(s) : s[i][1] # ""}}
RunOk(doc, r) ==
  (IF r.code = 0 <=> Succeeds(doc, r.task) THEN {} ELSE {"status"})
  \cup (IF r.seq = SeqShown(doc, r.task, r.verbose) THEN {} ELSE {"items"})
  \cup (IF SameBag(NoLabel(r.par), NoLabel(ParShown(doc, r.task, r.verbose)))
           /\ \A x \in Labelled(ParShown(doc, r.task, r.verbose)) : Count(r.par, x) >= Count(ParShown(doc, r.task, r.verbose), x) THEN {} ELSE {"parallel-items"})
Bad(b) ==
  LET fs == Faults(b.doc)
      ok == fs = {}
      said == Rng(b.lines)
  IN (IF (b.validate = 0) <=> ok THEN {} ELSE {"accept"})
     \cup (IF ok THEN {} ELSE
             (IF said \subseteq UNION {f[1] : f \in fs} THEN {} ELSE {"stray-line"})
             \cup (IF \A f \in fs : f[2] => f[1] \cap said # {} THEN {} ELSE {"missing-line"})
             \cup (IF b.markers = 0 THEN {} ELSE {"ran"}))
     \cup (IF ok THEN UNION {RunOk(b.doc, b.runs[i]) : i \in 1..Len(b.runs)} ELSE {})
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Want(b) == [faults |-> Faults(b.doc), shown |-> IF Faults(b.doc) = {} THEN [i \in 1..Len(b.runs) |-> <<SeqShown(b.doc, b.runs[i].task, b.runs[i].verbose), ParShown(b.doc, b.runs[i].task, b.runs[i].verbose)>>] ELSE <<>>]
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), ok |-> Faults(Batch[i].doc) = {}, want |-> IF Bad(Batch[i]) = {} THEN {} ELSE {Want(Batch[i])}]])
==============================================================================
