------------------------------- MODULE LoadCheck -------------------------------
(* What bab was observed to do with sets of Babfiles, against Load.          *)
EXTENDS Load, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
FS(b) == [p \in {b.fs[i].path : i \in 1..Len(b.fs)} |-> LET i == CHOOSE j \in 1..Len(b.fs) : b.fs[j].path = p IN b.fs[i]]
AsSet(D) == {D[i] : i \in 1..Len(D)}

Bad(b) ==
  LET fs == FS(b)
      r  == LoadFile(fs, b.root, <<>>)
      ok == r.ok /\ Sound(r.tasks)
      T  == r.tasks
      o  == b.obs
  IN (IF (o.validate = 0) <=> ok THEN {} ELSE {"accept"})
     \cup (IF ok => o.count = Cardinality(T) THEN {} ELSE {"count"})
     \cup (IF (o.listcode = 0) <=> ok THEN {} ELSE {"list-status"})
     \cup (IF ok => AsSet(o.list) = Names(T) /\ Len(o.list) = Cardinality(AsSet(o.list)) THEN {} ELSE {"list"})
     \cup (IF ok => AsSet(o.listalias) = UNION {{<<t.name, a>> : a \in RangeOf(t.aliases) \ {""}} : t \in T} THEN {} ELSE {"list-aliases"})
     \* a name is shown with the description of the task it selects
     \cup (IF ok => AsSet(o.listdesc) = {<<t.name, t.desc>> : t \in T} THEN {} ELSE {"list-desc"})
     \cup (IF ok => \A i \in 1..Len(o.compdesc) :
                LET d == (CHOOSE t \in T : t.name = Selects(T, o.compdesc[i][1])).desc IN
                o.compdesc[i][1] \in Callable(T) =>
                  IF o.compdesc[i][1] \in Names(T) THEN o.compdesc[i][2] = d
                  ELSE d # "" => HasPrefix(o.compdesc[i][2], d) THEN {} ELSE {"complete-desc"})
     \cup (IF AsSet(o.complete) = (IF ok THEN Callable(T) ELSE {}) /\ Len(o.complete) = Cardinality(AsSet(o.complete)) THEN {} ELSE {"complete"})
     \cup (IF AsSet(o.prefixed) = (IF ok THEN {n \in Callable(T) : HasPrefix(n, o.prefix)} ELSE {}) THEN {} ELSE {"complete-prefix"})
     \cup UNION {
            LET x == o.runs[i]
                good == ok /\ x.name \in Callable(T)
            IN (IF (x.code = 0) <=> good THEN {} ELSE {"run-status"})
               \cup (IF AsSet(x.ids) = (IF good /\ ~x.dry THEN Executed(T, Selects(T, x.name)) ELSE {}) /\ Len(x.ids) = (IF good /\ ~x.dry THEN NExecuted(T, Selects(T, x.name)) ELSE 0) THEN {} ELSE {"run-commands"})
            : i \in 1..Len(o.runs)}
     \cup (IF ok THEN {}
           ELSE IF ~r.ok THEN (IF \E E \in r.errs : AsSet(o.diags) = E THEN {} ELSE {"diagnostics"})
           ELSE IF DiagsOk(T, AsSet(o.diags)) THEN {} ELSE {"diagnostics"})
\* every run of a rejected set gives the same diagnostics as --validate
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Want(b) == LET r == LoadFile(FS(b), b.root, <<>>) IN
   [loaded |-> r.ok, accepted |-> Accepted(FS(b), b.root), errs |-> r.errs, names |-> Names(r.tasks),
    diags |-> IF r.ok THEN MissingDeps(r.tasks) \cup MissingRefs(r.tasks) \cup Conflicts(r.tasks) ELSE {},
    dupaliases |-> DupAliases(r.tasks), cycles |-> OnCycle(r.tasks)]
Post == JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), want |-> IF Bad(Batch[i]) = {} THEN {} ELSE {Want(Batch[i])}]])
=============================================================================
