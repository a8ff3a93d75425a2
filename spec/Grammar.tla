------------------------------- MODULE Grammar -------------------------------
(* Which Babfiles are well-formed, where a malformed one is malformed, and    *)
(* what the well-formed items do.  A document is a tree of nodes              *)
(*   [t |-> "s" | "i" | "b" | "f", x |-> text, n |-> integer value, ls]       *)
(*   [t |-> "m", v |-> <<<<key, node>>, ...>>, ls]   mapping                  *)
(*   [t |-> "l", v |-> <<node, ...>>, ls]            sequence                 *)
(* ls: the lines on which the node is written.  Aliases are replaced by the   *)
(* node they refer to, which keeps the lines of its definition.               *)
EXTENDS Str, Integers

Rng(s) == {s[i] : i \in 1..Len(s)}
Scalar(n) == n.t \in {"s", "i", "b", "f"}
Keys(n) == {n.v[i][1] : i \in 1..Len(n.v)}
Has(n, k) == k \in Keys(n)
Get(n, k) == n.v[CHOOSE i \in 1..Len(n.v) : n.v[i][1] = k][2]
TextOf(n, k) == IF Has(n, k) THEN Get(n, k).x ELSE ""
Given(n, k) == Has(n, k) /\ Scalar(Get(n, k)) /\ Get(n, k).x # ""

---- \* values
IsStr(n) == Scalar(n)
IsBool(n) == n.t = "b"
IsInt(n) == n.t = "i"
IsStrList(n) == n.t = "l" /\ \A i \in 1..Len(n.v) : IsStr(n.v[i])
IsStrMap(n) == n.t = "m" /\ \A i \in 1..Len(n.v) : IsStr(n.v[i][2])
Texts(n) == [i \in 1..Len(n.v) |-> n.v[i].x]
OneOf(n, S) == IsStr(n) /\ n.x \in S

Platforms == {"linux", "darwin", "windows"}
Levels == {"debug", "info", "warn", "error"}
Modes == {"interleaved", "grouped", "tabs"}
PromptTypes == {"confirm", "input", "select", "multiselect", "password", "number"}
\* patterns used by the generator, classified by the regular expression syntax
ValidPatterns == {"^[a-z]+$", "[0-9]{2,3}", "a|b", ".*", "^(x|y)?$", "\\d+\\.\\d+", "(?i)abc"}
InvalidPatterns == {"[", "(a", "*x", "a{2,1}", "a)", "[z-a]", "x**", "(?<n"}
IsName(s) == s # "" /\ Ch(s, 1) \in Letters \cup {"_"} /\ \A i \in 1..Len(s) : Ch(s, i) \in Letters \cup Digits \cup {"_"}

IntSyntax(s) == LET b == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
                IN b # "" /\ \A i \in 1..Len(b) : Ch(b, i) \in Digits

---- \* what each key takes
KeyOk(k, n) ==
  CASE k \in {"cmd", "task", "log", "prompt", "when", "label", "dir", "message", "default", "placeholder", "desc", "alias"} -> IsStr(n)
    [] k \in {"silent", "output", "color", "confirm"} -> IsBool(n)
    [] k \in {"env", "vars"} -> IsStrMap(n)
    [] k = "platforms" -> IsStrList(n) /\ Rng(Texts(n)) \subseteq Platforms
    [] k = "level" -> OneOf(n, Levels)
    [] k = "mode" -> OneOf(n, Modes)
    [] k = "limit" -> IsInt(n) /\ n.n >= 0
    [] k = "type" -> OneOf(n, PromptTypes)
    [] k \in {"options", "defaults", "aliases", "deps"} -> IsStrList(n)
    [] k \in {"min", "max"} -> IsInt(n)
    [] k = "validate" -> OneOf(n, ValidPatterns)
    [] k = "run" -> n.t = "l"
    [] OTHER -> TRUE

BadKeys(n) == {i \in 1..Len(n.v) : ~KeyOk(n.v[i][1], n.v[i][2])}

---- \* run items
Kinds == {"cmd", "task", "log", "prompt"}
BlockKeys == {"parallel", "mode", "limit", "color", "silent", "output", "platforms", "when"}
IsBlock(n) == n.t = "m" /\ Has(n, "parallel")
Nested(n) == IF IsBlock(n) /\ Get(n, "parallel").t = "l" THEN Get(n, "parallel").v ELSE <<>>

PromptOk(n) ==
  LET ty == TextOf(n, "type")
      opts == IF Has(n, "options") THEN Rng(Texts(Get(n, "options"))) ELSE {}
      dfs == IF Has(n, "defaults") THEN Rng(Texts(Get(n, "defaults"))) ELSE {}
  IN /\ IsName(Get(n, "prompt").x)
     /\ Has(n, "type")
     /\ Given(n, "message")
     /\ (ty \in {"select", "multiselect"}) <=> (opts # {})
     /\ ty = "select" /\ Given(n, "default") => TextOf(n, "default") \in opts
     /\ dfs # {} => ty = "multiselect" /\ dfs \subseteq opts
     /\ Has(n, "min") /\ Has(n, "max") => Get(n, "min").n <= Get(n, "max").n
     /\ Has(n, "validate") => ty = "input"
     /\ Has(n, "confirm") => ty = "password"
     /\ ty = "number" /\ Given(n, "default") => IntSyntax(TextOf(n, "default"))

\* the item, leaving aside the items nested in it
OwnOk(n) ==
  /\ n.t = "m"
  /\ IF IsBlock(n)
     THEN Keys(n) \subseteq BlockKeys /\ BadKeys(n) = {} /\ Get(n, "parallel").t = "l" /\ Nested(n) # <<>>
     ELSE /\ BadKeys(n) = {}
          /\ Cardinality({k \in Kinds : Given(n, k)}) = 1
          /\ Given(n, "prompt") => PromptOk(n)

\* every line on which (part of) the item itself is written
ItemLines(n) == Rng(n.ls) \cup (IF n.t = "m" THEN UNION {Rng(n.v[i][2].ls) : i \in {i \in 1..Len(n.v) : n.v[i][1] # "parallel" \/ n.v[i][2].t # "l"}} ELSE {})

\* faults: <<lines, must>>: one message in lines; must: it is reported whatever else is wrong
F(lines, must) == <<lines, must>>
RECURSIVE ItemFaults(_, _)
ItemFaults(n, must) ==
  IF ~OwnOk(n) THEN {F(ItemLines(n), must)} \cup UNION {ItemFaults(Nested(n)[i], FALSE) : i \in 1..Len(Nested(n))}
  ELSE LET inner == UNION {ItemFaults(Nested(n)[i], must) : i \in 1..Len(Nested(n))}
           misplaced == {i \in 1..Len(Nested(n)) : LET c == Nested(n)[i] IN IsBlock(c) \/ (c.t = "m" /\ Given(c, "prompt"))}
       IN inner \cup {F(ItemLines(Nested(n)[i]), must /\ inner = {}) : i \in misplaced}

---- \* tasks and documents
KeyFaults(n, must) == {F(IF n.v[i][1] \in {"env", "vars"} /\ n.v[i][2].t = "m"
                         THEN UNION {Rng(n.v[i][2].v[j][2].ls) : j \in {j \in 1..Len(n.v[i][2].v) : ~IsStr(n.v[i][2].v[j][2])}} \cup Rng(n.v[i][2].ls)
                         ELSE Rng(n.v[i][2].ls) \cup Rng(n.v[i][3]), must) : i \in BadKeys(n)}
TaskFaults(n, must) ==
  IF n.t # "m" THEN {F(Rng(n.ls), must)}
  ELSE KeyFaults(n, must)
       \cup (IF Has(n, "run") /\ Get(n, "run").t = "l" THEN UNION {ItemFaults(Get(n, "run").v[i], must) : i \in 1..Len(Get(n, "run").v)} ELSE {})
TasksFaults(n) ==
  IF n.t # "m" THEN {F(Rng(n.ls), TRUE)}
  ELSE UNION {LET dup == \E j \in 1..(i - 1) : n.v[j][1] = n.v[i][1]
              IN TaskFaults(n.v[i][2], ~dup) \cup (IF dup THEN {F(Rng(n.v[i][3]), TRUE)} ELSE {}) : i \in 1..Len(n.v)}
Faults(doc) ==
  IF doc.t # "m" THEN {F(Rng(doc.ls), TRUE)}
  ELSE KeyFaults(doc, TRUE) \cup (IF Has(doc, "tasks") THEN TasksFaults(Get(doc, "tasks")) ELSE {})
WellFormed(doc) == Faults(doc) = {}

---- \* effects of a task of a well-formed document without prompts
Here(n) == Has(n, "platforms") /\ Get(n, "platforms").v # <<>> => "linux" \in Rng(Texts(Get(n, "platforms")))
Runs(n) == /\ Here(n)
           /\ TextOf(n, "when") # "false"
Level(n) == IF Has(n, "level") THEN TextOf(n, "level") ELSE "info"
\* a line shown by an item: <<kind, text>>
Shown(n, verbose) ==
  IF ~Runs(n) THEN <<>>
  ELSE IF Given(n, "log") THEN (IF Level(n) = "debug" /\ ~verbose THEN <<>> ELSE <<<<Level(n), TextOf(n, "log")>>>>)
  ELSE IF Given(n, "cmd") THEN (IF Has(n, "output") /\ TextOf(n, "output") = "false" THEN <<>> ELSE <<<<"cmd", From(TextOf(n, "cmd"), 6)>>>>)  \* the commands are "echo ..."
  ELSE <<>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Items(doc, t) == LET n == Get(Get(doc, "tasks"), t) IN
                 IF TextOf(n, "when") = "false" THEN <<>> ELSE IF Has(n, "run") THEN Get(n, "run").v ELSE <<>>
\* a task all of whose items are meant for other platforms fails
Succeeds(doc, t) == Items(doc, t) = <<>> \/ \E i \in 1..Len(Items(doc, t)) : Here(Items(doc, t)[i])
SeqShown(doc, t, verbose) == Cat([i \in 1..Len(Items(doc, t)) |-> IF IsBlock(Items(doc, t)[i]) THEN <<>> ELSE Shown(Items(doc, t)[i], verbose)])
\* lines of parallel items: <<label, kind, text>>; label "" stands for any
ParShown(doc, t, verbose) == Cat([i \in 1..Len(Items(doc, t)) |->
   LET b == Items(doc, t)[i] IN
   IF ~IsBlock(b) \/ ~Runs(b) THEN <<>>
   ELSE Cat([j \in 1..Len(Nested(b)) |-> LET c == Nested(b)[j]  s == Shown(c, verbose) IN [k \in 1..Len(s) |-> <<TextOf(c, "label"), s[k][1], s[k][2]>>]])])
=============================================================================
