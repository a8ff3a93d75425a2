-------------------------------- MODULE Editor --------------------------------
(* The language as an editor sees it: the documents the published JSON schema *)
(* accepts.  Every object has a closed set of keys, every key a type.  The    *)
(* schema is stricter than the program about types (the program reads 8080    *)
(* as text) and says nothing about what lies between keys (references,        *)
(* prompts whose default is no option).                                       *)
EXTENDS Grammar

Text(n) == n.t = "s"
Filled(n) == Text(n) /\ n.x # ""
NameChars == Letters \cup Digits \cup {"_", "-"}
\* names of tasks: parts joined by colons
TaskName(s) == s # "" /\ Chars(s) \subseteq NameChars \cup {":"} /\ Ch(s, 1) # ":" /\ Ch(s, Len(s)) # ":" /\ ~Contains(s, "::")
Ref(n) == Text(n) /\ TaskName(n.x)
ListOf(n, ok(_)) == n.t = "l" /\ \A i \in 1..Len(n.v) : ok(n.v[i])
Distinct(n) == \A i, j \in 1..Len(n.v) : i # j => n.v[i].t # n.v[j].t \/ n.v[i].x # n.v[j].x
MapOfText(n) == n.t = "m" /\ \A i \in 1..Len(n.v) : Text(n.v[i][2])
Among(n, S) == Text(n) /\ n.x \in S
IsPlatform(n) == Among(n, Platforms)
\* [bB]abfile, a suffix perhaps, .yml or .yaml
BabPath(s) == \E p \in 1..Len(s) : (StartsAt(s, p, "Babfile") \/ StartsAt(s, p, "babfile"))
                 /\ LET rest == From(s, p + 7) IN HasPrefix(rest, ".") /\ (HasSuffix(rest, ".yml") \/ HasSuffix(rest, ".yaml"))

Allowed == [doc |-> {"vars", "env", "silent", "output", "dir", "includes", "tasks"},
            task |-> {"desc", "alias", "aliases", "vars", "env", "silent", "output", "dir", "when", "deps", "run"},
            include |-> {"babfile"},
            cmd |-> {"cmd", "dir", "env", "silent", "output", "platforms", "when", "label"},
            ref |-> {"task", "silent", "output", "platforms", "when", "label"},
            log |-> {"log", "level", "platforms", "when", "label"},
            prompt |-> {"prompt", "type", "message", "default", "defaults", "options", "placeholder", "validate", "min", "max", "confirm", "platforms", "when"},
            block |-> BlockKeys]
Required == [doc |-> {}, task |-> {}, include |-> {"babfile"}, cmd |-> {"cmd"}, ref |-> {"task"}, log |-> {"log"},
             prompt |-> {"prompt", "type", "message"}, block |-> {"parallel"}]
TopKinds == {"cmd", "ref", "log", "prompt", "block"}
InnerKinds == {"cmd", "ref", "log"}

RECURSIVE Object(_, _), Item(_, _)
Takes(kind, k, n) ==
  CASE k \in {"cmd", "log", "message"} -> Filled(n)
    [] k \in {"when", "label", "dir", "placeholder", "validate", "desc"} -> Text(n)
    [] k = "prompt" -> Text(n) /\ IsName(n.x)
    [] k \in {"task", "alias"} -> Ref(n)
    [] k = "aliases" -> ListOf(n, Ref) /\ Distinct(n)
    [] k = "deps" -> ListOf(n, Ref) /\ Distinct(n)
    [] k \in {"silent", "output", "color", "confirm"} -> n.t = "b"
    [] k = "env" -> MapOfText(n)
    [] k = "vars" -> MapOfText(n) /\ \A v \in Keys(n) : IsName(v)
    [] k = "platforms" -> ListOf(n, IsPlatform) /\ Distinct(n)
    [] k = "level" -> Among(n, Levels)
    [] k = "mode" -> Among(n, Modes)
    [] k = "limit" -> n.t = "i" /\ n.n >= 0
    [] k = "type" -> Among(n, PromptTypes)
    [] k = "default" -> n.t \in {"s", "b", "i"}
    [] k = "defaults" -> ListOf(n, Text)
    [] k = "options" -> ListOf(n, Filled) /\ n.v # <<>>
    [] k \in {"min", "max"} -> n.t = "i"
    [] k = "run" -> n.t = "l" /\ n.v # <<>> /\ \A i \in 1..Len(n.v) : Item(TopKinds, n.v[i])
    [] k = "parallel" -> n.t = "l" /\ n.v # <<>> /\ \A i \in 1..Len(n.v) : Item(InnerKinds, n.v[i])
    [] k = "babfile" -> Text(n) /\ BabPath(n.x)
    [] k = "includes" -> n.t = "m" /\ \A i \in 1..Len(n.v) : TaskName(n.v[i][1]) /\ Object("include", n.v[i][2])
    [] k = "tasks" -> n.t = "m" /\ n.v # <<>> /\ \A i \in 1..Len(n.v) : TaskName(n.v[i][1]) /\ Object("task", n.v[i][2])
Object(kind, n) ==
  /\ n.t = "m"
  /\ Required[kind] \subseteq Keys(n) /\ Keys(n) \subseteq Allowed[kind]
  /\ \A i \in 1..Len(n.v) : Takes(kind, n.v[i][1], n.v[i][2])
Item(kinds, n) == \E k \in kinds : Object(k, n)

SchemaOk(doc) == Object("doc", doc)

---- \* what lies between keys, or in a text, and only the program judges
RECURSIVE CrossItem(_)
CrossItem(n) == /\ Given(n, "prompt") => PromptOk(n)
                /\ Has(n, "validate") => OneOf(Get(n, "validate"), ValidPatterns)
                /\ IsBlock(n) => \A i \in 1..Len(Nested(n)) : CrossItem(Nested(n)[i])
CrossOk(doc) == Has(doc, "tasks") => \A i \in 1..Len(Get(doc, "tasks").v) :
                  LET t == Get(doc, "tasks").v[i][2] IN Has(t, "run") => \A j \in 1..Len(Get(t, "run").v) : CrossItem(Get(t, "run").v[j])
=============================================================================
