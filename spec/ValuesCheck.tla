------------------------------ MODULE ValuesCheck ------------------------------
(* Observed substitutions and conditions against Values.                      *)
(* entry: [env, scopes: globals then task vars, tenv, items, code, got]       *)
(* item: [k, id, text, env, dir, when]; got: [id, text, env, cwd]             *)
EXTENDS Values, Integers, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)

IMap(m, vars, env) == [k \in DOMAIN m |-> Interp(m[k], vars, env)]
AllOk(m) == \A k \in DOMAIN m : m[k].ok
(* [ok, got]: what the items of the task do, in order                         *)
RECURSIVE Go(_, _, _, _, _, _)
Go(b, i, vars, env, tenv, acc) ==
  IF i > Len(b.items) THEN [ok |-> TRUE, got |-> acc]
  ELSE LET it == b.items[i]
           w  == Cond(it.when, vars, env)
           t  == Interp(it.text, vars, env)
           e  == IMap(MapOf(it.env), vars, env)
           d  == Interp(it.dir, vars, env)
           next(v, a) == Go(b, i + 1, v, env, tenv, a)
       IN IF ~w.ok THEN [ok |-> FALSE, got |-> acc]
          ELSE IF ~w.v THEN next(vars, acc)
          ELSE IF ~t.ok \/ ~AllOk(e) \/ ~d.ok THEN [ok |-> FALSE, got |-> acc]
          ELSE IF it.k = "prompt" THEN
                 IF t.v = "" THEN [ok |-> FALSE, got |-> acc]
                 ELSE next(Over([k \in {it.id} |-> t.v], vars), acc)
          ELSE next(vars, Append(acc, [id |-> it.id, text |-> t.v,
                                       env |-> IF it.k = "log" THEN EmptyMap ELSE Over([k \in DOMAIN e |-> e[k].v], tenv),
                                       cwd |-> IF it.k = "log" THEN "" ELSE IF it.dir = "" THEN b.base ELSE b.base \o "/" \o d.v]))
Want(b) ==
  LET env == MapOf(b.env)
      g   == Scope(MapOf(b.scopes[1]), EmptyMap, env)
      sc  == Scopes([i \in 1..Len(b.scopes) |-> MapOf(b.scopes[i])], EmptyMap, env)
      te  == IMap(MapOf(b.tenv), sc.v, env)
  IN IF ~sc.ok THEN [ok |-> FALSE, got |-> <<>>]
     ELSE IF ~AllOk(te) THEN [ok |-> FALSE, got |-> <<>>]
     ELSE Go(b, 1, sc.v, env, [k \in DOMAIN te |-> te[k].v], <<>>)
Got(b) == [i \in 1..Len(b.got) |-> [id |-> b.got[i].id, text |-> b.got[i].text, env |-> MapOf(b.got[i].env), cwd |-> b.got[i].cwd]]
\* ids of the commands and logs of a log differ; they are written to another stream, so only the order among each kind is seen
Sub(s, k, b) == SelectSeq(s, LAMBDA x : (\E i \in 1..Len(b.items) : b.items[i].id = x.id /\ b.items[i].k = k))
Bad(b) == LET w == Want(b)
              g == Got(b)
          IN (IF (b.code = 0) <=> w.ok THEN {} ELSE {"status"})
             \cup (IF Sub(g, "cmd", b) = Sub(w.got, "cmd", b) THEN {} ELSE {"cmd"})
             \cup (IF Sub(g, "log", b) = Sub(w.got, "log", b) THEN {} ELSE {"log"})
             \cup (IF Len(g) = Len(w.got) THEN {} ELSE {"count"})
Diff(b) == LET w == Want(b)
               g == Got(b)
               I == {i \in 1..Len(w.got) : ~\E j \in 1..Len(g) : g[j] = w.got[i]}
               J == {j \in 1..Len(g) : ~\E i \in 1..Len(w.got) : g[j] = w.got[i]}
           IN [ok |-> w.ok, missing |-> {w.got[i] : i \in I}, unexpected |-> {g[j] : j \in J}]
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), want |-> IF Bad(Batch[i]) = {} THEN {} ELSE {Diff(Batch[i])}]])
=============================================================================
