----------------------------- MODULE EngineProps -----------------------------
(* What a user may rely on, stated over observable histories and independent *)
(* of the machine in Engine: a denotational meaning of programs, and the     *)
(* ordering properties of histories.  A history is a sequence of events      *)
(* [e, id, ..] with e in start, end, kill, log, sig, exit.                   *)
EXTENDS Values, Integers, TLC

CONSTANT Env

ItemsOf(run) == UNION {IF run[i].k = "par" THEN {run[i].items[j] : j \in 1..Len(run[i].items)} ELSE {run[i]} : i \in 1..Len(run)}
Cmds(items) == {x.id : x \in {y \in items : y.k = "cmd"}}
Refs2(items) == {x.task : x \in {y \in items : y.k = "task"}}
SubItems(item) == IF item.k = "par" THEN {item.items[j] : j \in 1..Len(item.items)} ELSE {item}
\* tasks reachable from a set of tasks
TaskSucc(p, t) == {p.tasks[t].deps[i] : i \in 1..Len(p.tasks[t].deps)} \cup Refs2(ItemsOf(p.tasks[t].run))
RECURSIVE ReachT(_, _)
ReachT(p, S) == LET N == S \cup UNION {TaskSucc(p, t) : t \in S} IN IF N = S THEN S ELSE ReachT(p, N)
OwnCmds(p, t) == Cmds(ItemsOf(p.tasks[t].run))
AllCmds(p, S) == UNION {OwnCmds(p, t) : t \in ReachT(p, S)}
\* the commands an item can lead to
ItemCmds(p, item) == Cmds(SubItems(item)) \cup AllCmds(p, Refs2(SubItems(item)))

-----------------------------------------------------------------------------
(* Meaning of a program for a set F of failing commands: does it succeed,    *)
(* and (if so) which commands are executed.  No schedule is involved.        *)
GScope(p) == Scope(MapOf(p.gvars), EmptyMap, Env)
TScope(p, t) == Scopes([i \in 1..Len(p.tasks[t].scopes) |-> MapOf(p.tasks[t].scopes[i])], GScope(p).v, Env)
TWhen(p, t) == IF p.tasks[t].when = "" THEN Ok(TRUE)
               ELSE LET s == TScope(p, t) IN IF s.ok THEN Cond(p.tasks[t].when, s.v, Env) ELSE Err(FALSE)

RECURSIVE TaskOk(_, _, _), ItemsOk(_, _, _, _, _, _, _), ItemOk(_, _, _, _)
TaskOk(p, F, t) ==
  LET w == TWhen(p, t) IN
  w.ok /\ (w.v =>
    /\ \A i \in 1..Len(p.tasks[t].deps) : TaskOk(p, F, p.tasks[t].deps[i])
    /\ \/ p.tasks[t].run = <<>>
       \/ LET s == TScope(p, t) IN s.ok /\ ItemsOk(p, F, p.tasks[t].run, 1, s.v, 0, 0))
ItemsOk(p, F, run, i, vars, ran, cond) ==
  IF i > Len(run) THEN ran + cond > 0
  ELSE LET it == run[i]
           c  == Cond(it.when, vars, Env) IN
    IF ~it.plat THEN ItemsOk(p, F, run, i + 1, vars, ran, cond)
    ELSE c.ok /\ IF ~c.v THEN ItemsOk(p, F, run, i + 1, vars, ran, cond + 1)
                 ELSE IF it.k = "prompt"
                      THEN LET a == Interp(it.ans, vars, Env) IN
                           a.ok /\ it.has /\ ItemsOk(p, F, run, i + 1, Over((it.var :> a.v), vars), ran + 1, cond)
                      ELSE ItemOk(p, F, it, vars) /\ ItemsOk(p, F, run, i + 1, vars, ran + 1, cond)
ItemOk(p, F, it, vars) ==
  CASE it.k = "cmd"  -> Interp(it.text, vars, Env).ok /\ ~it.bad /\ it.id \notin F
    [] it.k = "log"  -> Interp(it.text, vars, Env).ok
    [] it.k = "task" -> TaskOk(p, F, it.task)
    [] it.k = "par"  ->
         \A j \in 1..Len(it.items) :
            LET x == it.items[j]
                c == Cond(x.when, vars, Env) IN
            x.plat => c.ok /\ (c.v => ItemOk(p, F, x, vars))
ProgOk(p, F) == GScope(p).ok /\ p.main \in DOMAIN p.tasks /\ TaskOk(p, F, p.main)

RECURSIVE TaskCmds(_, _), RunCmds(_, _, _, _), ItCmds(_, _, _)
TaskCmds(p, t) ==
  IF ~TWhen(p, t).v THEN {}
  ELSE UNION {TaskCmds(p, p.tasks[t].deps[i]) : i \in 1..Len(p.tasks[t].deps)}
       \cup RunCmds(p, p.tasks[t].run, 1, TScope(p, t).v)
RunCmds(p, run, i, vars) ==
  IF i > Len(run) THEN {}
  ELSE LET it == run[i] IN
    IF ~it.plat \/ ~Cond(it.when, vars, Env).v THEN RunCmds(p, run, i + 1, vars)
    ELSE IF it.k = "prompt" THEN RunCmds(p, run, i + 1, Over((it.var :> Interp(it.ans, vars, Env).v), vars))
    ELSE ItCmds(p, it, vars) \cup RunCmds(p, run, i + 1, vars)
ItCmds(p, it, vars) ==
  CASE it.k = "cmd"  -> {<<it.id, Interp(it.text, vars, Env).v>>}
    [] it.k = "log"  -> {}
    [] it.k = "task" -> TaskCmds(p, it.task)
    [] it.k = "par"  -> UNION {LET x == it.items[j] IN
                                IF x.plat /\ Cond(x.when, vars, Env).v THEN ItCmds(p, x, vars) ELSE {}
                               : j \in 1..Len(it.items)}

-----------------------------------------------------------------------------
(* Histories                                                                 *)
Idx(h) == 1..Len(h)
Starts(h, S) == {i \in Idx(h) : h[i].e = "start" /\ h[i].id \in S}
\* every command of A that is ever started has ended before any command of B starts
AllBefore(h, A, B) ==
  \A j \in Starts(h, B) : \A i \in Starts(h, A) :
     i < j /\ \E k \in (i+1)..(j-1) : h[k].e \in {"end", "kill"} /\ h[k].id = h[i].id

Once(h) == \A i, j \in Idx(h) : h[i].e = "start" /\ h[j].e = "start" /\ h[i].id = h[j].id => i = j
DepsFirst(p, h) ==
  \A t \in DOMAIN p.tasks :
     AllBefore(h, AllCmds(p, {p.tasks[t].deps[i] : i \in 1..Len(p.tasks[t].deps)}), OwnCmds(p, t))
ItemsInOrder(p, h) ==
  \A t \in DOMAIN p.tasks : \A i, j \in 1..Len(p.tasks[t].run) :
     i < j => AllBefore(h, ItemCmds(p, p.tasks[t].run[i]), Cmds(SubItems(p.tasks[t].run[j])))
PreDeps(p, h) ==
  \A t \in DOMAIN p.tasks : \A i \in 1..Len(p.tasks[t].run) :
     LET it == p.tasks[t].run[i] IN it.k = "par" =>
       \A j \in 1..Len(it.items) : it.items[j].k = "task" /\ it.items[j].when = "" /\ it.items[j].plat
                                   /\ p.tasks[it.items[j].task].when = "" =>
          AllBefore(h, AllCmds(p, {p.tasks[it.items[j].task].deps[x] : x \in 1..Len(p.tasks[it.items[j].task].deps)}),
                    Cmds(SubItems(it)))
\* running commands of a block never exceed its limit
LimitKept(p, h) ==
  \A t \in DOMAIN p.tasks : \A i \in 1..Len(p.tasks[t].run) :
     LET it == p.tasks[t].run[i] IN it.k = "par" /\ it.limit > 0 =>
       \A k \in Idx(h) :
         Cardinality({c \in Cmds(SubItems(it)) : /\ \E m \in 1..k : h[m].e = "start" /\ h[m].id = c
                                                 /\ ~\E m \in 1..k : h[m].e \in {"end", "kill"} /\ h[m].id = c}) <= it.limit
Failed(h) == {h[i].id : i \in {k \in Idx(h) : h[k].e = "end" /\ h[k].code # 0}}
\* after a failure of an item (by a command of the item itself) no later item's command starts,
\* and no command of a task that needs the failed task
Contained(p, h) ==
  \A t \in DOMAIN p.tasks : \A i \in 1..Len(p.tasks[t].run) :
     Cmds(SubItems(p.tasks[t].run[i])) \cap Failed(h) # {} =>
       /\ \A j \in (i+1)..Len(p.tasks[t].run) : Starts(h, Cmds(SubItems(p.tasks[t].run[j]))) = {}
       /\ \A u \in DOMAIN p.tasks :
            t \in {p.tasks[u].deps[x] : x \in 1..Len(p.tasks[u].deps)} => Starts(h, OwnCmds(p, u)) = {}
ExitOf(h) == IF h # <<>> /\ h[Len(h)].e = "exit" THEN h[Len(h)].code ELSE -1
Cancelled(h) == \E i \in Idx(h) : h[i].e = "sig"
\* without cancellation the exit status is the denotation, for every schedule;
\* and if all is well exactly the denoted commands ran
Outcome(p, h) ==
  ExitOf(h) # -1 /\ ~Cancelled(h) =>
    LET F == Failed(h) IN
    /\ (ExitOf(h) = 0) <=> ProgOk(p, F)
    /\ ExitOf(h) = 0 => {<<h[i].id, h[i].val>> : i \in {k \in Idx(h) : h[k].e = "start"}} = TaskCmds(p, p.main)
\* nothing is left running
Settled(h) == ExitOf(h) # -1 =>
   \A i \in Idx(h) : h[i].e = "start" => \E k \in i..Len(h) : h[k].e \in {"end", "kill"} /\ h[k].id = h[i].id
KillsOnlyCancelled(h) == \A i \in Idx(h) : h[i].e = "kill" => \E k \in 1..i : h[k].e = "sig"
=============================================================================
