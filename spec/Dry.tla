--------------------------------- MODULE Dry ---------------------------------
(* What `bab --dry-run` reports: the walk over the dependencies and the      *)
(* task's own sequential items under the default prompt answers; task        *)
(* references and parallel blocks are reported as such.                      *)
(* A record is <<kind, what, value>>.                                        *)
EXTENDS Values, Integers, TLC
CONSTANT Env

GScope(p) == Scope(MapOf(p.gvars), EmptyMap, Env)
TScope(p, t) == Scopes([i \in 1..Len(p.tasks[t].scopes) |-> MapOf(p.tasks[t].scopes[i])], GScope(p).v, Env)
TWhen(p, t) == IF p.tasks[t].when = "" THEN Ok(TRUE)
               ELSE LET s == TScope(p, t) IN IF s.ok THEN Cond(p.tasks[t].when, s.v, Env) ELSE Err(FALSE)

\* walk state: records so far, finished tasks, still fine
W(recs, fin, ok) == [recs |-> recs, fin |-> fin, ok |-> ok]
Fail(w) == [w EXCEPT !.ok = FALSE]
Add(w, r) == [w EXCEPT !.recs = Append(@, r)]

RECURSIVE Walk(_, _, _), WalkDeps(_, _, _, _), WalkRun(_, _, _, _, _, _)
\* a task that failed ends the walk, so a finished one is a successful one
Walk(p, t, w) ==
  IF t \in w.fin THEN w
  ELSE LET c == TWhen(p, t) IN
    IF ~c.ok THEN Fail(w)
    ELSE IF ~c.v THEN [w EXCEPT !.fin = @ \cup {t}]
    ELSE LET d == WalkDeps(p, p.tasks[t].deps, 1, w) IN
      IF ~d.ok THEN d
      ELSE IF p.tasks[t].run = <<>> THEN [d EXCEPT !.fin = @ \cup {t}]
      ELSE LET s == TScope(p, t) IN
        IF ~s.ok THEN Fail(d)
        ELSE LET r == WalkRun(p, p.tasks[t].run, 1, s.v, 0, d) IN [r EXCEPT !.fin = @ \cup {t}]
WalkDeps(p, deps, i, w) ==
  IF i > Len(deps) \/ ~w.ok THEN w ELSE WalkDeps(p, deps, i + 1, Walk(p, deps[i], w))
WalkRun(p, run, i, vars, n, w) ==        \* n: items that applied to the platform
  IF i > Len(run) THEN IF n = 0 THEN Fail(w) ELSE w
  ELSE LET it == run[i]
           c  == Cond(it.when, vars, Env) IN
    IF ~it.plat THEN WalkRun(p, run, i + 1, vars, n, w)
    ELSE IF ~c.ok THEN Fail(w)
    ELSE IF ~c.v THEN WalkRun(p, run, i + 1, vars, n + 1, w)
    ELSE CASE it.k = "prompt" ->
                LET a == Interp(it.dry, vars, Env) IN
                IF ~a.ok THEN Fail(w)
                ELSE WalkRun(p, run, i + 1, Over((it.var :> a.v), vars), n + 1, Add(w, <<"prompt", it.var, "">>))
           [] it.k = "cmd" ->
                LET r == Interp(it.text, vars, Env) IN
                IF ~r.ok \/ it.bad THEN Fail(w) ELSE WalkRun(p, run, i + 1, vars, n + 1, Add(w, <<"cmd", it.id, r.v>>))
           [] it.k = "log" ->
                LET r == Interp(it.text, vars, Env) IN
                IF ~r.ok THEN Fail(w) ELSE WalkRun(p, run, i + 1, vars, n + 1, Add(w, <<"log", it.id, r.v>>))
           [] it.k = "task" -> WalkRun(p, run, i + 1, vars, n + 1, Add(w, <<"task", it.task, "">>))
           [] it.k = "par"  -> WalkRun(p, run, i + 1, vars, n + 1, Add(w, <<"par", ToString(Len(it.items)), "">>))
DryRun(p) == IF ~GScope(p).ok \/ p.main \notin DOMAIN p.tasks THEN W(<<>>, {}, FALSE)
             ELSE Walk(p, p.main, W(<<>>, {}, TRUE))
Preview(p) == LET w == DryRun(p) IN SelectSeq(w.recs, LAMBDA r : r[1] = "cmd")
=============================================================================
