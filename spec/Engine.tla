------------------------------- MODULE Engine -------------------------------
(* The execution engine of bab: one invocation of `bab <task>`.              *)
(*                                                                           *)
(* A program is a set of tasks; a task has dependencies and a sequence of    *)
(* run items; a parallel block runs its items in threads of their own.       *)
(* The state is the status of every task and, per thread, a stack of frames  *)
(* (a task being run, a parallel block being run, a parallel item).          *)
(*                                                                           *)
(* Observable events: a command starts, ends (chosen by the environment), is *)
(* killed; a log line is written; the cancellation signal is sent; bab       *)
(* exits.  Everything else is a silent step.                                 *)
EXTENDS Values, Integers, TLC

CONSTANT Env                      \* the environment of bab, for ${{ env.X }}

VARIABLES
  prog,      \* the program being run (fixed)
  st,        \* task name -> "idle" | "running" | "ok" | "fail" | "cancel"
  thr,       \* thread id -> thread record
  sig,       \* the cancellation signal has been sent
  dlv,       \* ... and has reached the engine
  out        \* -1, or the exit status 0/1 once bab has exited

evars == <<prog, st, thr, sig, dlv, out>>

Root == <<>>
Finished(s) == s \in {"ok", "fail", "cancel"}

-----------------------------------------------------------------------------
(* Static parts of a program                                                 *)
Tasks(p)   == DOMAIN p.tasks
GlobalScope(p) == Scope(MapOf(p.gvars), EmptyMap, Env)
\* scopes: definitions of the included Babfiles' globals (outermost first)
\* and of the task itself
TaskScope(p, t) ==
  Scopes([i \in 1..Len(p.tasks[t].scopes) |-> MapOf(p.tasks[t].scopes[i])], GlobalScope(p).v, Env)
\* [ok, v]: whether the task's own condition holds
TaskWhen(p, t) ==
  LET w == p.tasks[t].when IN
  IF w = "" THEN Ok(TRUE)
  ELSE LET sc == TaskScope(p, t) IN IF sc.ok THEN Cond(w, sc.v, Env) ELSE Err(FALSE)

-----------------------------------------------------------------------------
(* Threads.  w: what the thread is about to do                               *)
(*   step   continue with the top frame, given ret (result of what it called)*)
(*   claim  enter task a          await  wait until task a is finished       *)
(*   spawn  create the process of command a                                  *)
(*   cmd    command a has been created; seen: its start was observed         *)
(*   reap   command a ended with status code                                 *)
(*   log    write log line a      pre    pre-resolve dependencies of a block *)
(*   slot   wait for a place in the block     join  wait for the items       *)
(*   done   finished with ret                                                *)
Th(fr, w, a, ret) == [fr |-> fr, w |-> w, a |-> a, ret |-> ret, val |-> "", code |-> 0, seen |-> FALSE]

Top(th)    == th.fr[Len(th.fr)]
Pop(th)    == SubSeq(th.fr, 1, Len(th.fr) - 1)
SetTop(th, f) == [th.fr EXCEPT ![Len(th.fr)] = f]
Step(fr, ret) == Th(fr, "step", "", ret)

TFrame(t) == [k |-> "T", t |-> t, ph |-> "deps", i |-> 1, vars |-> EmptyMap, ran |-> 0, cond |-> 0]
PFrame(t, vars, items, limit) ==
  [k |-> "P", t |-> t, vars |-> vars, items |-> items, limit |-> limit, i |-> 1, j |-> 1, first |-> "ok"]
CFrame(t, vars, item) == [k |-> "C", t |-> t, vars |-> vars, item |-> item]

Start(p) == /\ prog = p
            /\ st = [t \in Tasks(p) |-> "idle"]
            /\ thr = (Root :> IF ~GlobalScope(p).ok THEN Th(<<>>, "done", "", "fail")
                              ELSE IF p.main \notin Tasks(p) THEN Th(<<>>, "done", "", "fail")
                              ELSE Th(<<>>, "claim", p.main, "none"))
            /\ sig = FALSE /\ dlv = FALSE /\ out = -1

(* What a thread does with a run item (already known to apply).              *)
ItemOf(th, item, t, vars) ==
  CASE item.k = "cmd" ->
         LET r == Interp(item.text, vars, Env) IN
         IF ~r.ok \/ item.bad THEN Step(th.fr, "fail")
         ELSE [Th(th.fr, "spawn", item.id, "none") EXCEPT !.val = r.v]
    [] item.k = "log" ->
         LET r == Interp(item.text, vars, Env) IN
         IF ~r.ok THEN Step(th.fr, "fail")
         ELSE [Th(th.fr, "log", item.id, "none") EXCEPT !.val = r.v]
    [] item.k = "task" -> Th(th.fr, "claim", item.task, "none")

(* The items of a parallel block that apply; fails if a condition cannot be  *)
(* evaluated.                                                                *)
RECURSIVE Active(_, _, _)
Active(items, i, vars) ==
  IF i > Len(items) THEN Ok(<<>>)
  ELSE IF ~items[i].plat THEN Active(items, i + 1, vars)
  ELSE LET c == Cond(items[i].when, vars, Env) IN
       IF ~c.ok THEN Err(<<>>)
       ELSE LET r == Active(items, i + 1, vars) IN
            IF ~r.ok THEN r ELSE Ok((IF c.v THEN <<items[i]>> ELSE <<>>) \o r.v)

(* A deterministic step of thread th in its top frame: the new thread record *)
(* and the status, if any, given to the task whose frame was popped.         *)
NoTask == [t |-> "", s |-> ""]
Res(th, fin) == [th |-> th, fin |-> fin]
FinishTask(th, r) == Res(Step(Pop(th), r), [t |-> Top(th).t, s |-> r])

RECURSIVE NextItem(_, _)
\* th's top frame is a T frame in phase "run" pointing at item i
NextItem(th, f) ==
  LET items == prog.tasks[f.t].run IN
  IF f.i > Len(items)
  THEN FinishTask(th, IF f.ran = 0 /\ f.cond = 0 THEN "fail" ELSE "ok")
  ELSE IF dlv THEN FinishTask(th, "cancel")
  ELSE LET item == items[f.i]
           c    == Cond(item.when, f.vars, Env) IN
    IF ~item.plat THEN NextItem(th, [f EXCEPT !.i = @ + 1])
    ELSE IF ~c.ok THEN FinishTask(th, "fail")
    ELSE IF ~c.v THEN NextItem(th, [f EXCEPT !.i = @ + 1, !.cond = @ + 1])
    ELSE CASE item.k = "prompt" ->
                LET r == Interp(item.ans, f.vars, Env) IN
                IF ~r.ok \/ ~item.has THEN FinishTask(th, "fail")
                ELSE NextItem(th, [f EXCEPT !.i = @ + 1, !.ran = @ + 1,
                                            !.vars = Over((item.var :> r.v), @)])
           [] item.k = "par" ->
                LET a == Active(item.items, 1, f.vars) IN
                IF ~a.ok THEN FinishTask(th, "fail")
                ELSE IF a.v = <<>> THEN NextItem(th, [f EXCEPT !.i = @ + 1, !.ran = @ + 1])
                ELSE Res(Th(Append(SetTop(th, f), PFrame(f.t, f.vars, a.v, item.limit)),
                            "pre", "", "none"), NoTask)
           [] OTHER -> Res(ItemOf([th EXCEPT !.fr = SetTop(th, f)], item, f.t, f.vars), NoTask)

LocalStep(th) ==
  IF th.fr = <<>> THEN Res(Th(<<>>, "done", "", th.ret), NoTask)
  ELSE LET f == Top(th) IN
  CASE f.k = "T" /\ th.ret \in {"fail", "cancel"} -> FinishTask(th, th.ret)
    [] f.k = "T" /\ f.ph = "deps" /\ ~(th.ret \in {"fail", "cancel"}) ->
         LET g == IF th.ret = "ok" THEN [f EXCEPT !.i = @ + 1] ELSE f
             deps == prog.tasks[f.t].deps IN
         IF g.i <= Len(deps) THEN Res(Th(SetTop(th, g), "claim", deps[g.i], "none"), NoTask)
         ELSE IF prog.tasks[f.t].run = <<>> THEN FinishTask(th, "ok")
         ELSE LET sc == TaskScope(prog, f.t) IN
              IF ~sc.ok THEN FinishTask(th, "fail")
              ELSE NextItem(th, [g EXCEPT !.ph = "run", !.i = 1, !.vars = sc.v])
    [] f.k = "T" /\ f.ph = "run" /\ ~(th.ret \in {"fail", "cancel"}) ->
         NextItem(th, [f EXCEPT !.i = @ + 1, !.ran = @ + 1])
    [] f.k = "P" ->           \* returning from a pre-resolved dependency
         IF th.ret \in {"fail", "cancel"} THEN Res(Step(Pop(th), th.ret), NoTask)
         ELSE Res(Th(SetTop(th, [f EXCEPT !.j = @ + 1]), "pre", "", "none"), NoTask)
    [] f.k = "C" ->
         IF th.ret = "none" THEN Res(ItemOf(th, f.item, f.t, f.vars), NoTask)
         ELSE Res(Step(<<>>, th.ret), NoTask)

-----------------------------------------------------------------------------
(* Silent actions                                                            *)
SetThr(tid, th) == thr' = [thr EXCEPT ![tid] = th]
ApplyFin(fin) == st' = IF fin.t = "" THEN st ELSE [st EXCEPT ![fin.t] = fin.s]

ParentOf(tid) == SubSeq(tid, 1, Len(tid) - 1)
\* a parallel item that ends with an error is the block's error if it is the first
EndThread(tid, th) ==
  IF tid = Root \/ th.ret = "ok" THEN SetThr(tid, th)
  ELSE LET q == ParentOf(tid)
           f == Top(thr[q]) IN
       thr' = [thr EXCEPT ![tid] = th,
                          ![q].fr[Len(thr[q].fr)].first = IF f.first = "ok" THEN th.ret ELSE f.first]

DoStep(tid) ==
  /\ thr[tid].w = "step"
  /\ LET r == LocalStep(thr[tid]) IN
     /\ ApplyFin(r.fin)
     /\ IF r.th.w = "done" THEN EndThread(tid, r.th) ELSE SetThr(tid, r.th)
  /\ UNCHANGED <<prog, sig, dlv, out>>

DoClaim(tid) ==
  /\ thr[tid].w = "claim"
  /\ LET t == thr[tid].a IN
     IF Finished(st[t]) THEN SetThr(tid, Step(thr[tid].fr, st[t])) /\ UNCHANGED st
     ELSE IF st[t] = "running" THEN SetThr(tid, [thr[tid] EXCEPT !.w = "await"]) /\ UNCHANGED st
     ELSE LET c == TaskWhen(prog, t) IN
          IF ~c.ok THEN st' = [st EXCEPT ![t] = "fail"] /\ SetThr(tid, Step(thr[tid].fr, "fail"))
          ELSE IF ~c.v THEN st' = [st EXCEPT ![t] = "ok"] /\ SetThr(tid, Step(thr[tid].fr, "ok"))
          ELSE /\ st' = [st EXCEPT ![t] = "running"]
               /\ SetThr(tid, Step(Append(thr[tid].fr, TFrame(t)), "none"))
  /\ UNCHANGED <<prog, sig, dlv, out>>

DoAwait(tid) ==
  /\ thr[tid].w = "await"
  /\ \/ Finished(st[thr[tid].a]) /\ SetThr(tid, Step(thr[tid].fr, st[thr[tid].a]))
     \/ dlv /\ SetThr(tid, Step(thr[tid].fr, "cancel"))
  /\ UNCHANGED <<prog, st, sig, dlv, out>>

\* dependencies of the tasks referenced by the block, one after another
DoPre(tid) ==
  /\ thr[tid].w = "pre"
  /\ LET th == thr[tid]
         f  == Top(th) IN
     IF f.i > Len(f.items)
     THEN thr' = [x \in DOMAIN thr \cup {Append(tid, n) : n \in 1..Len(f.items)} |->
                    IF x = tid THEN Th(th.fr, "join", "", "none")
                    ELSE IF x \in DOMAIN thr THEN thr[x]
                    ELSE Th(<<CFrame(f.t, f.vars, f.items[x[Len(x)]])>>, "slot", "", "none")]
     ELSE LET item == f.items[f.i]
              nxt  == [th EXCEPT !.fr = SetTop(th, [f EXCEPT !.i = @ + 1, !.j = 1])] IN
       IF item.k # "task" THEN SetThr(tid, nxt)
       ELSE LET c == TaskWhen(prog, item.task)
                deps == prog.tasks[item.task].deps IN
            IF f.j = 1 /\ ~c.ok THEN SetThr(tid, Step(Pop(th), "fail"))
            ELSE IF ~c.v \/ f.j > Len(deps) THEN SetThr(tid, nxt)
            ELSE IF Finished(st[deps[f.j]])
                 THEN SetThr(tid, [th EXCEPT !.fr = SetTop(th, [f EXCEPT !.j = @ + 1])])
            ELSE SetThr(tid, Th(th.fr, "claim", deps[f.j], "none"))
  /\ UNCHANGED <<prog, st, sig, dlv, out>>

Siblings(tid) == {x \in DOMAIN thr : Len(x) = Len(tid) /\ ParentOf(x) = ParentOf(tid)}
Holding(tid) == {x \in Siblings(tid) : thr[x].w \notin {"slot", "done"}}
DoSlot(tid) ==
  /\ thr[tid].w = "slot"
  /\ LET limit == Top(thr[ParentOf(tid)]).limit IN
     \/ /\ limit = 0 \/ Cardinality(Holding(tid)) < limit
        /\ SetThr(tid, Step(thr[tid].fr, "none"))
     \/ /\ dlv /\ limit # 0
        /\ SetThr(tid, Th(<<>>, "done", "", "ok"))
  /\ UNCHANGED <<prog, st, sig, dlv, out>>

Kids(tid) == {x \in DOMAIN thr : Len(x) = Len(tid) + 1 /\ ParentOf(x) = tid}
DoJoin(tid) ==
  /\ thr[tid].w = "join"
  /\ \A x \in Kids(tid) : thr[x].w = "done"
  /\ LET f == Top(thr[tid]).first IN
     \E r \in {f} \cup (IF dlv /\ f = "ok" THEN {"cancel"} ELSE {}) :
       thr' = [x \in DOMAIN thr \ Kids(tid) |->
                 IF x = tid THEN Step(Pop(thr[tid]), r) ELSE thr[x]]
  /\ UNCHANGED <<prog, st, sig, dlv, out>>

DoSpawn(tid) ==
  /\ thr[tid].w = "spawn"
  /\ SetThr(tid, IF dlv THEN Step(thr[tid].fr, "cancel") ELSE [thr[tid] EXCEPT !.w = "cmd"])
  /\ UNCHANGED <<prog, st, sig, dlv, out>>

DoReap(tid) ==
  /\ thr[tid].w = "reap"
  /\ \E r \in {IF thr[tid].code = 0 THEN "ok" ELSE IF dlv THEN "cancel" ELSE "fail"}
              \cup (IF dlv THEN {"cancel"} ELSE {}) :
        SetThr(tid, Step(thr[tid].fr, r))
  /\ UNCHANGED <<prog, st, sig, dlv, out>>

\* killed before it could be observed to start; or not started any more
DoLost(tid) ==
  /\ dlv
  /\ \/ thr[tid].w = "cmd" /\ ~thr[tid].seen
     \/ thr[tid].w = "log"
  /\ SetThr(tid, Step(thr[tid].fr, "cancel"))
  /\ UNCHANGED <<prog, st, sig, dlv, out>>

Deliver == /\ sig /\ ~dlv /\ dlv' = TRUE
           /\ UNCHANGED <<prog, st, thr, sig, out>>

Silent(tid) == DoStep(tid) \/ DoClaim(tid) \/ DoAwait(tid) \/ DoPre(tid) \/ DoSlot(tid)
               \/ DoJoin(tid) \/ DoSpawn(tid) \/ DoReap(tid)

(* Steps that commute with everything other threads can do: they can be      *)
(* taken at once, one thread at a time.  Claiming a task is among them: which *)
(* of two threads claims is not observable, as both continue with its status. *)
(* Not among them: ending a task otherwise than well while other threads      *)
(* exist (DoPre treats a dependency that has failed already differently from  *)
(* one that fails while it waits), and, after a signal, ending a parallel     *)
(* item with an error (the first error is the block's).                       *)
PreLocal(tid) ==
  LET th == thr[tid]
      f  == Top(th) IN
  \/ DOMAIN thr = {Root}
  \/ f.i > Len(f.items)
  \/ f.items[f.i].k # "task"
  \/ Len(prog.tasks[f.items[f.i].task].deps) < f.j
  \/ Finished(st[prog.tasks[f.items[f.i].task].deps[f.j]])
\* some block has to look at the status of a dependency
HasPre == \E t \in Tasks(prog) : \E i \in 1..Len(prog.tasks[t].run) :
            LET it == prog.tasks[t].run[i] IN
            it.k = "par" /\ \E j \in 1..Len(it.items) :
              it.items[j].k = "task" /\ prog.tasks[it.items[j].task].deps # <<>>
BlockFailed(tid) == tid # Root /\ Top(thr[ParentOf(tid)]).first # "ok"
StepLocal(tid) ==
  LET th == thr[tid] IN
  \/ DOMAIN thr = {Root}
  \/ /\ HasPre => LocalStep(th).fin.s \notin {"fail", "cancel"}
     /\ sig => \/ ~(th.fr # <<>> /\ Top(th).k = "C" /\ th.ret \in {"fail", "cancel"})
               \/ BlockFailed(tid)
IsLocal(tid) ==
  LET th == thr[tid] IN
  \/ th.w \in {"reap", "spawn", "claim"}
  \/ th.w = "step" /\ StepLocal(tid)
  \/ th.w = "await" /\ Finished(st[th.a])
  \/ th.w = "join" /\ \A x \in Kids(tid) : thr[x].w = "done"
  \/ th.w = "slot" /\ Top(thr[ParentOf(tid)]).limit = 0
  \/ th.w = "slot" /\ dlv /\ BlockFailed(tid) /\ Top(th).item.k = "cmd"
  \/ th.w = "pre" /\ PreLocal(tid)
LocalThreads == IF sig /\ ~dlv THEN {} ELSE {x \in DOMAIN thr : IsLocal(x)}
\* any deterministic choice will do
SilentNext == IF LocalThreads # {} THEN Silent(CHOOSE x \in LocalThreads : TRUE)
              ELSE (\E x \in DOMAIN thr : Silent(x) \/ DoLost(x)) \/ Deliver

-----------------------------------------------------------------------------
(* Observable actions                                                        *)
CmdStart(id, val) ==
  \E tid \in DOMAIN thr :
     /\ thr[tid].w = "cmd" /\ thr[tid].a = id /\ ~thr[tid].seen /\ thr[tid].val = val
     /\ SetThr(tid, [thr[tid] EXCEPT !.seen = TRUE])
     /\ UNCHANGED <<prog, st, sig, dlv, out>>
CmdEnd(id, code) ==
  \E tid \in DOMAIN thr :
     /\ thr[tid].w = "cmd" /\ thr[tid].a = id /\ thr[tid].seen
     /\ SetThr(tid, [thr[tid] EXCEPT !.w = "reap", !.code = code])
     /\ UNCHANGED <<prog, st, sig, dlv, out>>
CmdKill(id) ==
  /\ dlv
  /\ \E tid \in DOMAIN thr :
       /\ thr[tid].w = "cmd" /\ thr[tid].a = id /\ thr[tid].seen
       /\ SetThr(tid, Step(thr[tid].fr, "cancel"))
  /\ UNCHANGED <<prog, st, sig, dlv, out>>
LogLine(id, val) ==
  \E tid \in DOMAIN thr :
     /\ thr[tid].w = "log" /\ thr[tid].a = id /\ thr[tid].val = val
     /\ SetThr(tid, Step(thr[tid].fr, "ok"))
     /\ UNCHANGED <<prog, st, sig, dlv, out>>
Signal == ~sig /\ sig' = TRUE /\ UNCHANGED <<prog, st, thr, dlv, out>>
Exit(code) ==
  /\ out = -1 /\ thr[Root].w = "done"
  /\ code = IF thr[Root].ret = "fail" THEN 1 ELSE 0
  /\ out' = code
  /\ UNCHANGED <<prog, st, thr, sig, dlv>>

(* No command can be started and nothing but the environment can move on.    *)
Quiet == /\ LocalThreads = {}
         /\ \A tid \in DOMAIN thr :
              \/ thr[tid].w = "cmd" /\ thr[tid].seen
              \/ thr[tid].w \in {"done", "join"}
              \/ thr[tid].w = "await" /\ ~Finished(st[thr[tid].a])
              \/ thr[tid].w = "slot" /\ Cardinality(Holding(tid)) >= Top(thr[ParentOf(tid)]).limit
                                     /\ Top(thr[ParentOf(tid)]).limit # 0
         /\ thr[Root].w # "done"
=============================================================================
