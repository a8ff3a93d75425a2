-------------------------------- MODULE Effects --------------------------------
(* What the commands of a set of Babfiles see and show: arguments, working    *)
(* directory, environment, displayed command lines and headers, shown output, *)
(* labels.  Big-step semantics of one run in which every task has one outcome.*)
(* c: [fs: path -> file, root: path, base: absolute directory of the set,     *)
(*     env: environment of bab, dirs: existing directories, tty: BOOLEAN]     *)
(* file: [dir, gdir, env, vars, silent, output, incs, tasks]                  *)
(* task: [name, line, dir, env, vars, silent, output, when, deps, run]        *)
EXTENDS Values, Integers, TLC

Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
First(s) == LET I == {i \in 1..Len(s) : s[i] # ""} IN IF I = {} THEN "" ELSE s[MinOf(I)]

-----------------------------------------------------------------------------
(* Paths                                                                     *)
RECURSIVE Split(_)
Split(p) == LET I == {i \in 1..Len(p) : Ch(p, i) = "/"} IN
            IF I = {} THEN <<p>> ELSE LET i == MinOf(I) IN <<SubSeq(p, 1, i - 1)>> \o Split(From(p, i + 1))
RECURSIVE Clean_(_, _)
Clean_(segs, acc) ==
  IF segs = <<>> THEN acc
  ELSE LET s == segs[1] IN
       Clean_(Tail(segs), IF s \in {"", "."} THEN acc
                          ELSE IF s = ".." THEN (IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
                          ELSE Append(acc, s))
CleanAbs(p) == "/" \o Join(Clean_(Split(p), <<>>), "/")
Under(base, p) == IF HasPrefix(p, "/") THEN CleanAbs(p) ELSE CleanAbs(base \o "/" \o p)

-----------------------------------------------------------------------------
(* The tasks of the set: [name, file, chain of files from the root, prefix]   *)
RECURSIVE FlatOf(_, _, _, _)
FlatOf(c, f, chain, pre) ==
  LET F == c.fs[f]
      ch == Append(chain, f)
  IN {[name |-> pre \o F.tasks[i].name, pre |-> pre, file |-> f, chain |-> ch, t |-> F.tasks[i]] : i \in 1..Len(F.tasks)}
     \cup UNION {FlatOf(c, F.incs[i].file, ch, pre \o F.incs[i].ns \o ":") : i \in 1..Len(F.incs)}
Flat(c) == FlatOf(c, c.root, <<>>, "")
Get(T, n) == CHOOSE x \in T : x.name = n

(* Variables: every Babfile's globals in its own scope, outermost first.      *)
TaskVars(c, x) ==
  Scopes([i \in 1..Len(x.chain) |-> MapOf(c.fs[x.chain[i]].vars)] \o <<MapOf(x.t.vars)>>, EmptyMap, c.env)
(* Where they fail: a Babfile's globals have no line of their own.            *)
VarsErr(c, x) ==
  LET up(n) == Scopes([i \in 1..n |-> MapOf(c.fs[x.chain[i]].vars)], EmptyMap, c.env)
      I == {n \in 1..Len(x.chain) : ~up(n).ok}
  IN IF I = {} THEN <<"undef", x.file, x.t.line, "?">> ELSE <<"undef", x.chain[MinOf(I)], 0, "?">>
(* Environment layers below the command's own, lowest first.                  *)
TaskEnvRaw(c, x) == Layers([i \in 1..Len(x.chain) |-> MapOf(c.fs[x.chain[i]].env)] \o <<MapOf(x.t.env)>>)
InterpMap(m, vars, env) == [k \in DOMAIN m |-> Interp(m[k], vars, env)]
MapOk(m) == \A k \in DOMAIN m : m[k].ok
MapVal(m) == [k \in DOMAIN m |-> m[k].v]
(* Directory: the command's, the task's, the global one of the Babfile it is  *)
(* written in, or that Babfile's own.                                         *)
DirTpl(c, x, it) == First(<<it.dir, x.t.dir, c.fs[x.file].gdir>>)
HomeOf(c, x) == CleanAbs(c.base \o "/" \o c.fs[x.file].dir)
DirOf(c, x, it, vars) ==
  LET d == DirTpl(c, x, it)
      r == Interp(d, vars, c.env)
  IN IF ~r.ok THEN r ELSE Ok(IF d = "" THEN HomeOf(c, x) ELSE Under(HomeOf(c, x), r.v))
(* silent / output: the globals of the task's own Babfile first.              *)
Globals(c, x, k) == [i \in 1..Len(x.chain) |-> c.fs[x.chain[Len(x.chain) + 1 - i]][k]]
Setting(c, x, k, own, ov, dflt) ==
  LET v == First(<<own, ov, x.t[k]>> \o Globals(c, x, k)) IN IF v = "" THEN dflt ELSE v = "t"

(* What colour settings add below the Babfile's layers for captured output.   *)
Capture(nocol) == IF nocol THEN [k \in {"TERM", "NO_COLOR"} |-> IF k = "TERM" THEN "dumb" ELSE "1"]
                  ELSE [k \in {"FORCE_COLOR"} |-> "1"]

-----------------------------------------------------------------------------
(* Running.  m: how the task or item was reached: [ovs, ovo: overrides,       *)
(* lab: labels of the enclosing blocks, nocol].  Results: [ok, done, recs,    *)
(* errs]; done: finished task -> outcome; errs: possible causes of failure.   *)
Res(ok, done, recs, errs) == [ok |-> ok, done |-> done, recs |-> recs, errs |-> errs]
Line(stream, lab, text) == [k |-> "line", s |-> stream, lab |-> lab, text |-> text]

Undef(c, x, line, r) == {<<"undef", x.file, line, r.v>>}
\* the first reference without value, in the order they are looked up, of a map is not fixed
MapUndef(c, x, line, m) == {<<"undef", x.file, line, m[k].v>> : k \in {j \in DOMAIN m : ~m[j].ok}}

Cmd(c, x, it, vars, tenv, m) ==
  LET text == Interp(it.cmd, vars, c.env)
      arg  == Interp(it.arg, vars, c.env)
      cenv == InterpMap(MapOf(it.env), vars, c.env)
      dir  == DirOf(c, x, it, vars)
      out  == Setting(c, x, "output", it.output, m.ovo, TRUE)
      sil  == Setting(c, x, "silent", it.silent, m.ovs, FALSE)
      cap  == m.lab # <<>> /\ out
      env  == Over(MapVal(cenv), Over(tenv, IF cap THEN Over(Capture(m.nocol), c.env) ELSE c.env))
  IN IF ~text.ok THEN [ok |-> FALSE, recs |-> <<>>, errs |-> Undef(c, x, it.line, text)]
     ELSE IF ~MapOk(cenv) THEN [ok |-> FALSE, recs |-> <<>>, errs |-> MapUndef(c, x, it.line, cenv)]
     ELSE IF ~dir.ok THEN [ok |-> FALSE, recs |-> <<>>, errs |-> Undef(c, x, it.line, dir)]
     ELSE IF dir.v \notin c.dirs THEN [ok |-> FALSE, recs |-> <<>>, errs |-> {<<"dir", x.file, 0, dir.v>>}]
     ELSE [ok   |-> it.code = 0,
           errs |-> IF it.code = 0 THEN {} ELSE {<<"cmd", x.file, 0, it.id>>},
           recs |-> (IF sil THEN <<>> ELSE <<Line("err", m.lab, "$ " \o text.v)>>)
                    \o <<[k |-> "cmd", id |-> it.id, arg |-> arg.v, cwd |-> dir.v, env |-> env]>>
                    \o (IF out THEN <<Line("out", m.lab, "OUT:" \o it.id), Line("err", m.lab, "ERR:" \o it.id)>> ELSE <<>>)]

Label(x, it) == IF it.label # "" THEN it.label
                ELSE IF it.k = "task" THEN x.pre \o it.task
                ELSE LET s == SplitLines(Trim(IF it.k = "cmd" THEN it.cmd ELSE it.text))[1] IN Trim(SubSeq(s, 1, IF Len(s) > 20 THEN 20 ELSE Len(s)))

RECURSIVE RunT(_, _, _, _, _, _), RunDeps(_, _, _, _, _, _), RunItems(_, _, _, _, _, _, _, _, _), RunPar(_, _, _, _, _, _, _, _), RunBlock(_, _, _, _, _, _, _, _), Pre(_, _, _, _, _)

RunT(c, T, n, m, main, done) ==
  IF n \in DOMAIN done THEN Res(done[n], done, <<>>, {})
  ELSE LET x    == Get(T, n)
           tv   == TaskVars(c, x)
           when == IF x.t.when = "" THEN Ok(TRUE) ELSE IF tv.ok THEN Cond(x.t.when, tv.v, c.env) ELSE Err(FALSE)
           sil  == Setting(c, x, "silent", "", m.ovs, FALSE)
           head == IF sil THEN <<>> ELSE <<Line("err", m.lab, (IF main THEN "RUN " ELSE "DEP ") \o n)>>
           fin(r) == [r EXCEPT !.done = Over([k \in {n} |-> r.ok], @)]
           te   == InterpMap(TaskEnvRaw(c, x), tv.v, c.env)
       IN IF ~when.ok THEN fin(Res(FALSE, done, <<>>, {IF tv.ok THEN <<"undef", x.file, x.t.line, "?">> ELSE VarsErr(c, x)}))
          ELSE IF ~when.v THEN fin(Res(TRUE, done, <<>>, {}))
          ELSE LET d == RunDeps(c, T, x, 1, m, Res(TRUE, done, head, {})) IN
               IF ~d.ok \/ x.t.run = <<>> THEN fin(d)
               ELSE IF ~tv.ok THEN fin([d EXCEPT !.ok = FALSE, !.errs = @ \cup {VarsErr(c, x)}])
               ELSE IF ~MapOk(te) THEN fin([d EXCEPT !.ok = FALSE, !.errs = @ \cup MapUndef(c, x, x.t.line, te)])
               ELSE fin(RunItems(c, T, x, x.t.run, 1, tv.v, MapVal(te), m, d))

\* a dependency is reached through no reference: it has no overrides
RunDeps(c, T, x, i, m, acc) ==
  IF i > Len(x.t.deps) \/ ~acc.ok THEN acc
  ELSE LET r == RunT(c, T, x.pre \o x.t.deps[i], [m EXCEPT !.ovs = "", !.ovo = ""], FALSE, acc.done)
       IN RunDeps(c, T, x, i + 1, m, Res(r.ok, r.done, acc.recs \o r.recs, acc.errs \cup r.errs))

\* a message is one line for each of its own lines, the first marked with the level; neither silent nor output hides it
Level(l) == IF l = "" THEN "INFO " ELSE IF l = "debug" THEN "DEBUG " ELSE IF l = "warn" THEN "WARN " ELSE IF l = "error" THEN "ERROR " ELSE "INFO "
LogLines(m, level, msg) ==
  LET parts == SplitLines(msg) IN
  [i \in 1..Len(parts) |-> Line(IF m.lab = <<>> THEN "err" ELSE "out", m.lab, (IF i = 1 THEN Level(level) ELSE "") \o parts[i])]

One(c, T, x, it, vars, tenv, m, acc) ==
  IF it.k = "cmd" THEN LET r == Cmd(c, x, it, vars, tenv, m) IN Res(r.ok, acc.done, acc.recs \o r.recs, acc.errs \cup r.errs)
  ELSE IF it.k = "log" THEN
       LET t == Interp(it.text, vars, c.env) IN
       IF t.ok THEN [acc EXCEPT !.recs = IF it.level = "debug" /\ ~c.verbose THEN @ ELSE @ \o LogLines(m, it.level, t.v)]
       ELSE [acc EXCEPT !.ok = FALSE, !.errs = @ \cup Undef(c, x, it.line, t)]
  ELSE LET r == RunT(c, T, x.pre \o it.task, [m EXCEPT !.ovs = First(<<it.silent, m.ovs>>), !.ovo = First(<<it.output, m.ovo>>)], FALSE, acc.done)
       IN Res(r.ok, r.done, acc.recs \o r.recs, acc.errs \cup r.errs)

RunItems(c, T, x, run, i, vars, tenv, m, acc) ==
  IF i > Len(run) \/ ~acc.ok THEN acc
  ELSE LET it == run[i]
           w  == Cond(it.when, vars, c.env)
       IN IF ~w.ok THEN [acc EXCEPT !.ok = FALSE, !.errs = @ \cup {<<"undef", x.file, it.line, "?">>}]
          ELSE IF ~w.v THEN RunItems(c, T, x, run, i + 1, vars, tenv, m, acc)
          ELSE IF it.k = "prompt" THEN
               LET a == Interp(it.ans, vars, c.env) IN
               IF a.ok THEN RunItems(c, T, x, run, i + 1, Over([k \in {it.var} |-> a.v], vars), tenv, m, acc)
               ELSE [acc EXCEPT !.ok = FALSE, !.errs = @ \cup Undef(c, x, it.line, a)]
          ELSE RunItems(c, T, x, run, i + 1, vars, tenv, m,
                 IF it.k = "par" THEN RunPar(c, T, x, it, vars, tenv, m, acc)
                 ELSE One(c, T, x, it, vars, tenv, m, acc))

RunPar(c, T, x, b, vars, tenv, m, acc) ==
  LET W == [i \in 1..Len(b.items) |-> Cond(b.items[i].when, vars, c.env)]
      bad == {i \in 1..Len(b.items) : ~W[i].ok}
      act == SelectSeq([i \in 1..Len(b.items) |-> [it |-> b.items[i], on |-> W[i].ok /\ W[i].v]], LAMBDA e : e.on)
      m2  == [m EXCEPT !.ovs = First(<<b.silent, m.ovs>>), !.ovo = First(<<b.output, m.ovo>>), !.nocol = m.nocol \/ b.color = "f"]
      \* tasks of the block whose own condition cannot be evaluated
      badt == {i \in 1..Len(act) : act[i].it.k = "task" /\
                 LET y == Get(T, x.pre \o act[i].it.task)
                     sc == TaskVars(c, y)
                 IN y.t.when # "" /\ (~sc.ok \/ ~Cond(y.t.when, sc.v, c.env).ok)}
  IN IF bad = {} /\ badt # {} THEN
       LET S == {Get(T, x.pre \o act[i].it.task) : i \in badt} IN
       [acc EXCEPT !.ok = FALSE, !.errs = @ \cup {IF TaskVars(c, y).ok THEN <<"undef", y.file, y.t.line, "?">> ELSE VarsErr(c, y) : y \in S}]
     ELSE IF bad # {} THEN [acc EXCEPT !.ok = FALSE, !.errs = @ \cup {<<"undef", x.file, b.items[MinOf(bad)].line, "?">>}]
     ELSE LET p == Pre(c, T, Flatten([i \in 1..Len(act) |-> IF act[i].it.k # "task" THEN <<>>
                                       ELSE LET y == Get(T, x.pre \o act[i].it.task)
                                                sc == TaskVars(c, y)
                                                w == IF y.t.when = "" THEN TRUE ELSE sc.ok /\ Cond(y.t.when, sc.v, c.env).ok /\ Cond(y.t.when, sc.v, c.env).v
                                            IN IF w THEN [j \in 1..Len(y.t.deps) |-> y.pre \o y.t.deps[j]] ELSE <<>>]), m2, acc)
          IN IF ~p.ok THEN p ELSE RunBlock(c, T, x, [i \in 1..Len(act) |-> act[i].it], vars, tenv, m2, p)

\* the dependencies of the block's tasks are reached through the block
Pre(c, T, deps, m, acc) ==
  IF deps = <<>> \/ ~acc.ok THEN acc
  ELSE LET r == RunT(c, T, deps[1], m, FALSE, acc.done)
       IN Pre(c, T, Tail(deps), m, Res(r.ok, r.done, acc.recs \o r.recs, acc.errs \cup r.errs))

\* every item runs, whatever happens to its siblings
RunBlock(c, T, x, items, vars, tenv, m, acc) ==
  IF items = <<>> THEN acc
  ELSE LET r == One(c, T, x, items[1], vars, tenv, [m EXCEPT !.lab = Append(@, Label(x, items[1]))], [acc EXCEPT !.ok = TRUE])
           q == RunBlock(c, T, x, Tail(items), vars, tenv, m, r)
       IN [q EXCEPT !.ok = q.ok /\ r.ok /\ acc.ok]

Behaviour(c, n) ==
  LET root == Scope(MapOf(c.fs[c.root].vars), EmptyMap, c.env) IN
  IF ~root.ok THEN Res(FALSE, EmptyMap, <<>>, {<<"undef", c.root, 0, "?">>})
  ELSE RunT(c, Flat(c), n, [ovs |-> "", ovo |-> "", lab |-> <<>>, nocol |-> FALSE], TRUE, EmptyMap)
=============================================================================
