--------------------------------- MODULE Load ---------------------------------
(* Loading a set of Babfiles: merging of includes under their namespaces,    *)
(* references, cycles, aliases, and the diagnostics of a rejected set.       *)
(* fs: path -> [exists, incs: Seq([ns, file]), tasks: Seq([name, line,       *)
(*      depsline, aliases, desc, deps, refs: Seq([task, line]), ids])]             *)
EXTENDS Str, Integers, TLC

RangeOf(s) == {s[i] : i \in 1..Len(s)}
Prefixed(ns, f, t) == [t EXCEPT !.name = ns \o ":" \o @, !.aliases = [i \in 1..Len(@) |-> ns \o ":" \o @[i]],
                               !.deps = [i \in 1..Len(@) |-> ns \o ":" \o @[i]],
                               !.refs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.task = ns \o ":" \o @]]]
With(t, f) == [name |-> t.name, line |-> t.line, depsline |-> t.depsline, aliases |-> t.aliases, desc |-> t.desc,
               deps |-> t.deps, refs |-> t.refs, ids |-> t.ids, file |-> f]

(* [ok, tasks: set of merged tasks, errs: set of possible sets of diagnostics] *)
DupTasks(fs, f) == {<<"duptask", f, fs[f].tasks[j].line, fs[f].tasks[j].name>> :
                      j \in {x \in 1..Len(fs[f].tasks) : \E i \in 1..(x-1) : fs[f].tasks[i].name = fs[f].tasks[x].name}}
RECURSIVE BaseName(_)
BaseName(p) == IF \E i \in 1..Len(p) : Ch(p, i) = "/" THEN BaseName(From(p, 1 + (CHOOSE i \in 1..Len(p) : Ch(p, i) = "/"))) ELSE p
\* a failing include is reported with the places of the includes that lead to it, outermost first
\* (a defect of a single file - duplicate tasks - is reported with its own place)
At(f, inc, E) == {IF e[1] \in {"inccycle", "nofile", "clash"} THEN <<e[1], <<<<f, inc.line>>>> \o e[2], 0, e[4]>> ELSE e : e \in E}
FirstOf(stack, f) == CHOOSE i \in 1..Len(stack) : stack[i] = f
\* stack: the files on the way to f, outermost first
RECURSIVE LoadFile(_, _, _)
LoadFile(fs, f, stack) ==
  IF f \in RangeOf(stack) THEN [ok |-> FALSE, tasks |-> {}, errs |-> {{<<"inccycle", <<>>, 0, [i \in 1..(Len(stack) - FirstOf(stack, f) + 2) |-> IF i + FirstOf(stack, f) - 1 <= Len(stack) THEN BaseName(stack[i + FirstOf(stack, f) - 1]) ELSE BaseName(f)]>>}}]
  ELSE IF f \notin DOMAIN fs \/ ~fs[f].exists THEN [ok |-> FALSE, tasks |-> {}, errs |-> {{<<"nofile", <<>>, 0, f>>}}]
  ELSE IF DupTasks(fs, f) # {} THEN [ok |-> FALSE, tasks |-> {}, errs |-> {DupTasks(fs, f)}]
  ELSE LET own  == {With(fs[f].tasks[i], f) : i \in 1..Len(fs[f].tasks)}
           I    == 1..Len(fs[f].incs)
           sub  == [i \in I |-> LoadFile(fs, fs[f].incs[i].file, Append(stack, f))]
           pre  == [i \in I |-> {Prefixed(fs[f].incs[i].ns, f, t) : t \in sub[i].tasks}]
           names(S) == {t.name : t \in S}
           clashing(i) == names(pre[i]) \cap (names(own) \cup UNION {names(pre[j]) : j \in I \ {i}})
           clash == \E i \in I : clashing(i) # {}
           bad  == {i \in I : ~sub[i].ok}
       IN IF bad # {} \/ clash
          THEN [ok |-> FALSE, tasks |-> {},
                errs |-> UNION {{At(f, fs[f].incs[i], E) : E \in sub[i].errs} : i \in bad}
                         \cup UNION {{At(f, fs[f].incs[i], {<<"clash", <<>>, 0, n>>}) : n \in clashing(i)} : i \in I}]
          ELSE [ok |-> TRUE, tasks |-> own \cup UNION {pre[i] : i \in I}, errs |-> {}]

Names(T) == {t.name : t \in T}
TaskOf(T, n) == CHOOSE t \in T : t.name = n

MissingDeps(T) == UNION {{<<"missing", t.file, t.depsline, d>> : d \in {x \in RangeOf(t.deps) : x \notin Names(T)}} : t \in T}
MissingRefs(T) == UNION {{<<"missing", t.file, r.line, r.task>> : r \in {x \in RangeOf(t.refs) : x.task \notin Names(T)}} : t \in T}
Conflicts(T) == UNION {{<<"conflict", t.file, t.line, a>> : a \in {x \in RangeOf(t.aliases) : x # "" /\ x \in Names(T)}} : t \in T}
AllAliases(T) == UNION {RangeOf(t.aliases) : t \in T} \ {""}
Holders(T, a) == {t \in T : a \in RangeOf(t.aliases)}
DupAliases(T) == {a \in AllAliases(T) \ Names(T) :
                    \/ Cardinality(Holders(T, a)) > 1
                    \/ \E t \in T : \E i, j \in 1..Len(t.aliases) : i # j /\ t.aliases[i] = a /\ t.aliases[j] = a}
Edges(T) == UNION {{<<t.name, d, t.file, t.depsline>> : d \in RangeOf(t.deps) \cap Names(T)}
                   \cup {<<t.name, r.task, t.file, r.line>> : r \in {x \in RangeOf(t.refs) : x.task \in Names(T)}} : t \in T}
RECURSIVE Reach(_, _)
Reach(E, S) == LET N == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF N = S THEN S ELSE Reach(E, N)
After(E, n) == Reach(E, {e[2] : e \in {x \in E : x[1] = n}})
OnCycle(T) == LET E == Edges(T) IN {n \in Names(T) : n \in After(E, n)}

Sound(T) == MissingDeps(T) = {} /\ MissingRefs(T) = {} /\ Conflicts(T) = {} /\ DupAliases(T) = {} /\ OnCycle(T) = {}
Accepted(fs, root) == LET r == LoadFile(fs, root, <<>>) IN r.ok /\ Sound(r.tasks)

\* names under which tasks can be run, and the task each selects
Callable(T) == Names(T) \cup AllAliases(T)
Selects(T, n) == IF n \in Names(T) THEN n ELSE (CHOOSE t \in T : n \in RangeOf(t.aliases)).name
\* commands executed by running n when nothing fails
Executed(T, n) == LET E == Edges(T) IN UNION {RangeOf(TaskOf(T, m).ids) : m \in Reach(E, {n})}

RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN Len(t.ids) + SumLen(S \ {t})
NExecuted(T, n) == LET E == Edges(T) IN SumLen({TaskOf(T, m) : m \in Reach(E, {n})})

-----------------------------------------------------------------------------
(* Diagnostics: <<kind, file, line, name>>; for a cycle, name is the chain.   *)
CycleOk(T, d) ==
  LET c == d[4]
      E == Edges(T)
      n == Len(c)
  IN /\ n >= 2 /\ c[1] = c[n]
     /\ \A i \in 1..(n-1) : \E e \in E : e[1] = c[i] /\ e[2] = c[i+1]
     /\ \E e \in E : e[1] = c[n-1] /\ e[2] = c[n] /\ e[3] = d[2] /\ e[4] = d[3]
Of(D, k) == {d \in D : d[1] = k}
DiagsOk(T, D) ==
  /\ Of(D, "missing") = MissingDeps(T) \cup MissingRefs(T)
  /\ Of(D, "conflict") = Conflicts(T)
  /\ \A d \in Of(D, "cycle") : CycleOk(T, d)
  /\ \A n \in OnCycle(T) : \E d \in Of(D, "cycle") : \E i \in 1..Len(d[4]) :
        d[4][i] \in After(Edges(T), n) /\ n \in After(Edges(T), d[4][i])
  /\ \A d \in Of(D, "dupalias") : d[4] \in DupAliases(T) /\ \E t \in Holders(T, d[4]) : t.file = d[2] /\ t.line = d[3]
  /\ \A a \in DupAliases(T) :
        LET H == {<<t.file, t.line>> : t \in Holders(T, a)}
            R == {<<d[2], d[3]>> : d \in {x \in Of(D, "dupalias") : x[4] = a}}
        IN R # {} /\ Cardinality(H \ R) <= 1
  /\ \A d \in D : d[1] \in {"missing", "conflict", "cycle", "dupalias"}
=============================================================================
