-------------------------------- MODULE Report --------------------------------
(* What bab says about a set of Babfiles: a report is a function of the files, *)
(* the arguments and the environment, and a name it offers in place of an      *)
(* unknown one exists at that place.                                           *)
(*                                                                             *)
(* A reporter goes through its stages (reading a file, following includes,     *)
(* checking references, resolving variables) and in a stage through the named  *)
(* things there; a stage stops at the first problem or collects all.  Which of *)
(* the things left is looked at next is all that is open: Order "any" leaves   *)
(* it to chance, as the iteration over a Go map does, "sorted" fixes it.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* stages: sequence of [stops: BOOLEAN, has: things with a problem, of: all things]
Begin == [at |-> 1, seen |-> {}, said |-> <<>>]
Done(stages, r) == r.at > Len(stages)
Pick(left, order) == IF order = "any" THEN left ELSE {CHOOSE x \in left : \A y \in left : x <= y}
Steps(stages, r, order) ==
  LET st == stages[r.at]   left == st.of \ r.seen IN
  IF left = {} THEN {[r EXCEPT !.at = IF r.said # <<>> THEN Len(stages) + 1 ELSE @ + 1, !.seen = {}]}
  ELSE {LET bad == x \in st.has IN
        [at |-> IF bad /\ st.stops THEN Len(stages) + 1 ELSE r.at,
         seen |-> IF bad /\ st.stops THEN {} ELSE r.seen \cup {x},
         said |-> IF bad THEN Append(r.said, <<r.at, x>>) ELSE r.said] : x \in Pick(left, order)}

----------------------------------------------------------------------------
\* names.  set: file -> [vars, incs: namespace -> file, tasks: name -> [vars, asks, aliases]]
RECURSIVE Tasks(_, _), Aliases(_, _)
Tasks(set, f) == DOMAIN set[f].tasks \cup UNION {{ns \o ":" \o t : t \in Tasks(set, set[f].incs[ns])} : ns \in DOMAIN set[f].incs}
Aliases(set, f) == UNION {set[f].tasks[t].aliases : t \in DOMAIN set[f].tasks} \cup UNION {{ns \o ":" \o t : t \in Aliases(set, set[f].incs[ns])} : ns \in DOMAIN set[f].incs}
\* the files through which f is included from file g, g first
RECURSIVE Through(_, _, _)
Through(set, g, f) == IF g = f THEN {f} ELSE
  LET down == UNION {Through(set, set[g].incs[ns], f) : ns \in DOMAIN set[g].incs} IN IF down = {} THEN {} ELSE down \cup {g}
\* place: [file, task ("" for the variables of the file), asks (answers there)]
Visible(set, root, p) == UNION {set[g].vars : g \in Through(set, root, p.file)}
                         \cup (IF p.task = "" THEN {} ELSE set[p.file].tasks[p.task].vars)
                         \cup p.asks
==============================================================================
