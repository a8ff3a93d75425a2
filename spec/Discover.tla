------------------------------- MODULE Discover -------------------------------
(* Which Babfile an invocation uses.  dirs: the current directory and its     *)
(* ancestors, nearest first, each a map from file name to kind:               *)
(*   file, bad (not valid), dir, link (to a file), dirlink, broken            *)
EXTENDS Naturals, Sequences, FiniteSets
Names == <<"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml">>
Present(d, n)   == n \in DOMAIN d /\ d[n] \in {"file", "bad", "link"}
HasBabfile(d)   == \E k \in 1..Len(Names) : Present(d, Names[k])
None == [found |-> FALSE, dir |-> 0, name |-> "", kind |-> ""]
Used(dirs, i, n) == [found |-> TRUE, dir |-> i, name |-> n, kind |-> dirs[i][n]]
\* the Babfile used without --babfile
Nearest(dirs) ==
  IF ~\E i \in 1..Len(dirs) : HasBabfile(dirs[i]) THEN None
  ELSE LET i == CHOOSE i \in 1..Len(dirs) : HasBabfile(dirs[i]) /\ \A j \in 1..(i - 1) : ~HasBabfile(dirs[j])
           k == CHOOSE k \in 1..Len(Names) : Present(dirs[i], Names[k]) /\ \A j \in 1..(k - 1) : ~Present(dirs[i], Names[j])
       IN Used(dirs, i, Names[k])
\* with --babfile naming n in directory i
Named(dirs, i, n) == IF i \in 1..Len(dirs) /\ Present(dirs[i], n) THEN Used(dirs, i, n) ELSE None
==============================================================================
