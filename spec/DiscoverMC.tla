------------------------------ MODULE DiscoverMC ------------------------------
(* The search as bab performs it - name by name, directory by directory - ends *)
(* at the Babfile Discover specifies, for every tree of three directories.     *)
EXTENDS Discover, TLC
VARIABLES dirs, at, nm, res
vars == <<dirs, at, nm, res>>
Some == {"Babfile", "Babfile.yml", "babfile.yml"}
Dirs == [Some -> {"no", "file", "dir", "broken"}]
Strip(d) == [n \in {n \in DOMAIN d : d[n] # "no"} |-> d[n]]
Init == /\ dirs \in {<<Strip(a), Strip(b)>> : a \in Dirs, b \in Dirs}
        /\ at = 1 /\ nm = 1 /\ res = "searching"
Next == /\ res = "searching" /\ UNCHANGED dirs
        /\ IF at > Len(dirs) THEN res' = "none" /\ UNCHANGED <<at, nm>>
           ELSE IF nm > Len(Names) THEN at' = at + 1 /\ nm' = 1 /\ UNCHANGED res
           ELSE IF Names[nm] \in DOMAIN dirs[at] /\ dirs[at][Names[nm]] \notin {"dir", "broken", "dirlink"} THEN res' = "found" /\ UNCHANGED <<at, nm>>
           ELSE nm' = nm + 1 /\ UNCHANGED <<at, res>>
Right == /\ res = "none" => ~Nearest(dirs).found
         /\ res = "found" => LET w == Nearest(dirs) IN w.found /\ w.dir = at /\ w.name = Names[nm]
==============================================================================
