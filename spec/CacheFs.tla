------------------------------- MODULE CacheFs -------------------------------
(* The file of the update check on a file system that may lose what was not   *)
(* synced, written by several processes at the same time.  The programs are   *)
(* the file operations recorded from real runs.                               *)
(* Batch: [cases]; case: [init, progs, good]                                  *)
(*   init: <<[name, data]>> files that are there and durable                  *)
(*   progs: sequences of operations                                           *)
(*     [op |-> "open", h, name, creat, excl, trunc]  [op |-> "write", h, data]*)
(*     [op |-> "trunc", h]  [op |-> "fsync", h]  [op |-> "fsyncdir"]          *)
(*     [op |-> "rename", from, to]  [op |-> "link", from, to]                 *)
(*     [op |-> "unlink", name]                                                *)
(*   good: the complete records (the contents the file may have)              *)
(* A file is an inode: [cur, dur]: what reads see, what has been synced.      *)
(* pend: the changes of the directory since it was synced.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES c, pc, ino, dir, base, pend, fds, dead
(* base: the inode the name of the cache had when the directory was synced    *)
Case == Batch[c]
Procs == 1..Len(Case.progs)
Cache == "cache"

First == LET is == {i \in 1..Len(Case.init) : Case.init[i].name = Cache} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
Init == /\ c \in 1..Len(Batch)
        /\ pc = [p \in Procs |-> 1] /\ dead = {}
        /\ ino = [i \in 1..Len(Case.init) |-> [cur |-> Case.init[i].data, dur |-> Case.init[i].data]]
        /\ dir = [nm \in {Case.init[i].name : i \in 1..Len(Case.init)} |-> CHOOSE i \in 1..Len(Case.init) : Case.init[i].name = nm]
        /\ pend = <<>> /\ base = First
        /\ fds = [p \in Procs |-> <<>>]         \* handle -> inode (0: none)

In(f, k) == k \in DOMAIN f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Inode(p, h) == IF In(fds[p], h) THEN fds[p][h] ELSE 0
Set(p, h, i) == fds' = [fds EXCEPT ![p] = (h :> i) @@ @]

Open(p, o) ==
  IF In(dir, o.name) THEN
    IF o.excl THEN Set(p, o.h, 0) /\ UNCHANGED <<ino, dir, pend>>
    ELSE /\ Set(p, o.h, dir[o.name]) /\ UNCHANGED <<dir, pend>>
         /\ ino' = IF o.trunc THEN [ino EXCEPT ![dir[o.name]].cur = ""] ELSE ino
  ELSE IF ~o.creat THEN Set(p, o.h, 0) /\ UNCHANGED <<ino, dir, pend>>
  ELSE /\ ino' = Append(ino, [cur |-> "", dur |-> ""]) /\ Set(p, o.h, Len(ino) + 1)
       /\ dir' = (o.name :> (Len(ino) + 1)) @@ dir
       /\ pend' = Append(pend, [add |-> o.name, del |-> "", i |-> Len(ino) + 1])
Do(p, o) ==
  CASE o.op = "open" -> Open(p, o)
    [] o.op = "write" -> ino' = (IF Inode(p, o.h) = 0 THEN ino ELSE [ino EXCEPT ![Inode(p, o.h)].cur = @ \o o.data]) /\ UNCHANGED <<dir, pend, fds>>
    [] o.op = "trunc" -> ino' = (IF Inode(p, o.h) = 0 THEN ino ELSE [ino EXCEPT ![Inode(p, o.h)].cur = ""]) /\ UNCHANGED <<dir, pend, fds>>
    [] o.op = "fsync" -> ino' = (IF Inode(p, o.h) = 0 THEN ino ELSE [ino EXCEPT ![Inode(p, o.h)].dur = ino[Inode(p, o.h)].cur]) /\ UNCHANGED <<dir, pend, fds>>
    [] o.op = "fsyncdir" -> pend' = <<>> /\ base' = (IF In(dir, Cache) THEN dir[Cache] ELSE 0) /\ UNCHANGED <<ino, dir, fds>>
    [] o.op \in {"rename", "link"} ->
         IF ~In(dir, o.from) \/ (o.op = "link" /\ In(dir, o.to)) THEN UNCHANGED <<ino, dir, pend, fds>>
         ELSE LET i == dir[o.from] IN
              /\ dir' = (o.to :> i) @@ (IF o.op = "rename" THEN Without(dir, o.from) ELSE dir)
              /\ pend' = Append(pend, [add |-> o.to, del |-> IF o.op = "rename" THEN o.from ELSE "", i |-> i])
              /\ UNCHANGED <<ino, fds>>
    [] o.op = "unlink" ->
         IF ~In(dir, o.name) THEN UNCHANGED <<ino, dir, pend, fds>>
         ELSE dir' = Without(dir, o.name) /\ pend' = Append(pend, [add |-> "", del |-> o.name, i |-> 0]) /\ UNCHANGED <<ino, fds>>
Step(p) == p \notin dead /\ pc[p] <= Len(Case.progs[p]) /\ Do(p, Case.progs[p][pc[p]]) /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<c, dead>>
         /\ (Case.progs[p][pc[p]].op # "fsyncdir" => UNCHANGED base)
Die(p) == p \notin dead /\ pc[p] <= Len(Case.progs[p]) /\ dead' = dead \cup {p} /\ UNCHANGED <<c, pc, ino, dir, base, pend, fds>>
Next == \E p \in Procs : Step(p) \/ Die(p)
---------------------------------------------------------------------------
RECURSIVE After(_, _, _)      \* the inode of the cache file if of pend only the changes in S survive
After(i, n, S) == IF n > Len(pend) THEN i
  ELSE After(IF n \notin S THEN i ELSE IF pend[n].add = Cache THEN pend[n].i ELSE IF pend[n].del = Cache THEN 0 ELSE i, n + 1, S)
(* What may be left of a file whose contents have not been synced. *)
Contents(i) == IF ino[i].cur = ino[i].dur THEN {ino[i].cur} ELSE {ino[i].cur, ino[i].dur, "torn"}
Good == {Case.good[i] : i \in 1..Len(Case.good)}
(* The processes stop here. *)
Whole   == In(dir, Cache) => ino[dir[Cache]].cur \in Good
(* The machine stops here. *)
Durable == \A S \in SUBSET (1..Len(pend)) : LET i == After(base, 1, S) IN i # 0 => Contents(i) \subseteq Good
(* Nobody removes what others are writing. *)
Foreign == \A p \in Procs : p \notin dead /\ pc[p] <= Len(Case.progs[p]) =>
             LET o == Case.progs[p][pc[p]] IN (o.op = "unlink" /\ In(dir, o.name)) =>
               \A q \in Procs \ ({p} \cup dead) : \A h \in DOMAIN fds[q] : ~(fds[q][h] = dir[o.name] /\ pc[q] <= Len(Case.progs[q]))
==============================================================================
