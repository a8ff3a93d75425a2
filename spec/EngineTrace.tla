----------------------------- MODULE EngineTrace -----------------------------
(* Are recorded runs of bab behaviours of Engine?  The batch file holds a    *)
(* sequence of [prog, ev]; register n keeps how far trace n could be         *)
(* followed; the verdicts are written to the result file.                    *)
EXTENDS Engine, IOUtils, Json

Batch == JsonDeserialize(IOEnv.BATCH)
NoEnv == EmptyMap
VARIABLES tr, pos
tvars == <<evars, tr, pos>>

Ev(n) == Batch[n].ev
Init == \E n \in 1..Len(Batch) :
          /\ tr = n /\ pos = 1 /\ TLCSet(n, 0)
          /\ Start(Batch[n].prog)

Match(e) ==
  CASE e.e = "start" -> CmdStart(e.id, e.val)
    [] e.e = "end"   -> CmdEnd(e.id, e.code)
    [] e.e = "kill"  -> CmdKill(e.id)
    [] e.e = "log"   -> LogLine(e.id, e.val)
    [] e.e = "sig"   -> Signal
    [] e.e = "exit"  -> Exit(e.code)
    [] e.e = "quiet" -> Quiet /\ UNCHANGED evars
    [] OTHER -> FALSE           \* "hang", "alive": never allowed

(* A command or log line that does not occur in the rest of the trace is     *)
(* lost, at once; one that does occur is not.                                *)
Ahead(a) == \E k \in pos..Len(Ev(tr)) : Ev(tr)[k].e \in {"start", "log"} /\ Ev(tr)[k].id = a
LostThreads == IF ~dlv THEN {}
               ELSE {x \in DOMAIN thr : \/ thr[x].w = "cmd" /\ ~thr[x].seen /\ ~Ahead(thr[x].a)
                                        \/ thr[x].w = "log" /\ ~Ahead(thr[x].a)}
TraceSilent ==
  IF LocalThreads # {} THEN Silent(CHOOSE x \in LocalThreads : TRUE)
  ELSE IF LostThreads # {} THEN DoLost(CHOOSE x \in LostThreads : TRUE)
  ELSE (\E x \in DOMAIN thr : Silent(x)) \/ Deliver

Next == \/ /\ pos <= Len(Ev(tr))
           /\ LocalThreads = {} \/ Ev(tr)[pos].e = "sig"
           /\ Match(Ev(tr)[pos])
           /\ pos' = pos + 1 /\ tr' = tr
        \/ /\ TraceSilent /\ UNCHANGED <<tr, pos>>

\* evaluated on every state reached
Track == IF TLCGet(tr) < pos THEN TLCSet(tr, pos) ELSE TRUE
Post == JsonSerialize(IOEnv.RESULT, [n \in 1..Len(Batch) |-> <<TLCGet(n), Len(Ev(n)) + 1>>])
==============================================================================
