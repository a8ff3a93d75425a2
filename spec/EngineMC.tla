------------------------------ MODULE EngineMC ------------------------------
(* Design-level check: all schedules, failures and cancellation points of a  *)
(* set of small programs; the engine's histories have the properties of      *)
(* EngineProps and every invocation terminates.                              *)
EXTENDS Engine, IOUtils, Json
Programs == JsonDeserialize(IOEnv.PROGS)
WithSig == IOEnv.SIG = "1"
NoEnv == EmptyMap
VARIABLES fl, hist
P == INSTANCE EngineProps WITH Env <- Env
mvars == <<evars, fl, hist>>

AllIds(p) == UNION {P!OwnCmds(p, t) : t \in DOMAIN p.tasks}
Init == \E n \in 1..Len(Programs) : \E S \in {{}} \cup {{c} : c \in AllIds(Programs[n])} :
          Start(Programs[n]) /\ fl = S /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Do == \E tid \in DOMAIN thr :
        LET th == thr[tid] IN
        \/ /\ th.w = "cmd" /\ ~th.seen /\ CmdStart(th.a, th.val) /\ Log([e |-> "start", id |-> th.a, val |-> th.val])
        \/ /\ th.w = "cmd" /\ th.seen
           /\ LET c == IF th.a \in fl THEN 1 ELSE 0 IN CmdEnd(th.a, c) /\ Log([e |-> "end", id |-> th.a, code |-> c])
        \/ /\ th.w = "cmd" /\ th.seen /\ CmdKill(th.a) /\ Log([e |-> "kill", id |-> th.a])
        \/ /\ th.w = "log" /\ LogLine(th.a, th.val) /\ Log([e |-> "log", id |-> th.a, val |-> th.val])
Next == /\ fl' = fl
        /\ \/ SilentNext /\ hist' = hist
           \/ LocalThreads = {} /\ Do
           \/ LocalThreads = {} /\ WithSig /\ out = -1 /\ Signal /\ Log([e |-> "sig", id |-> ""])
           \/ LocalThreads = {} /\ \E c \in {0, 1} : Exit(c) /\ Log([e |-> "exit", id |-> "", code |-> c])
           \/ out # -1 /\ UNCHANGED evars /\ hist' = hist

InvOnce      == P!Once(hist)
InvDeps      == P!DepsFirst(prog, hist)
InvOrder     == P!ItemsInOrder(prog, hist)
InvPre       == P!PreDeps(prog, hist)
InvLimit     == P!LimitKept(prog, hist)
InvContained == P!Contained(prog, hist)
InvOutcome   == P!Outcome(prog, hist)
InvSettled   == P!Settled(hist) /\ P!KillsOnlyCancelled(hist)
=============================================================================
