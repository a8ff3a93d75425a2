-------------------------------- MODULE DryMC --------------------------------
(* The preview is faithful: every real run of a program without failing      *)
(* commands, in which each task is reached only through dependencies, starts *)
(* exactly the previewed commands, in the previewed order.                   *)
EXTENDS Engine, IOUtils, Json
Programs == JsonDeserialize(IOEnv.PROGS)
NoEnv == EmptyMap
VARIABLE hist
D == INSTANCE Dry
Init == \E n \in 1..Len(Programs) : Start(Programs[n]) /\ hist = <<>>
Do == \E tid \in DOMAIN thr :
        LET th == thr[tid] IN
        \/ th.w = "cmd" /\ ~th.seen /\ CmdStart(th.a, th.val) /\ hist' = Append(hist, <<"cmd", th.a, th.val>>)
        \/ th.w = "cmd" /\ th.seen /\ CmdEnd(th.a, 0) /\ hist' = hist
        \/ th.w = "log" /\ LogLine(th.a, th.val) /\ hist' = hist
Next == \/ SilentNext /\ hist' = hist
        \/ LocalThreads = {} /\ Do
        \/ LocalThreads = {} /\ (\E c \in {0, 1} : Exit(c)) /\ hist' = hist
        \/ out # -1 /\ UNCHANGED evars /\ hist' = hist
Faithful == out # -1 =>
   /\ hist = D!Preview(prog)
   /\ (out = 0) <=> D!DryRun(prog).ok
=============================================================================
