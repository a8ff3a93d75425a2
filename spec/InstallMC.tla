------------------------------- MODULE InstallMC -------------------------------
(* Every combination of faults, one per step, on a few machines and requests.  *)
EXTENDS Install
Steps == <<"release", "archive", "sums", "verify", "unpack">>
Faults == [release |-> {"", "status", "cut", "kill"}, archive |-> {"", "status", "cut", "short", "tampered", "kill"},
           sums |-> {"", "status", "cut", "missing", "other", "kill"}, verify |-> {"", "none", "fail", "kill"},
           unpack |-> {"", "garbage", "nobin", "fail", "kill"}]
Cases == {[tag |-> t, os |-> o, mach |-> m, latest |-> "v2.0.0", tags |-> {"v2.0.0", "v1.0.0"}, have |-> h, old |-> d,
           fault |-> [release |-> f1, archive |-> f2, sums |-> f3, verify |-> f4, unpack |-> f5]] :
          t \in {"", "v1.0.0", "v3.0.0"}, o \in {"Linux", "Plan10"}, m \in {"x86_64"}, h \in {"", "1.0.0", "2.0.0"}, d \in {"none", "old"},
          f1 \in Faults.release, f2 \in Faults.archive, f3 \in Faults.sums, f4 \in Faults.verify, f5 \in Faults.unpack}
VARIABLES c, s
Init == c \in Cases /\ s = Start(c)
Next == s.at # "end" /\ s' = Step(c, s) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, s>>
Verified     == s.dir = "new" => /\ s.sound
                                 /\ \A st \in {"release", "archive", "sums", "verify", "unpack"} : c.fault[st] = ""
AllOrNothing == s.at = "end" => (s.dir # c.old <=> (s.exit = "ok" /\ ~(c.have # "" /\ NoV(c.have) = NoV(Tag(c)))))
HonestExit   == s.at = "end" /\ s.exit = "ok" => s.dir = "new" \/ NoV(c.have) = NoV(Tag(c))
Asking       == Len(s.urls) <= 3 /\ (s.dir = "new" => Len(s.urls) = 3)
==============================================================================
