------------------------------- MODULE Update -------------------------------
(* The update check: what a run asks the release service, what it stores and  *)
(* what it tells the user.                                                    *)
(* Versions: [ok, nums, pre]; ok FALSE: not a version; nums: numbers;         *)
(*   pre: <<>> for a release, or the parts of the pre-release suffix, each    *)
(*   [n, s]: a number n, or (n = -1) the character codes s.                   *)
(* Store (the cache file): [k |-> "none"] | [k |-> "bad"] (nothing usable) |  *)
(*   [k |-> "rec", tag, etag, age] (age in minutes).                          *)
(* Service: [k, tag, etag], k one of                                          *)
(*   "ok"      answers tag; "same" (304) if asked with the etag it would send *)
(*   "same304" answers 304 whatever it is asked with                          *)
(*   anything else: a failure (no connection, error status, malformed ..)     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Version(_)     \* the version a tag names
Day == 24 * 60

Nil == [k |-> "none"]
RECURSIVE CmpNums(_, _, _), CmpStr(_, _, _), CmpPre(_, _, _)
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
At(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
CmpNums(a, b, i) == IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF At(a, i) # At(b, i) THEN Sgn(At(a, i), At(b, i)) ELSE CmpNums(a, b, i + 1)
CmpStr(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN Sgn(Len(a), Len(b))
  ELSE IF a[i] # b[i] THEN Sgn(a[i], b[i]) ELSE CmpStr(a, b, i + 1)
CmpPart(a, b) == IF a.n >= 0 /\ b.n >= 0 THEN Sgn(a.n, b.n)
  ELSE IF a.n >= 0 THEN -1 ELSE IF b.n >= 0 THEN 1 ELSE CmpStr(a.s, b.s, 1)
CmpPre(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN Sgn(Len(a), Len(b))
  ELSE LET c == CmpPart(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpPre(a, b, i + 1)
(* Is a newer than b?  A release is newer than its pre-releases. *)
Newer(a, b) == /\ a.ok /\ b.ok
               /\ LET c == CmpNums(a.nums, b.nums, 1) IN
                  IF c # 0 THEN c = 1
                  ELSE IF a.pre = <<>> \/ b.pre = <<>> THEN a.pre = <<>> /\ b.pre # <<>>
                  ELSE CmpPre(a.pre, b.pre, 1) = 1

(* r: [bin |-> [dev, tag], off]: off: BAB_NO_UPDATE_CHECK=1 or CI. *)
Silent(r) == r.off \/ r.dev
Asks(st, r) == ~Silent(r) /\ ~(st.k = "rec" /\ st.age < Day /\ st.age >= 0)
With(st) == IF st.k = "rec" /\ st.age >= 0 THEN st.etag ELSE ""   \* the etag the service is asked with
Usable(st) == st.k = "rec" /\ st.age >= 0
Answer(st, sv) ==                       \* "new" | "same" | "fail"
  CASE sv.k = "ok" -> IF sv.etag # "" /\ With(st) = sv.etag THEN "same" ELSE "new"
    [] sv.k = "same304" -> IF Usable(st) THEN "same" ELSE "fail"
    [] OTHER -> "fail"
Store(st, sv) == CASE Answer(st, sv) = "new"  -> [k |-> "rec", tag |-> sv.tag, etag |-> sv.etag, age |-> 0]
                   [] Answer(st, sv) = "same" -> [st EXCEPT !.age = 0]
                   [] OTHER -> st
Notice(st, r) == ~Silent(r) /\ Usable(st) /\ Newer(Version(st.tag), Version(r.tag))
(* What a run may do: finished: the run lasts until the answer is dealt with. *)
Outcome(asked, st, r) == [asked |-> asked, notice |-> Notice(st, r), store |-> st]
Outcomes(st, sv, r, finished, writable) ==
  LET st2 == IF writable THEN Store(st, sv) ELSE st IN
  IF ~Asks(st, r) THEN {Outcome(FALSE, st, r)}
  ELSE IF finished THEN {Outcome(TRUE, st2, r)}
  ELSE {Outcome(FALSE, st, r), Outcome(TRUE, st, r), Outcome(TRUE, st2, r), [Outcome(TRUE, st2, r) EXCEPT !.notice = Notice(st, r)]}
Later(st, d) == IF st.k = "rec" THEN [st EXCEPT !.age = @ + d] ELSE st
==============================================================================
