------------------------------ MODULE UpdateMC ------------------------------
(* Every history of runs, answers, failures and time of a small world.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
V(ok, nums, pre) == [ok |-> ok, nums |-> nums, pre |-> pre]
Version(t) == CASE t = "v1" -> V(TRUE, <<1, 0, 0>>, <<>>) [] t = "v2" -> V(TRUE, <<2>>, <<>>)
                [] t = "v2rc" -> V(TRUE, <<2, 0>>, <<[n |-> -1, s |-> <<114, 99>>]>>) [] OTHER -> V(FALSE, <<>>, <<>>)
INSTANCE Update
CONSTANT MaxLen
Services == {[k |-> "ok", tag |-> t, etag |-> e] : t \in {"v1", "v2", "v2rc", "odd"}, e \in {"", "E"}} \cup {[k |-> x, tag |-> "", etag |-> ""] : x \in {"same304", "fail"}}
Runs == {[dev |-> FALSE, off |-> FALSE, tag |-> t] : t \in {"v1", "v2rc"}} \cup {[dev |-> TRUE, off |-> FALSE, tag |-> "v1"], [dev |-> FALSE, off |-> TRUE, tag |-> "v1"]}
VARIABLES st, now, good, told, len, last
(* good: the times of the successful answers; told: what the service said last *)
vars == <<st, now, good, told, len, last>>
Init == st \in {Nil, [k |-> "bad"], [k |-> "rec", tag |-> "v2", etag |-> "E", age |-> 5], [k |-> "rec", tag |-> "v2", etag |-> "E", age |-> -10]}
        /\ now = 0 /\ good = <<>> /\ told = (IF st.k = "rec" /\ st.age > 0 THEN st.tag ELSE "") /\ len = 0 /\ last = [asked |-> FALSE, notice |-> FALSE, off |-> TRUE, ans |-> "fail", was |-> st, tag |-> "v1", fin |-> FALSE]
Run == \E sv \in Services, r \in Runs, f \in BOOLEAN : \E o \in Outcomes(st, sv, r, f, TRUE) :
         LET stored == o.asked /\ Answer(st, sv) # "fail" /\ o.store.k = "rec" /\ o.store.age = 0 /\ (o.store # st \/ f) IN
         /\ st' = o.store
         /\ good' = IF stored THEN Append(good, now) ELSE good
         /\ told' = IF stored /\ Answer(st, sv) = "new" THEN sv.tag ELSE told
         /\ last' = [asked |-> o.asked, notice |-> o.notice, off |-> Silent(r), ans |-> Answer(st, sv), was |-> st, tag |-> r.tag, fin |-> f]
         /\ UNCHANGED now
Pass == \E d \in {60, 1439, 1440, 3000} : st' = Later(st, d) /\ now' = now + d /\ UNCHANGED <<good, told>>
        /\ last' = [last EXCEPT !.asked = FALSE, !.notice = FALSE, !.off = TRUE, !.was = st', !.ans = "fail"]
Next == len < MaxLen /\ len' = len + 1 /\ (Run \/ Pass)
---------------------------------------------------------------------------
Rare    == \A i \in 1..(Len(good) - 1) : good[i + 1] - good[i] >= Day
Quiet   == last.off => ~last.asked /\ ~last.notice
Harmless == last.ans = "fail" => st = last.was
Known   == Usable(st) /\ told # "" => st.tag = told
Says    == (~last.off /\ last.fin) => (last.notice <=> Usable(st) /\ Newer(Version(st.tag), Version(last.tag)))
Total   == \A a, b \in {"v1", "v2", "v2rc"} : a # b => (Newer(Version(a), Version(b)) <=> ~Newer(Version(b), Version(a)))
==============================================================================
