------------------------------- MODULE PickerMC -------------------------------
EXTENDS Picker, TLC
CONSTANT MaxLen
T(n, as) == [name |-> n, aliases |-> as]
Sets == {<<>>, <<T("ab", <<>>)>>,
  <<T("b", <<>>), T("ab", <<"x">>), T("a-b", <<>>)>>,
  <<T("test", <<"t">>), T("build", <<"b", "bt">>), T("bet", <<>>), T("n:bt", <<"n:b">>)>>,
  <<T("aB", <<>>), T("ab", <<>>), T("AB", <<"a">>), T("ba_b", <<>>), T("b.a", <<>>)>>}
Ks == {"a", "b", "t", "B", "BS", "LEFT", "UP", "DOWN", "^U", "ENTER", "ESC"}
VARIABLES ts, s, len
Init == ts \in Sets /\ s = Start(ts) /\ len = 0
Next == len < MaxLen /\ s.ph = "open" /\ (\E k \in Ks : s' = Key(ts, s, k)) /\ len' = len + 1 /\ UNCHANGED ts
Range(l) == {l[i] : i \in 1..Len(l)}
Exactly == Range(s.list) = {i \in 1..Len(ts) : Hits(s.q, ts[i])} /\ Len(s.list) = Cardinality(Range(s.list))
InOrder == \A i, j \in 1..Len(s.list) : i < j => Before(s.q, ts[s.list[i]], ts[s.list[j]])
OnOne   == s.list # <<>> => s.row \in 1..Len(s.list)
Picked  == s.ph = "picked" => s.pick \in Range(s.list)
Cursor  == s.cur \in 0..Len(s.q)
==============================================================================
