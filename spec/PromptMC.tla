------------------------------- MODULE PromptMC -------------------------------
(* Every key sequence up to MaxLen in every small definition: an answer that   *)
(* is stored satisfies the definition, and it is what was entered.            *)
EXTENDS Prompt, TLC
CONSTANT MaxLen
Base == [type |-> "", def |-> <<>>, defs |-> <<>>, opts |-> <<>>, min |-> <<>>, max |-> <<>>, pat |-> "", again |-> FALSE]
Bounds == {<<>>, <<0>>, <<1>>, <<2>>, <<12>>}
D(s) == <<<<"text", s>>>>
Defs ==
  {[Base EXCEPT !.type = "confirm", !.def = D(x)] : x \in {"", "yes", "TRUE", "no", "0"}}
  \cup {[Base EXCEPT !.type = "input", !.def = D(x), !.pat = p] : x \in {"", "ab"}, p \in {"", "^[a-c]+$", "b", "^$|^x", "^.{2,3}$"}}
  \cup {[Base EXCEPT !.type = "number", !.def = D(x), !.min = a, !.max = b] : x \in {"", "1", "50"}, a \in Bounds, b \in Bounds}
  \cup {[Base EXCEPT !.type = "select", !.def = D(x), !.opts = <<"a", "b", "c">>] : x \in {"", "b", "zz"}}
  \cup {[Base EXCEPT !.type = "multiselect", !.defs = x, !.opts = <<"a", "b", "c">>, !.min = a, !.max = b] : x \in {<<>>, <<"b">>, <<"c", "a">>}, a \in Bounds, b \in Bounds}
  \cup {[Base EXCEPT !.type = "password", !.again = x] : x \in BOOLEAN}
KeysOf(d) == {"ENTER"} \cup (CASE d.type = "confirm" -> {"y", "n", "h", "LEFT"}
    [] d.type = "input" -> {"a", "b", "x", "BS", "LEFT", "^U", "END"}
    [] d.type = "number" -> {"1", "2", "-", "a", "BS", "HOME", "DEL"}
    [] d.type = "password" -> {"a", "b", "BS"}
    [] d.type = "select" -> {"UP", "DOWN", "g", "G"}
    [] OTHER -> {"UP", "DOWN", "x", "^A", "G"})
VARIABLES d, s, len
Def == Expand(d.def, <<>>)
Init == /\ d \in Defs /\ s = Open(d, Expand(d.def, <<>>)) /\ len = 0
Next == /\ len < MaxLen /\ s.ph \notin {"done", "cancelled"}
        /\ \E k \in KeysOf(d) \cup {"^C"} : s' = Key(d, Def, s, k)
        /\ len' = len + 1 /\ UNCHANGED d
Sane == /\ s.cur \in 0..Len(s.text) /\ (d.opts # <<>> => s.row \in 1..Len(d.opts)) /\ s.chosen \subseteq 1..Len(d.opts)
Kept == s.ph = "done" => Satisfies(d, Value(d, Def, s)) /\ (d.type = "password" /\ d.again => s.text = s.first)
==============================================================================
