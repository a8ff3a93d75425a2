------------------------------- MODULE LinesMC -------------------------------
(* Two leaves write texts in arbitrary pieces and order: what is shown of a   *)
(* leaf depends on its text alone, never on the pieces or the other leaf.     *)
EXTENDS Lines
CONSTANTS MaxLen
VARIABLES text, todo
vars == <<lvars, text, todo>>
Alpha == {97, LF, CR}
Texts == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
Init == /\ Start("x" :> FALSE @@ "y" :> TRUE)
        /\ text \in [{"x", "y"} -> [Streams -> Texts]]
        /\ text["y"][2] = <<>> /\ Len(text["x"][2]) <= 1
        /\ todo = text
Next == \/ \E l \in {"x", "y"}, s \in Streams : \E n \in 1..Len(todo[l][s]) :
             /\ Write(l, s, SubSeq(todo[l][s], 1, n))
             /\ todo' = [todo EXCEPT ![l][s] = SubSeq(@, n + 1, Len(@))] /\ UNCHANGED text
        \/ \E l \in {"x", "y"}, s \in Streams : Show(l, s) /\ UNCHANGED <<text, todo>>
        \/ \E l \in {"x", "y"} : todo[l] = [s \in Streams |-> <<>>] /\ End(l) /\ UNCHANGED <<text, todo>>
Shown(l, s) == LET q == SelectSeq(out[s], LAMBDA e : e.leaf = l) IN [i \in 1..Len(q) |-> q[i].text]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Whole == \A l \in {"x", "y"}, s \in Streams : Prefix(Shown(l, s), LinesOf(text[l][s], leaf[l]))
Complete == (over = {"x", "y"} /\ Settled) => \A l \in {"x", "y"}, s \in Streams : Shown(l, s) = LinesOf(text[l][s], leaf[l])
==============================================================================
