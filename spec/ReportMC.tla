------------------------------- MODULE ReportMC -------------------------------
(* Two reporters go through the same files; whatever each looks at first, they *)
(* end with the same report.                                                   *)
EXTENDS Report
CONSTANTS Order
Things == 1..3
Stages == {<<a, b>> : a \in [stops : BOOLEAN, has : SUBSET Things, of : {Things}], b \in [stops : BOOLEAN, has : SUBSET Things, of : {{1, 3}, Things}]}
VARIABLES doc, one, two
Init == doc \in Stages /\ one = Begin /\ two = Begin
Next == \/ ~Done(doc, one) /\ one' \in Steps(doc, one, Order) /\ UNCHANGED <<doc, two>>
        \/ ~Done(doc, two) /\ two' \in Steps(doc, two, Order) /\ UNCHANGED <<doc, one>>
Spec == Init /\ [][Next]_<<doc, one, two>>
Same == Done(doc, one) /\ Done(doc, two) => one.said = two.said
Honest == Done(doc, one) => (one.said = <<>> <=> \A i \in 1..Len(doc) : doc[i].has \cap doc[i].of = {})
==============================================================================
