---------------------------------- MODULE CliMC ----------------------------------
(* Every short command line, read word by word.                                *)
EXTENDS Cli
CONSTANT N
Alphabet == {"-n", "-v", "-l", "-nl", "-b", "-bF", "--babfile=F", "--", "t", "x", "-x", "--dry-run=false", "--validate", "-c", "-cfish", "-h", "-"}
World == ("babfile.yml" :> [ok |-> TRUE, tasks |-> <<<<"t", "t1">>, <<"-n", "n1">>>>]) @@ ("F" :> [ok |-> TRUE, tasks |-> <<<<"t", "t2">>>>])
Lines == UNION {[1..i -> Alphabet] : i \in 0..N}
VARIABLES ws, s
Init == ws \in Lines /\ s = Start(ws)
Next == s.left # <<>> /\ s' = Word(s) /\ UNCHANGED ws
Spec == Init /\ [][Next]_<<ws, s>>
End == s.left = <<>>
Results == {Outcome(World, s, m) : m \in Modes(s)}
\* information and dry runs execute nothing, nothing executes more than one task, a failure executes nothing
Harmless == End => \A o \in Results : /\ (s.wrong \/ Asked(s) # {} \/ s.on["dry-run"] => o.ran = <<>>)
                                      /\ Len(o.ran) <= 1 /\ (o.code # 0 => o.ran = <<>>)
\* where a flag stands does not matter, as long as it is not the value of another and not behind --
Free(w) == \A i \in 1..Len(w) : w[i] # "--" /\ w[i] # "--dry-run=false"
Anywhere == s = Start(ws) /\ Free(ws) /\ (ws = <<>> \/ ws[Len(ws)] \notin {"-b", "-c"}) =>
              \A f \in {"-n", "-v", "--list", "-h"} : Outcomes(World, <<f>> \o ws) = Outcomes(World, ws \o <<f>>)
\* of two values the later counts
Later == s = Start(ws) /\ ~Read(s).wrong /\ ~Read(s).plain => Read(Start(ws \o <<"-bF">>)).text.babfile = "F"
==============================================================================
