------------------------------- MODULE CleanMC -------------------------------
(* For every line over a small alphabet: what Clean lets through makes the    *)
(* terminal show the same text and obey the same SGR sequences as the raw     *)
(* line, and do nothing else; cleaning twice is cleaning once; and splitting  *)
(* a text into lines loses nothing.                                           *)
EXTENDS Clean, TLC
CONSTANTS MaxLen
Alpha == {97, ESC, 91, 49, 109, 72, 93, 92, BEL, TAB, 32, 63, 233, 155}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alpha : s' = Append(s, c)
WellFormed ==   \* a parameter after an intermediate is no sequence: what is left of it is shown as text
  ~\E i \in 1..(Len(s) - 1) : Interm(s[i]) /\ Param(s[i + 1])
Good == LET r == Term(s)
            c == CleanText(s, FALSE)
            p == CleanText(s, TRUE)
            t == Term(c)
            u == Term(p)
        IN /\ ~t.other /\ ~u.other
           /\ WellFormed => t.text = r.text /\ t.sgr = r.sgr /\ u.text = r.text
           /\ u.sgr = <<>>
           /\ CleanText(c, FALSE) = c /\ CleanText(p, TRUE) = p /\ CleanText(c, TRUE) = p
==============================================================================
