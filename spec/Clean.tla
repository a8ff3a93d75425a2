-------------------------------- MODULE Clean --------------------------------
(* What bab may pass on of a line of captured output.  A line is a sequence  *)
(* of code points.  Clean keeps text, tabs and (with colour on) SGR          *)
(* sequences.  Term is an independent account of what a terminal would do    *)
(* with a line: the text it shows, the SGR sequences it obeys and whether it *)
(* does anything else; CleanMC checks the one against the other.             *)
EXTENDS Naturals, Sequences

ESC == 27  BEL == 7  TAB == 9  LF == 10  CR == 13  CAN == 24  SUB == 26
Control(c)  == c < 32 \/ (c >= 127 /\ c <= 159)
Param(c)    == c >= 48 /\ c <= 63
SgrParam(c) == c >= 48 /\ c <= 59
Interm(c)   == c >= 32 /\ c <= 47
Final(c)    == c >= 64 /\ c <= 126
EscFinal(c) == c >= 48 /\ c <= 126
StrIntro    == {93, 80, 88, 94, 95}              \* OSC DCS SOS PM APC:  ] P X ^ _

RECURSIVE SkipP(_, _), SkipI(_, _), SkipSgr(_, _), StrEnd(_, _, _)
SkipP(s, i)   == IF i <= Len(s) /\ Param(s[i])    THEN SkipP(s, i + 1)   ELSE i
SkipI(s, i)   == IF i <= Len(s) /\ Interm(s[i])   THEN SkipI(s, i + 1)   ELSE i
SkipSgr(s, i) == IF i <= Len(s) /\ SgrParam(s[i]) THEN SkipSgr(s, i + 1) ELSE i
\* position after the control string whose contents start at i
StrEnd(s, i, osc) ==
  IF i > Len(s) THEN i
  ELSE IF s[i] = BEL /\ osc THEN i + 1
  ELSE IF s[i] = ESC THEN (IF i < Len(s) /\ s[i + 1] = 92 THEN i + 2 ELSE i)
  ELSE IF s[i] \in {CAN, SUB} THEN i
  ELSE StrEnd(s, i + 1, osc)

\* the escape sequence at i: [next, sgr]
Sequence(s, i) ==
  IF i = Len(s) THEN [next |-> i + 1, sgr |-> FALSE]
  ELSE LET c == s[i + 1] IN
    IF c = 91 THEN
      LET p == SkipP(s, i + 2)
          f == SkipI(s, p)
      IN IF f > Len(s) THEN [next |-> f, sgr |-> FALSE]
         ELSE IF ~Final(s[f]) THEN [next |-> f, sgr |-> FALSE]
         ELSE [next |-> f + 1, sgr |-> s[f] = 109 /\ f = p /\ SkipSgr(s, i + 2) = p]
    ELSE IF c \in StrIntro THEN [next |-> StrEnd(s, i + 2, c = 93), sgr |-> FALSE]
    ELSE LET f == SkipI(s, i + 1)
         IN IF f <= Len(s) /\ EscFinal(s[f]) THEN [next |-> f + 1, sgr |-> FALSE] ELSE [next |-> f, sgr |-> FALSE]

RECURSIVE CleanFrom(_, _, _)
CleanFrom(s, i, strip) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = ESC THEN
         LET q == Sequence(s, i)
         IN (IF q.sgr /\ ~strip THEN SubSeq(s, i, q.next - 1) ELSE <<>>) \o CleanFrom(s, q.next, strip)
  ELSE IF Control(s[i]) /\ s[i] # TAB THEN CleanFrom(s, i + 1, strip)
  ELSE <<s[i]>> \o CleanFrom(s, i + 1, strip)
CleanText(s, strip) == CleanFrom(s, 1, strip)

\* the text of a line after its carriage returns; one at the end belongs to the line break
RECURSIVE LastCR(_, _)
LastCR(s, i) == IF i = 0 THEN 0 ELSE IF s[i] = CR THEN i ELSE LastCR(s, i - 1)
AfterCR(s) == LET t == IF s # <<>> /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
              IN SubSeq(t, LastCR(t, Len(t)) + 1, Len(t))
CleanLine(s, strip) == CleanText(AfterCR(s), strip)

RECURSIVE FirstLF(_, _)
FirstLF(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = LF THEN i ELSE FirstLF(s, i + 1)
\* the lines of a text, the last one possibly without line break
RECURSIVE LinesOf(_, _)
LinesOf(s, strip) == IF s = <<>> THEN <<>>
                     ELSE LET k == FirstLF(s, 1)
                          IN IF k = 0 THEN <<CleanLine(s, strip)>>
                             ELSE <<CleanLine(SubSeq(s, 1, k - 1), strip)>> \o LinesOf(SubSeq(s, k + 1, Len(s)), strip)
-----------------------------------------------------------------------------
(* The terminal: modes ground, esc, csi (with what was collected), str.       *)
RECURSIVE TermFrom(_, _, _, _)
\* m: [mode, par: collected parameters and intermediates, str]; a: [text, sgr, other]
TermFrom(s, i, m, a) ==
  IF i > Len(s) THEN [text |-> a.text, sgr |-> a.sgr, other |-> a.other \/ m.mode # "ground"]
  ELSE LET c == s[i]
           ground == [mode |-> "ground", par |-> <<>>, str |-> 0]
           go(mm, aa) == TermFrom(s, i + 1, mm, aa)
           oth == [a EXCEPT !.other = TRUE]
       IN IF m.mode = "str" THEN
            IF c = BEL /\ m.str = 93 THEN go(ground, oth)
            ELSE IF c = ESC THEN go([mode |-> "stresc", par |-> <<>>, str |-> m.str], a)
            ELSE IF c \in {CAN, SUB} THEN go(ground, oth)
            ELSE go(m, a)
          ELSE IF m.mode = "stresc" /\ c = 92 THEN go(ground, oth)
          ELSE IF c = ESC THEN go([mode |-> "esc", par |-> <<>>, str |-> 0], a)
          ELSE IF m.mode \in {"esc", "stresc"} THEN
            IF c = 91 /\ m.par = <<>> THEN go([mode |-> "csi", par |-> <<>>, str |-> 0], a)
            ELSE IF c \in StrIntro /\ m.par = <<>> THEN go([mode |-> "str", par |-> <<>>, str |-> c], a)
            ELSE IF Interm(c) THEN go([m EXCEPT !.mode = "esc", !.par = @ \o <<c>>], a)
            ELSE IF EscFinal(c) THEN go(ground, oth)
            ELSE TermFrom(s, i, ground, oth)
          ELSE IF m.mode = "csi" THEN
            IF Param(c) \/ Interm(c) THEN go([m EXCEPT !.par = @ \o <<c>>], a)
            ELSE IF Final(c) THEN
              IF c = 109 /\ \A k \in 1..Len(m.par) : SgrParam(m.par[k])
              THEN go(ground, [a EXCEPT !.sgr = @ \o <<m.par>>]) ELSE go(ground, oth)
            ELSE TermFrom(s, i, ground, oth)
          ELSE IF Control(c) /\ c # TAB THEN go(m, oth)
          ELSE go(m, [a EXCEPT !.text = @ \o <<c>>])
Term(s) == TermFrom(s, 1, [mode |-> "ground", par |-> <<>>, str |-> 0], [text |-> <<>>, sgr |-> <<>>, other |-> FALSE])
==============================================================================
