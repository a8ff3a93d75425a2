---------------------------------- MODULE Cli ----------------------------------
(* The command line of bab: a reader takes one word after the other, flags     *)
(* anywhere, until the words are used up; what was read says what bab does.    *)
(* Whoever asks for help, the version, a completion script, a validation or a  *)
(* list gets that and nothing is executed; a word that is not understood means *)
(* that nothing is done at all.                                                *)
EXTENDS Str, TLC

Bools == [help |-> "h", version |-> "", verbose |-> "v", list |-> "l", validate |-> ""] @@ ("dry-run" :> "n")
Texts == [babfile |-> "b", completion |-> "c"]
Yes == {"1", "t", "T", "true", "TRUE", "True"}   No == {"0", "f", "F", "false", "FALSE", "False"}
Shells == {"bash", "zsh", "fish", "powershell"}
LongOf(c) == IF \E k \in DOMAIN Bools : Bools[k] = c THEN CHOOSE k \in DOMAIN Bools : Bools[k] = c
             ELSE IF \E k \in DOMAIN Texts : Texts[k] = c THEN CHOOSE k \in DOMAIN Texts : Texts[k] = c ELSE ""

\* state: left (words), on (flag -> BOOLEAN), text (flag -> value), names (of tasks), plain (after --), wrong
Start(ws) == [left |-> ws, on |-> [k \in DOMAIN Bools |-> FALSE], text |-> [k \in DOMAIN Texts |-> ""], names |-> <<>>, plain |-> FALSE, wrong |-> FALSE]
Wrong(s) == [s EXCEPT !.wrong = TRUE, !.left = <<>>]
Give(s, k, v) == [s EXCEPT !.text[k] = v]
Say(s, k, v) == IF v \in Yes THEN [s EXCEPT !.on[k] = TRUE] ELSE IF v \in No THEN [s EXCEPT !.on[k] = FALSE] ELSE Wrong(s)
Next1(s, k) == IF s.left = <<>> THEN Wrong(s) ELSE [Give(s, k, Head(s.left)) EXCEPT !.left = Tail(@)]      \* the value is the next word, whatever it is

RECURSIVE Letters1(_, _)
Letters1(s, w) ==           \* w: one-letter flags that are left of this word
  IF w = "" \/ s.wrong THEN s ELSE
  LET k == LongOf(Ch(w, 1)) eq == Len(w) > 2 /\ Ch(w, 2) = "=" IN
  CASE k = "" -> Wrong(s)
    [] k \in DOMAIN Bools /\ eq  -> Say(s, k, From(w, 3))
    [] k \in DOMAIN Bools /\ ~eq -> Letters1(Say(s, k, "true"), From(w, 2))
    [] k \in DOMAIN Texts /\ eq  -> Give(s, k, From(w, 3))
    [] k \in DOMAIN Texts /\ ~eq -> IF Len(w) > 1 THEN Give(s, k, From(w, 2)) ELSE Next1(s, k)
Long(s, w) ==
  LET i == Skip(w, 1, Chars(w) \ {"="})   k == SubSeq(w, 1, i - 1)   eq == i <= Len(w)   v == From(w, i + 1) IN
  CASE k = "" \/ HasPrefix(k, "-") -> Wrong(s)
    [] k \in DOMAIN Bools -> Say(s, k, IF eq THEN v ELSE "true")
    [] k \in DOMAIN Texts -> IF eq THEN Give(s, k, v) ELSE Next1(s, k)
    [] OTHER -> Wrong(s)
Word(s0) ==
  LET w == Head(s0.left)   s == [s0 EXCEPT !.left = Tail(@)] IN
  CASE s.plain \/ w = "-" \/ ~HasPrefix(w, "-") -> [s EXCEPT !.names = Append(@, w)]
    [] w = "--" -> [s EXCEPT !.plain = TRUE]
    [] HasPrefix(w, "--") /\ w # "--" -> Long(s, From(w, 3))
    [] OTHER -> Letters1(s, From(w, 2))
RECURSIVE Read(_)
Read(s) == IF s.left = <<>> THEN s ELSE Read(Word(s))

\* what may be done; several kinds of information can be asked for at once, one of them is given
Asked(s) == {k \in {"help", "version", "validate", "list"} : s.on[k]} \cup (IF s.text.completion # "" THEN {"completion"} ELSE {})
Modes(s) == IF s.wrong THEN {"refuse"}
            ELSE IF Asked(s) # {} THEN Asked(s)
            ELSE IF s.names # <<>> THEN {"run"} ELSE {"pick"}

\* world: file -> [ok, tasks: sequence of <<name or alias, id>>]; files that are not there are not in its domain
Used(s) == IF s.text.babfile = "" THEN "babfile.yml" ELSE s.text.babfile
Loads(world, s) == Used(s) \in DOMAIN world /\ world[Used(s)].ok
TaskOf(world, s) == LET m == MapOf(world[Used(s)].tasks) IN IF Loads(world, s) /\ Head(s.names) \in DOMAIN m THEN m[Head(s.names)] ELSE ""
Fails == [code |-> 1, out |-> "", ran |-> <<>>, named |-> {}]
Fine(out) == [Fails EXCEPT !.code = 0, !.out = out]
Outcome(world, s, mode) ==
  CASE mode \in {"help", "version"} -> Fine(mode)
    [] mode = "completion" -> IF s.text.completion \in Shells THEN Fine(s.text.completion) ELSE Fails
    [] mode = "validate" -> IF Loads(world, s) THEN Fine("valid " \o Used(s)) ELSE Fails
    [] mode = "list" -> IF Loads(world, s) THEN Fine("list " \o Used(s)) ELSE Fails
    [] mode = "run" -> IF ~Loads(world, s) THEN Fails
                       ELSE LET t == TaskOf(world, s) IN
                       IF t = "" THEN Fails ELSE [Fine("") EXCEPT !.named = {t}, !.ran = IF s.on["dry-run"] THEN <<>> ELSE <<t>>]
    [] mode \in {"pick", "refuse"} -> Fails      \* no terminal to pick at
Outcomes(world, ws) == LET s == Read(Start(ws)) IN {Outcome(world, s, m) : m \in Modes(s)}
==============================================================================
