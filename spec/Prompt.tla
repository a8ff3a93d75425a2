------------------------------- MODULE Prompt -------------------------------
(* C21.  Prompts: what a definition asks, what every key does to the answer   *)
(* being entered, which answers may be submitted, and what a chain of prompts *)
(* leaves in the variables of the task.                                       *)
(* definition: [type, def: <<part..>>, defs: <<option..>>, opts, min, max:    *)
(*  <<>> or <<n>>, pat, again: the password is entered twice]; a part is      *)
(*  <<"text", s>> or <<"var", i>> (the answer of prompt i).                   *)
EXTENDS Str, Integers

RECURSIVE Expand(_, _)
Expand(parts, ans) == IF parts = <<>> THEN ""
                      ELSE (IF parts[1][1] = "text" THEN parts[1][2] ELSE ans[parts[1][2]]) \o Expand(Tail(parts), ans)
Truth(s) == ToLower(s) \in {"true", "yes", "y", "1"}
Bool(b)  == IF b THEN "true" ELSE "false"

(* ---------------------------------------------------------------- answers *)
IsInt(s) == LET body == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN From(s, 2) ELSE s
            IN body # "" /\ Chars(body) \subseteq Digits
DigitVal(c) == (CHOOSE k \in 1..10 : Ch("0123456789", k) = c) - 1
RECURSIVE NatVal(_)
NatVal(s) == IF s = "" THEN 0 ELSE 10 * NatVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
IntVal(s) == IF Ch(s, 1) = "-" THEN 0 - NatVal(From(s, 2)) ELSE IF Ch(s, 1) = "+" THEN NatVal(From(s, 2)) ELSE NatVal(s)
Within(n, d) == (d.min = <<>> \/ n >= d.min[1]) /\ (d.max = <<>> \/ n <= d.max[1])

\* the patterns used, as predicates
Matches(pat, s) ==
  CASE pat = ""            -> TRUE
    [] pat = "^[a-c]+$"    -> s # "" /\ Chars(s) \subseteq {"a", "b", "c"}
    [] pat = "b"           -> Contains(s, "b")
    [] pat = "^$|^x"       -> s = "" \/ HasPrefix(s, "x")
    [] pat = "^.{2,3}$"    -> Len(s) \in 2..3
    [] pat = "^a*b$"       -> HasSuffix(s, "b") /\ Chars(SubSeq(s, 1, Len(s) - 1)) \subseteq {"a"}
    [] pat = "-"           -> Contains(s, "-")
    [] pat = "^[^ ]*$"     -> ~Contains(s, " ")
    [] pat = "^(?i)X$"     -> s \in {"x", "X"}
    [] pat = "\\d{2}"      -> \E i \in 1..(Len(s) - 1) : Ch(s, i) \in Digits /\ Ch(s, i + 1) \in Digits
    [] pat = "b$"          -> HasSuffix(s, "b")
    [] pat = "^a"          -> HasPrefix(s, "a")

(* ------------------------------------------------------- the entry form *)
Ordered(S) == [k \in 1..Cardinality(S) |-> CHOOSE i \in S : Cardinality({j \in S : j < i}) = k - 1]
FirstOf(S, alt) == IF S = {} THEN alt ELSE CHOOSE i \in S : \A j \in S : i <= j
\* ph: "ask" | "again" (the password once more) | "done" | "cancelled"
Open(d, def) ==
  LET chosen == {i \in 1..Len(d.opts) : \E j \in 1..Len(d.defs) : d.defs[j] = d.opts[i]}
  IN [ph |-> "ask", text |-> IF d.type \in {"input", "number"} THEN def ELSE "",
      cur |-> IF d.type \in {"input", "number"} THEN Len(def) ELSE 0,
      first |-> "", flag |-> Truth(def),
      row |-> IF d.type = "select" THEN FirstOf({i \in 1..Len(d.opts) : d.opts[i] = def}, 1) ELSE FirstOf(chosen, 1),
      chosen |-> chosen]

Value(d, def, s) ==
  CASE d.type = "confirm"     -> Bool(s.flag)
    [] d.type = "input"       -> s.text
    [] d.type = "password"    -> IF s.ph = "ask" THEN s.text ELSE s.first
    [] d.type = "number"      -> IF s.text = "" THEN def ELSE s.text
    [] d.type = "select"      -> d.opts[s.row]
    [] d.type = "multiselect" -> Join([k \in 1..Cardinality(s.chosen) |-> d.opts[Ordered(s.chosen)[k]]], ",")
Acceptable(d, def, s) ==
  CASE d.type = "input"       -> Matches(d.pat, s.text)
    [] d.type = "number"      -> IsInt(Value(d, def, s)) /\ Within(IntVal(Value(d, def, s)), d)
    [] d.type = "multiselect" -> Within(Cardinality(s.chosen), d)
    [] d.type = "password"    -> s.ph = "again" => s.text = s.first
    [] OTHER -> TRUE
Enter(d, def, s) == IF ~Acceptable(d, def, s) THEN s
                    ELSE IF d.type = "password" /\ s.ph = "ask" /\ d.again THEN [s EXCEPT !.ph = "again", !.first = s.text, !.text = "", !.cur = 0]
                    ELSE IF d.type = "password" /\ s.ph = "ask" THEN [s EXCEPT !.ph = "done", !.first = s.text]
                    ELSE [s EXCEPT !.ph = "done"]

Left(t, c) == SubSeq(t, 1, c)
Edit(s, k) ==
  CASE k = "BS"    -> IF s.cur = 0 THEN s ELSE [s EXCEPT !.text = Left(s.text, s.cur - 1) \o From(s.text, s.cur + 1), !.cur = s.cur - 1]
    [] k = "DEL"   -> IF s.cur = Len(s.text) THEN s ELSE [s EXCEPT !.text = Left(s.text, s.cur) \o From(s.text, s.cur + 2)]
    [] k = "LEFT"  -> [s EXCEPT !.cur = IF s.cur = 0 THEN 0 ELSE s.cur - 1]
    [] k = "RIGHT" -> [s EXCEPT !.cur = IF s.cur = Len(s.text) THEN s.cur ELSE s.cur + 1]
    [] k = "HOME"  -> [s EXCEPT !.cur = 0]
    [] k = "END"   -> [s EXCEPT !.cur = Len(s.text)]
    [] k = "^U"    -> [s EXCEPT !.text = From(s.text, s.cur + 1), !.cur = 0]
    [] k = "^K"    -> [s EXCEPT !.text = Left(s.text, s.cur)]
    [] Len(k) = 1  -> [s EXCEPT !.text = Left(s.text, s.cur) \o k \o From(s.text, s.cur + 1), !.cur = s.cur + 1]
    [] OTHER -> s
Turn(s, k) ==
  CASE k \in {"y", "Y"} -> [s EXCEPT !.flag = TRUE, !.ph = "done"]
    [] k \in {"n", "N"} -> [s EXCEPT !.flag = FALSE, !.ph = "done"]
    [] k \in {"h", "l", "LEFT", "RIGHT"} -> [s EXCEPT !.flag = ~s.flag]
    [] OTHER -> s
Pick(d, s, k) ==
  LET n == Len(d.opts) IN
  CASE k \in {"UP", "k", "^P"}   -> [s EXCEPT !.row = IF s.row = 1 THEN (IF d.type = "select" THEN n ELSE 1) ELSE s.row - 1]
    [] k \in {"DOWN", "j", "^N"} -> [s EXCEPT !.row = IF s.row = n THEN (IF d.type = "select" THEN 1 ELSE n) ELSE s.row + 1]
    [] k \in {"HOME", "g"} -> [s EXCEPT !.row = 1]
    [] k \in {"END", "G"}  -> [s EXCEPT !.row = n]
    [] d.type = "multiselect" /\ k \in {"x", " "} -> [s EXCEPT !.chosen = IF s.row \in s.chosen THEN s.chosen \ {s.row} ELSE s.chosen \cup {s.row}]
    [] d.type = "multiselect" /\ k = "^A" -> [s EXCEPT !.chosen = IF s.chosen = 1..n THEN {} ELSE 1..n]
    [] OTHER -> s
Key(d, def, s, k) ==
  IF k = "^C" THEN [s EXCEPT !.ph = "cancelled"]
  ELSE IF k = "ENTER" THEN Enter(d, def, s)
  ELSE IF d.type = "confirm" THEN Turn(s, k)
  ELSE IF d.type \in {"select", "multiselect"} THEN Pick(d, s, k)
  ELSE Edit(s, k)

(* ------------------------------------------------------ what is promised *)
OptionOf(d, a) == \E i \in 1..Len(d.opts) : d.opts[i] = a
Chosen(d, a) == \E C \in SUBSET (1..Len(d.opts)) : a = Join([k \in 1..Cardinality(C) |-> d.opts[Ordered(C)[k]]], ",") /\ Within(Cardinality(C), d)
Satisfies(d, a) ==
  CASE d.type = "confirm"     -> a \in {"true", "false"}
    [] d.type = "input"       -> Matches(d.pat, a)
    [] d.type = "number"      -> IsInt(a) /\ Within(IntVal(a), d)
    [] d.type = "select"      -> OptionOf(d, a)
    [] d.type = "multiselect" -> Chosen(d, a)
    [] d.type = "password"    -> TRUE

(* --------------------------------------------------- without a terminal *)
NoOne(d, def) == CASE d.type = "password"    -> <<>>
                   [] d.type = "multiselect" -> IF d.defs = <<>> THEN <<>> ELSE <<Join(d.defs, ",")>>
                   [] d.type = "confirm"     -> IF def = "" THEN <<>> ELSE <<Bool(Truth(def))>>
                   [] OTHER -> IF def = "" THEN <<>> ELSE <<def>>

(* ------------------------------------------------------------- a chain *)
RECURSIVE Feed(_, _, _, _, _)
Feed(d, def, s, keys, i) ==           \* <<form, keys used>>
  IF s.ph \in {"done", "cancelled"} \/ i > Len(keys) THEN <<s, i - 1>> ELSE Feed(d, def, Key(d, def, s, keys[i]), keys, i + 1)
\* entry: <<[d, keys]..>>; result: [end: "ok" | "fail" | "cancel" | "open", ans, used: <<keys used..>>]
RECURSIVE Chain(_, _, _, _, _)
Chain(es, tty, i, ans, used) ==
  IF i > Len(es) THEN [end |-> "ok", ans |-> ans, used |-> used]
  ELSE LET d == es[i].d
           def == Expand(d.def, ans)
       IN IF ~tty THEN IF NoOne(d, def) = <<>> THEN [end |-> "fail", ans |-> ans, used |-> used]
                       ELSE Chain(es, tty, i + 1, Append(ans, NoOne(d, def)[1]), Append(used, 0))
          ELSE LET f == Feed(d, def, Open(d, def), es[i].keys, 1)
               IN IF f[1].ph = "done" THEN Chain(es, tty, i + 1, Append(ans, Value(d, def, f[1])), Append(used, f[2]))
                  ELSE [end |-> IF f[1].ph = "cancelled" THEN "cancel" ELSE "open", ans |-> ans, used |-> Append(used, f[2])]
==============================================================================
