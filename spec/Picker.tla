------------------------------- MODULE Picker -------------------------------
(* C25.  The interactive picker: which tasks a query lists, in which order,   *)
(* what every key does, and what is selected in the end.                      *)
(* task: [name, aliases: <<..>>]                                              *)
EXTENDS Str, Integers

NUL == ""
Fold(c) == LowerOf(c)
Same(c, d) == IF c = NUL \/ d = NUL THEN c = d ELSE Fold(c) = Fold(d)
RECURSIVE Subseq(_, _)               \* q is a subsequence of s, case ignored
Subseq(q, s) == IF q = "" THEN TRUE ELSE IF s = "" THEN FALSE
                ELSE IF Same(Ch(q, 1), Ch(s, 1)) THEN Subseq(From(q, 2), From(s, 2)) ELSE Subseq(q, From(s, 2))
Hits(q, t) == Subseq(q, t.name) \/ \E i \in 1..Len(t.aliases) : Subseq(q, t.aliases[i])

(* ------------------------------------------------- how good a name fits *)
\* Every character of the query is placed at its best position before the
\* next one can begin: first character 10, after a separator 20, upper case
\* after lower case 20, growing bonus for neighbours; leading characters (at
\* most 3) cost 5 each, every unmatched character 1.
Separators == {"/", "-", "_", " ", ".", "\\"}
IsLower(c) == c # NUL /\ c \in Lowers
IsUpper(c) == c # NUL /\ c \in Uppers
Max(a, b) == IF a > b THEN a ELSE b
At(s, i) == IF i \in 1..Len(s) THEN Ch(s, i) ELSE NUL
RECURSIVE Fit(_, _, _, _)
Fit(q, s, j, st) ==                  \* st: [p, best, at, adj, total, n, prev: last placed position]
  IF j > Len(s) THEN st.total + st.n - Len(s)
  ELSE LET c == Ch(s, j)  last == At(s, j - 1)
           hit == Same(c, At(q, st.p)) /\ st.p <= Len(q)
           bonus == IF hit /\ st.n > 0 /\ st.prev = j - 1 THEN 2 * st.adj + 5 ELSE 0
           score == (IF j = 1 THEN 10 ELSE 0) + (IF IsLower(last) /\ IsUpper(c) THEN 20 ELSE 0)
                    + (IF j > 1 /\ last \in Separators THEN 20 ELSE 0) + bonus
           s1 == IF ~hit THEN st
                 ELSE [st EXCEPT !.adj = @ + bonus, !.best = IF score > st.best THEN score ELSE @, !.at = IF score > st.best THEN j ELSE @]
           nextc == At(s, j + 1)
           place == (Same(At(q, st.p + 1), nextc) \/ nextc = NUL) /\ s1.at > 0
           s2 == IF ~place THEN s1
                 ELSE [s1 EXCEPT !.total = @ + s1.best + (IF s1.n = 0 THEN Max(0 - 5 * (s1.at - 1), 0 - 15) ELSE 0),
                                 !.n = @ + 1, !.prev = s1.at, !.p = @ + 1, !.best = 0 - 1]
       IN Fit(q, s, j + 1, s2)
NameFit(q, s) == Fit(q, s, 1, [p |-> 1, best |-> 0 - 1, at |-> 0, adj |-> 0, total |-> 0, n |-> 0, prev |-> 0])
\* an alias that is the query itself, then other aliases, then names - unless a name fits better
Score(q, t) == IF \E i \in 1..Len(t.aliases) : t.aliases[i] = q THEN 1000
               ELSE IF \E i \in 1..Len(t.aliases) : Subseq(q, t.aliases[i]) THEN 500 + Len(q)
               ELSE NameFit(q, t.name)

(* ----------------------------------------------------------- the listing *)
\* order of names: byte order
ByteOrder == "-.0123456789:ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Rank(c) == CHOOSE k \in 1..Len(ByteOrder) : Ch(ByteOrder, k) = c
RECURSIVE Less(_, _)
Less(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
              ELSE IF Ch(a, 1) = Ch(b, 1) THEN Less(From(a, 2), From(b, 2)) ELSE Rank(Ch(a, 1)) < Rank(Ch(b, 1))
Before(q, t, u) == IF q = "" \/ Score(q, t) = Score(q, u) THEN Less(t.name, u.name) ELSE Score(q, t) > Score(q, u)
\* tasks: sequence without order; the listing: positions of tasks in the order shown
RECURSIVE Insert(_, _, _, _)
Insert(ts, q, i, l) == IF l = <<>> THEN <<i>> ELSE IF Before(q, ts[i], ts[l[1]]) THEN <<i>> \o l ELSE <<l[1]>> \o Insert(ts, q, i, Tail(l))
RECURSIVE Sorted(_, _, _)
Sorted(ts, q, S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : TRUE IN Insert(ts, q, i, Sorted(ts, q, S \ {i}))
Listed(ts, q) == Sorted(ts, q, {i \in 1..Len(ts) : Hits(q, ts[i])})

(* ---------------------------------------------------------------- keys *)
\* ph: "open" | "picked" | "left"
Start(ts) == [ph |-> "open", q |-> "", cur |-> 0, row |-> 1, list |-> Listed(ts, ""), pick |-> 0]
Query(ts, s, q, cur) == IF q = s.q THEN [s EXCEPT !.cur = cur] ELSE [s EXCEPT !.q = q, !.cur = cur, !.row = 1, !.list = Listed(ts, q)]
Left(t, c) == SubSeq(t, 1, c)
Key(ts, s, k) ==
  CASE k \in {"ESC", "^C"} -> [s EXCEPT !.ph = "left"]
    [] k = "ENTER" -> IF s.list = <<>> THEN [s EXCEPT !.ph = "left"] ELSE [s EXCEPT !.ph = "picked", !.pick = s.list[s.row]]
    [] k \in {"UP", "^P"}   -> [s EXCEPT !.row = IF @ > 1 THEN @ - 1 ELSE 1]
    [] k \in {"DOWN", "^N"} -> [s EXCEPT !.row = IF @ < Len(s.list) THEN @ + 1 ELSE @]
    [] k = "^U"    -> [Query(ts, s, "", 0) EXCEPT !.row = 1]
    [] k = "^K"    -> Query(ts, s, Left(s.q, s.cur), s.cur)
    [] k = "BS"    -> IF s.cur = 0 THEN s ELSE Query(ts, s, Left(s.q, s.cur - 1) \o From(s.q, s.cur + 1), s.cur - 1)
    [] k = "DEL"   -> Query(ts, s, Left(s.q, s.cur) \o From(s.q, s.cur + 2), s.cur)
    [] k = "LEFT"  -> [s EXCEPT !.cur = IF @ > 0 THEN @ - 1 ELSE 0]
    [] k = "RIGHT" -> [s EXCEPT !.cur = IF @ < Len(s.q) THEN @ + 1 ELSE @]
    [] k = "HOME"  -> [s EXCEPT !.cur = 0]
    [] k = "END"   -> [s EXCEPT !.cur = Len(s.q)]
    [] k = "RESIZE" -> s
    [] OTHER       -> Query(ts, s, Left(s.q, s.cur) \o k \o From(s.q, s.cur + 1), s.cur + 1)
RECURSIVE States(_, _, _, _)
States(ts, s, ks, i) == IF i > Len(ks) \/ s.ph # "open" THEN <<s>> ELSE <<s>> \o States(ts, Key(ts, s, ks[i]), ks, i + 1)
==============================================================================
