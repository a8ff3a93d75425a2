-------------------------------- MODULE ViewMC --------------------------------
(* The views over every history of a small run: two roots, the first of which *)
(* may open nested blocks of two items twice.  Truth is read off the history. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Sym == [stopped |-> "s", failed |-> "x", ok |-> "v", waiting |-> ".", running |-> "o", head |-> "=", bar |-> "|", foot |-> "L", more |-> "~", waits |-> "W", runs |-> "R", nothing |-> "N"]
INSTANCE View
CONSTANTS MaxLen, Mode
VARIABLES v, h       \* h: the messages so far
Kids == {"0.0", "0.1"}
Keys == {"0", "1"} \cup Kids
(* What the run still may send is a matter of the run, not of the view. *)
Idx(P(_)) == {i \in 1..Len(h) : P(h[i])}
Last(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Born(k) == IF k \in {"0", "1"} THEN 0 ELSE Last(Idx(LAMBDA m : m.m = "reg" /\ m.key = k))
Gone(k) == k \in Kids /\ Last(Idx(LAMBDA m : m.m = "clear")) >= Born(k)
Since(k, kind) == {i \in (Born(k) + 1)..Len(h) : h[i].m = kind /\ h[i].key = k}
Started(k) == Since(k, "start") # {}
Done(k)    == Since(k, "done") # {}
Live       == {k \in Keys : ~Gone(k)}
Active(k)  == k \in Live /\ Started(k) /\ ~Done(k)
Open       == \E k \in Kids : k \in Live
M(kind, k) == [m |-> kind, key |-> k]
Sent(m)    == v' = Msg(v, m) /\ h' = Append(h, m)
Run ==
  \/ \E k \in Live : ~Started(k) /\ ~Done(k) /\ Sent(M("start", k))
  \/ \E k \in Keys : Active(k) /\ ~(k = "0" /\ Open) /\ Sent(M("out", k) @@ [line |-> ToString(Len(h))])
  \/ \E k \in Keys : Active(k) /\ ~(k = "0" /\ Open) /\ \E e \in {"", "fail"} : Sent(M("done", k) @@ [err |-> e, why |-> e])
  \/ Active("0") /\ "0.0" \notin Live /\ Sent(M("reg", "0.0") @@ [parent |-> "0", label |-> "k0"])
  \/ Active("0") /\ "0.0" \in Live /\ "0.1" \notin Live /\ ~Started("0.0") /\ Sent(M("reg", "0.1") @@ [parent |-> "0", label |-> "k1"])
  \/ Open /\ (\A k \in Kids \cap Live : Done(k)) /\ Sent(M("clear", "0"))
  \/ Done("0") /\ Done("1") /\ Sent(M("all", ""))
  \/ \E k \in {"^C", "TAB", "BTAB", "UP"} : (Mode = "tabs" \/ k = "^C") /\ Sent([m |-> "key", key |-> k])
Init == v = [View0(Mode, <<"A", "B">>) EXCEPT !.h = 6, !.w = 20] /\ h = <<>>
Next == Len(h) < MaxLen /\ ~v.over /\ Run
---------------------------------------------------------------------------
Pressed == \E i \in 1..Len(h) : h[i].m = "key" /\ h[i].key = "^C"
Truth(k) == IF Done(k) THEN LET e == h[Last(Since(k, "done"))].err IN IF e = "" THEN "v" ELSE "x"
            ELSE IF Pressed THEN "s" ELSE IF Started(k) THEN "o" ELSE "."
Outs(k) == LET from == Max(Born(k), Last(Idx(LAMBDA m : m.m = "reg" /\ m.parent = k)))
               is == {i \in (from + 1)..Len(h) : h[i].m = "out" /\ h[i].key = k}
           IN [n \in 1..Cardinality(is) |-> h[CHOOSE i \in is : Cardinality({j \in is : j <= i}) = n].line]
Tail5(s) == IF Len(s) > 5 THEN SubSeq(s, Len(s) - 4, Len(s)) ELSE s
Rows == Show(v).rows
Row(t) == {i \in 1..Len(Rows) : Len(Rows[i]) >= Len(t) /\ SubSeq(Rows[i], 1, Len(t)) = t}
(* Every live item is shown once, with its true status and under its root. *)
Status == v.over \/ IF Mode = "grouped"
  THEN /\ Cardinality(Row("= A " \o Truth("0"))) = 1 /\ Cardinality(Row("= B " \o Truth("1"))) = 1
       /\ Cardinality(Row("= ")) = 2
       /\ \A k \in Kids : LET l == IF k = "0.0" THEN "k0" ELSE "k1" IN
            IF k \in Live THEN \E i \in Row("|  " \o Truth(k) \o " " \o l) : i > 1 /\ \A j \in Row("= B") : i < j
            ELSE \A t \in {"v", "x", "s", "o", "."} : Row("|  " \o t \o " " \o l) = {}
  ELSE /\ [i \in 1..2 |-> Show(v).bar[i].icon] = <<Truth("0"), Truth("1")>>
       /\ Cardinality({i \in 1..2 : Show(v).bar[i].sel}) = 1
Words(k) == IF Outs(k) = <<>> THEN {} ELSE {Outs(k)[Len(Outs(k))]}
(* The latest lines, in order. *)
Lines == v.over \/ IF Mode = "grouped"
  THEN LET a == CHOOSE i \in Row("= A") : TRUE  b == CHOOSE i \in Row("= B") : TRUE
           Got(from, to) == LET all == [i \in 1..(to - from - 2) |-> Rows[from + i]] IN SelectSeq(all, LAMBDA r : Len(r) > 1)
       IN /\ ~Open => Got(a, b) = [i \in 1..Len(Tail5(Outs("0"))) |-> "|  " \o Tail5(Outs("0"))[i]]
          /\ Got(b, Len(Rows) + 1) = [i \in 1..Len(Tail5(Outs("1"))) |-> "|  " \o Tail5(Outs("1"))[i]]
          /\ \A k \in Kids \cap Live : ~Done(k) => \A w \in Words(k) : \E i \in 1..Len(Rows) : LET r == Rows[i] IN r = Cut("|  " \o Truth(k) \o " " \o (IF k = "0.0" THEN "k0" ELSE "k1") \o "  " \o w, 20)
  ELSE LET k == IF v.sel = 1 THEN "0" ELSE "1"  o == Outs(k)
           moved == \E i \in 1..Len(h) : h[i].m = "key" /\ h[i].key = "UP"
       IN (k = "1" \/ ~Open) => /\ \A i \in 1..Len(Rows) : o # <<>> => i + v.off <= Len(o) /\ Rows[i] = o[i + v.off]
                                /\ o # <<>> => Len(Rows) = Min(2, Len(o) - v.off)
                                /\ (~moved /\ o # <<>>) => v.off + Len(Rows) = Len(o)
Steps == LET Net(i) == IF h[i].m # "key" THEN 0 ELSE IF h[i].key \in {"TAB", "BTAB"} THEN 1 ELSE 0
         IN Mode = "tabs" => v.sel = 1 + (Cardinality({i \in 1..Len(h) : Net(i) = 1}) % 2)
Once  == v.cancels = IF Pressed THEN 1 ELSE 0
Ends  == v.over <=> \E i \in 1..Len(h) : h[i].m = "all"
==============================================================================
