-------------------------------- MODULE View --------------------------------
(* The live views of parallel blocks: what the messages of the run and the    *)
(* keys of the user make them show.                                           *)
(* A view: [mode, items, roots, w, h, over, cancelled, cancels, sel, off].    *)
(*   items maps the keys of the live items to                                 *)
(*     [label, lines, st, kids, why] with st "waiting" | "running" | "ok" |       *)
(*     "failed" | "stopped".                                                  *)
(*   sel, off: tabs mode, the selected root and the first content line shown. *)
(* Messages: reg start out done clear all size key.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Sym       \* the characters of the screen that are not ASCII

Shown == 5         \* output lines of a running item in grouped mode

Item(label) == [label |-> label, lines |-> <<>>, st |-> "waiting", kids |-> <<>>, why |-> ""]
Name(i) == ToString(i - 1)
View0(mode, labels) ==
  [mode |-> mode, items |-> [k \in {Name(i) : i \in 1..Len(labels)} |-> Item(labels[CHOOSE i \in 1..Len(labels) : Name(i) = k])],
   roots |-> [i \in 1..Len(labels) |-> Name(i)], w |-> 80, h |-> 0, over |-> FALSE, cancelled |-> FALSE, cancels |-> 0, sel |-> 1, off |-> 0]

Cut(t, n)  == IF Len(t) <= n THEN t ELSE SubSeq(t, 1, n)
Blank(t)   == \A i \in 1..Len(t) : SubSeq(t, i, i) = " "
Max(a, b)  == IF a > b THEN a ELSE b
Min(a, b)  == IF a < b THEN a ELSE b
Settled(it) == it.st \in {"ok", "failed", "stopped"}

Icon(v, it) == CASE it.st = "stopped" -> Sym.stopped [] it.st = "failed" -> Sym.failed [] it.st = "ok" -> Sym.ok
                 [] v.cancelled -> Sym.stopped [] it.st = "waiting" -> Sym.waiting [] OTHER -> Sym.running

---------------------------------------------------------------------------
(* Grouped mode *)
LastWords(it) == LET full == {i \in 1..Len(it.lines) : ~Blank(it.lines[i])} IN
                 IF full = {} THEN "" ELSE it.lines[CHOOSE i \in full : \A j \in full : j <= i]
Compact(v, it, ind) ==
  LET pre == Icon(v, it) \o " " \o it.label
      sn == IF it.st = "ok" THEN "" ELSE LastWords(it)
      room == v.w - Len(ind) - Len(pre)
      short == IF Len(sn) > room - 2 THEN Cut(sn, room - 3) \o Sym.more ELSE sn
  IN  Cut(IF sn = "" \/ room <= 2 THEN ind \o pre ELSE ind \o pre \o "  " \o short, v.w)
RECURSIVE Nested(_, _, _), Many(_, _, _, _)
Many(v, ks, ind, i) == IF i > Len(ks) THEN <<>> ELSE Nested(v, ks[i], ind) \o Many(v, ks, ind, i + 1)
Nested(v, k, ind) == <<Compact(v, v.items[k], ind)>> \o Many(v, v.items[k].kids, ind \o "  ", 1)
Group(v, k) ==
  LET it == v.items[k]
      ls == it.lines
  IN <<Cut(Sym.head \o " " \o it.label \o " " \o Icon(v, it), v.w)>>
     \o (IF it.kids # <<>> THEN Many(v, it.kids, Sym.bar \o "  ", 1)
         ELSE [i \in 1..Len(ls) |-> Cut(Sym.bar \o "  " \o ls[i], v.w)]
              \o [i \in 1..(IF Settled(it) \/ ls = <<>> THEN 0 ELSE Shown - Len(ls)) |-> Cut(Sym.bar, v.w)])
     \o <<Cut(Sym.foot, v.w)>>
RECURSIVE Groups(_, _)
Groups(v, i) == IF i > Len(v.roots) THEN <<>> ELSE Group(v, v.roots[i]) \o Groups(v, i + 1)

---------------------------------------------------------------------------
(* Tabs mode *)
Wide(v) == Max(v.w - 2, 1)
High(v) == Max(v.h - 4, 1)
Content(v) ==
  LET it == v.items[v.roots[v.sel]]
      Line(c) == LET pre == Icon(v, c) \o " " \o c.label IN
                 IF c.st \in {"failed", "stopped"} THEN pre \o "  " \o c.why
                 ELSE IF c.lines # <<>> /\ ~Blank(c.lines[Len(c.lines)]) THEN pre \o "  " \o c.lines[Len(c.lines)] ELSE pre
  IN  IF it.kids # <<>> THEN [i \in 1..Len(it.kids) |-> Line(v.items[it.kids[i]])]
      ELSE IF it.lines # <<>> THEN it.lines
      ELSE <<CASE it.st = "waiting" -> Sym.waits [] it.st = "running" -> Sym.runs [] OTHER -> Sym.nothing>>
LastOff(v) == LET c == Content(v) IN Max(Len(c), High(v)) - High(v)
Window(v)  == LET c == Content(v) IN [i \in 1..Min(High(v), Len(c) - v.off) |-> Cut(c[v.off + i], Wide(v))]
Bar(v)     == [i \in 1..Len(v.roots) |-> [icon |-> Icon(v, v.items[v.roots[i]]), label |-> v.items[v.roots[i]].label, sel |-> i = v.sel]]
(* Who looks at the end of the output keeps looking at the end of it. *)
Follow(old, v) == [v EXCEPT !.off = IF old.off >= LastOff(old) THEN LastOff(v) ELSE Min(old.off, LastOff(v))]

---------------------------------------------------------------------------
Keep(v, ls) == IF v.mode = "grouped" /\ Len(ls) > Shown THEN SubSeq(ls, Len(ls) - Shown + 1, Len(ls)) ELSE ls
RECURSIVE Below(_, _)
Below(v, k) == LET ks == v.items[k].kids IN {ks[i] : i \in 1..Len(ks)} \cup UNION {Below(v, ks[i]) : i \in 1..Len(ks)}

Change(v, m) ==
  CASE m.m = "size" -> [v EXCEPT !.w = m.w, !.h = m.h]
    [] m.m = "reg" ->
         [v EXCEPT !.items = [k \in DOMAIN v.items \cup {m.key} |->
              IF k = m.key THEN Item(m.label)
              ELSE IF k = m.parent THEN [v.items[k] EXCEPT !.kids = Append(@, m.key), !.lines = <<>>] ELSE v.items[k]]]
    [] m.m = "start" -> [v EXCEPT !.items[m.key].st = "running"]
    [] m.m = "out" -> [v EXCEPT !.items[m.key].lines = Keep(v, Append(@, m.line))]
    [] m.m = "done" -> [v EXCEPT !.items[m.key].why = m.why, !.items[m.key].st = CASE m.err = "" -> "ok" [] m.err = "fail" -> "failed" [] OTHER -> "stopped"]
    [] m.m = "clear" -> LET gone == Below(v, m.key) IN
         [v EXCEPT !.items = [k \in DOMAIN v.items \ gone |-> IF k = m.key THEN [v.items[k] EXCEPT !.kids = <<>>] ELSE v.items[k]]]
    [] OTHER -> v

Msg(v, m) ==
  IF v.over THEN v
  ELSE IF m.m = "all" THEN [v EXCEPT !.over = TRUE]
  ELSE IF m.m = "key" THEN
    LET n == Len(v.roots)
        Select(i) == LET u == [v EXCEPT !.sel = i] IN [u EXCEPT !.off = LastOff(u)]
    IN CASE m.key = "^C" -> IF v.cancelled THEN v ELSE [v EXCEPT !.cancelled = TRUE, !.cancels = @ + 1]
         [] v.mode = "tabs" /\ m.key = "TAB"  -> Select(IF v.sel = n THEN 1 ELSE v.sel + 1)
         [] v.mode = "tabs" /\ m.key = "BTAB" -> Select(IF v.sel = 1 THEN n ELSE v.sel - 1)
         [] v.mode = "tabs" /\ m.key = "UP"   -> [v EXCEPT !.off = IF @ = 0 THEN 0 ELSE @ - 1]
         [] v.mode = "tabs" /\ m.key = "DOWN" -> [v EXCEPT !.off = Min(@ + 1, LastOff(v))]
         [] OTHER -> v
  ELSE LET u == Change(v, m) IN IF v.mode = "tabs" THEN Follow(v, u) ELSE u

(* What is on the screen.  Whether nested items of the selected tab change    *)
(* their sign at ctrl+c or at the next message is left open (alt).            *)
Show(v) == IF v.over THEN [over |-> TRUE, bar |-> <<>>, rows |-> <<>>, alt |-> <<>>, cancels |-> v.cancels]
           ELSE IF v.mode = "grouped" THEN [over |-> FALSE, bar |-> <<>>, rows |-> Groups(v, 1), alt |-> <<>>, cancels |-> v.cancels]
           ELSE [over |-> FALSE, bar |-> Bar(v), rows |-> Window(v), alt |-> Window([v EXCEPT !.cancelled = FALSE]), cancels |-> v.cancels]
==============================================================================
