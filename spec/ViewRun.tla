------------------------------- MODULE ViewRun -------------------------------
(* What a run with parallel blocks makes the live view show: the events of    *)
(* the commands (started, wrote lines, ended) and of the terminal, turned     *)
(* into the messages of View.                                                 *)
(* A program: [blocks, ts]; block: [items, limit, s]; item: [label, steps, s, *)
(* ts, own]; s, ts: silent as written on it and on the task ("y", "n", "").   *)
(* step: [k |-> "cmd", id] | [k |-> "say", line] | [k |-> "par", block].      *)
(* Blocks with a limit contain commands only, and which of them get a place   *)
(* is the choice of the run: the events tell.                                 *)
(* S: [v, prog, blk, nb, left, res, part, ctx, bsil]                          *)
(*   prog[k]: steps still to do of item k; blk[k]: the block running in k     *)
(*   ("" for the main one); res[k]: "" | "ok" | "fail"; nb: block number;     *)
(*   part[k]: the line item k has not finished; ctx[k]: [o, t] the silent     *)
(*   handed down to item k and that of its task; bsil[k]: that of its block   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json
Sym == JsonDeserialize(IOEnv.SYM)
INSTANCE View
Batch == JsonDeserialize(IOEnv.BATCH)

Kid(p, i) == IF p = "" THEN Name(i) ELSE p \o "." \o Name(i)
CL == INSTANCE Clean
First(a, b)  == IF a # "" THEN a ELSE b
Quiet(c)     == First(c.o, c.t) = "y"
EchoC(c, t)  == IF Quiet(c) THEN <<>> ELSE <<t>>
RECURSIVE Chars(_, _)
Chars(cs, i) == IF i > Len(cs) THEN "" ELSE Sym.ch[ToString(cs[i])] \o Chars(cs, i + 1)
Readable(cs)    == Chars(CL!CleanLine(cs, TRUE), 1)
RECURSIVE Outs(_, _, _, _)
Outs(v, k, ls, i) == IF i > Len(ls) THEN v ELSE Outs(Msg(v, [m |-> "out", key |-> k, line |-> ls[i]]), k, ls, i + 1)
Put(S, k, ls) == [S EXCEPT !.v = Outs(@, k, ls, 1)]
(* What item k wrote: its finished lines are shown, the rest waits for more   *)
(* or for the end of the item.                                                *)
RECURSIVE Wrote(_, _, _)
Wrote(S, k, cs) == LET i == CL!FirstLF(cs, 1) IN
  IF i = 0 THEN [S EXCEPT !.part = (k :> cs) @@ @]
  ELSE Wrote(Put(S, k, <<Readable(SubSeq(cs, 1, i - 1))>>), k, SubSeq(cs, i + 1, Len(cs)))
Part(S, k)  == IF k \in DOMAIN S.part THEN S.part[k] ELSE <<>>
Flush(S, k) == IF Part(S, k) = <<>> THEN S ELSE [Put(S, k, <<Readable(S.part[k])>>) EXCEPT !.part[k] = <<>>]
Say(S, m)     == [S EXCEPT !.v = Msg(@, m)]
Sign(r) == IF r = "ok" THEN Sym.ok ELSE Sym.failed
RECURSIVE List(_, _, _, _)
List(S, p, b, i) == IF i > Len(b.items) THEN "" ELSE (IF i = 1 THEN "" ELSE "  ") \o b.items[i].label \o " " \o Sign(S.res[Kid(p, i)]) \o List(S, p, b, i + 1)
Summary(S, p, b) == Sym.dot \o " Parallel [" \o List(S, p, b, 1) \o "]"

RECURSIVE Go(_, _, _), Finish(_, _, _, _), Enter(_, _, _, _, _), Register(_, _, _, _), Open(_, _, _), Block(_, _, _, _)
Register(S, p, b, i) == IF i > Len(b.items) THEN S
  ELSE Register(Say(S, [m |-> "reg", key |-> Kid(p, i), parent |-> p, label |-> b.items[i].label]), p, b, i + 1)
(* The items of the block run by item p from number i on. *)
Enter(P, S, p, b, i) == IF i > Len(b.items) THEN S
  ELSE LET k == Kid(p, i)
           it == b.items[i]
           c == [o |-> First(it.s, S.bsil[p].o), t |-> IF it.own THEN it.ts ELSE S.bsil[p].t]
           T == [S EXCEPT !.prog = (k :> it.steps) @@ @, !.res = (k :> "") @@ @, !.ctx = (k :> c) @@ @]
       IN Enter(P, IF b.limit > 0 THEN T ELSE Go(P, Say(T, [m |-> "start", key |-> k]), k), p, b, i + 1)
Block(P, S, p, b) == LET u == IF p = "" THEN [o |-> "", t |-> P.ts] ELSE S.ctx[p]
                         T == [S EXCEPT !.blk = (p :> b) @@ @, !.left = (p :> Len(b.items)) @@ @, !.bsil = (p :> [o |-> First(b.s, u.o), t |-> u.t]) @@ @] IN
                     Enter(P, IF p = "" THEN T ELSE Register(T, p, b, 1), p, b, 1)
(* Item k goes on until it has to wait. *)
Go(P, S, k) ==
  IF S.prog[k] = <<>> THEN Finish(P, S, k, "ok")
  ELSE LET st == Head(S.prog[k]) IN
    CASE st.k = "say" -> Go(P, Put([S EXCEPT !.prog[k] = Tail(@)], k, EchoC(S.ctx[k], st.line)), k)
      [] st.k = "par" -> Block(P, S, k, st.block)
      [] OTHER -> S
Parent(S, k) == CHOOSE p \in DOMAIN S.blk : \E i \in 1..Len(S.blk[p].items) : Kid(p, i) = k
Finish(P, S, k, r) ==
  LET T == Say([Flush(S, k) EXCEPT !.res[k] = r], [m |-> "done", key |-> k, err |-> IF r = "ok" THEN "" ELSE "fail", why |-> S.why])
      p == Parent(S, k)
      U == [T EXCEPT !.left[p] = @ - 1]
      b == U.blk[p]
      allok == \A i \in 1..Len(b.items) : U.res[Kid(p, i)] = "ok"
  IN IF U.left[p] > 0 THEN U
     ELSE IF p = "" THEN
       LET V == [U EXCEPT !.v = Msg(@, [m |-> "all"]), !.said = Append(@, IF Quiet(U.bsil[""]) THEN "" ELSE Summary(U, "", b))] IN
       IF allok /\ V.nb < Len(P.blocks) THEN Open(P, V, V.nb + 1) ELSE [V EXCEPT !.end = IF allok THEN "ok" ELSE "fail"]
     ELSE LET V == Put(Say(U, [m |-> "clear", key |-> p]), p, EchoC(U.bsil[p], Summary(U, p, b)))
              W == [V EXCEPT !.prog[p] = Tail(@)]
          IN IF allok THEN Go(P, W, p) ELSE Finish(P, W, p, "fail")
Open(P, S, n) ==
  LET b == P.blocks[n]
      S1 == [S EXCEPT !.v = [View0(P.mode, [i \in 1..Len(b.items) |-> b.items[i].label]) EXCEPT !.w = S.v.w, !.h = S.v.h], !.nb = n,
             !.blk = <<>>, !.left = <<>>, !.prog = <<>>, !.res = <<>>, !.part = <<>>, !.ctx = <<>>, !.bsil = <<>>]
  IN Block(P, S1, "", b)

Start(P) == Open(P, [v |-> [w |-> P.w, h |-> P.h], nb |-> 0, blk |-> <<>>, left |-> <<>>, prog |-> <<>>, res |-> <<>>, part |-> <<>>, ctx |-> <<>>, bsil |-> <<>>, said |-> <<>>, end |-> "", why |-> "*"], 1)
(* The item whose next step is command id. *)
Owner(S, id) == CHOOSE k \in DOMAIN S.prog : S.prog[k] # <<>> /\ S.res[k] = "" /\ Head(S.prog[k]).k = "cmd" /\ Head(S.prog[k]).id = id
Event(P, S, e) ==
  CASE e.e = "start" -> LET k == Owner(S, e.id)
                            T == IF S.v.items[k].st = "waiting" THEN Say(S, [m |-> "start", key |-> k]) ELSE S
                        IN Put(T, k, EchoC(S.ctx[k], "$ probe run " \o e.id))
    [] e.e = "write" -> LET k == Owner(S, e.id) IN Wrote(S, k, Part(S, k) \o e.raw)
    [] e.e = "end"   -> LET k == Owner(S, e.id) IN
                        IF e.code = 0 THEN Go(P, [S EXCEPT !.prog[k] = Tail(@)], k) ELSE Finish(P, S, k, "fail")
    [] e.e = "key"   -> Say(S, [m |-> "key", key |-> e.key])
    [] e.e = "size"  -> Say(S, [m |-> "size", w |-> e.w, h |-> e.h])

(* What is seen after every group of events: the screen, the summaries of the *)
(* blocks that have ended, and the outcome.                                   *)
RECURSIVE Group1(_, _, _, _), Shots(_, _, _, _)
Group1(P, S, es, i) == IF i > Len(es) THEN S ELSE Group1(P, Event(P, S, es[i]), es, i + 1)
Shots(P, S, gs, i) == IF i > Len(gs) THEN <<>>
  ELSE LET T == Group1(P, S, gs[i], 1) IN <<[show |-> Show(T.v), said |-> T.said, end |-> T.end]>> \o Shots(P, T, gs, i + 1)

VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> Shots(Batch[i].prog, Start(Batch[i].prog), Batch[i].groups, 1)])
==============================================================================
