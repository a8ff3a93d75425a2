----------------------------- MODULE EffectsCheck -----------------------------
(* What bab was observed to do with sets of Babfiles, against Effects.        *)
EXTENDS Effects, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
FS(b) == [p \in {b.fs[i].path : i \in 1..Len(b.fs)} |-> LET i == CHOOSE j \in 1..Len(b.fs) : b.fs[j].path = p IN b.fs[i]]
CtxV(b, root, verbose) == [verbose |-> verbose, fs |-> FS(b), root |-> root, base |-> b.base, env |-> MapOf(b.env), dirs |-> Elems(b.dirs)]
Ctx(b, root) == CtxV(b, root, FALSE)

Lines(recs) == {[s |-> r.s, lab |-> r.lab, text |-> r.text] : r \in {recs[i] : i \in {j \in 1..Len(recs) : recs[j].k = "line"}}}
AsLines(recs) == LET ls == SelectSeq(recs, LAMBDA x : x.k = "line") IN [i \in 1..Len(ls) |-> [s |-> ls[i].s, lab |-> ls[i].lab, text |-> ls[i].text]]
Times(ls, l) == Cardinality({i \in 1..Len(ls) : ls[i] = l})
Cmds(recs)  == {recs[i] : i \in {j \in 1..Len(recs) : recs[j].k = "cmd"}}
Kind(l) == IF HasPrefix(l.text, "$ ") THEN "cmdline"
           ELSE IF HasPrefix(l.text, "OUT:") \/ HasPrefix(l.text, "ERR:") THEN "output"
           ELSE IF HasPrefix(l.text, "RUN ") \/ HasPrefix(l.text, "DEP ") THEN "header"
           ELSE IF \E p \in {"INFO ", "DEBUG ", "WARN ", "ERROR ", ".log"} : HasPrefix(l.text, p) THEN "log" ELSE "line"
ObsCmd(x) == [id |-> x.id, arg |-> x.arg, cwd |-> x.cwd, env |-> MapOf(x.env)]
SpecCmd(x) == [id |-> x.id, arg |-> x.arg, cwd |-> x.cwd, env |-> x.env]

LineBad(want, got) ==
  LET miss == want \ got
      more == got \ want
      relab == {l \in miss : \E k \in more : k.text = l.text /\ k.s = l.s}
  IN (IF relab # {} THEN {"label"} ELSE {}) \cup (IF \E l \in relab : Kind(l) = "log" THEN {"log"} ELSE {})
     \cup {Kind(l) : l \in miss \ relab}
     \cup {Kind(l) : l \in {k \in more : ~\E q \in miss : q.text = k.text /\ q.s = k.s}}

RunBad(b, o) ==
  LET r    == Behaviour(CtxV(b, o.root, o.verbose), o.name)
      want == {SpecCmd(x) : x \in Cmds(r.recs)}
      got  == {ObsCmd(o.cmds[i]) : i \in 1..Len(o.cmds)}
      Pair == {<<w, g>> \in want \X got : w.id = g.id}
      known == \A d \in r.errs : d[1] = "undef"
  IN (IF (o.code = 0) <=> r.ok THEN {} ELSE {"exit"})
     \cup (IF {w.id : w \in want} = {g.id : g \in got} /\ Len(o.cmds) = Cardinality(got) THEN {} ELSE {"executed"})
     \cup (IF \E p \in Pair : p[1].arg # p[2].arg THEN {"arg"} ELSE {})
     \cup (IF \E p \in Pair : p[1].cwd # p[2].cwd THEN {"cwd"} ELSE {})
     \cup (IF \E p \in Pair : p[1].env # p[2].env THEN {"env"} ELSE {})
     \cup LineBad(Lines(r.recs), Elems(o.lines))
     \cup {IF Kind(l) = "log" \/ l.text = "" THEN "log" ELSE "twice" : l \in {k \in Lines(r.recs) \cap Elems(o.lines) : Times(AsLines(r.recs), k) # Times(o.lines, k)}}
     \cup (IF r.ok \/ ~known \/ r.errs = {} THEN {}
           ELSE IF \E d \in r.errs : Len(o.diags) = 1 /\ d[1] = o.diags[1][1] /\ d[2] = o.diags[1][2] /\ d[3] = o.diags[1][3]
                                     /\ (d[4] = "?" \/ d[4] = o.diags[1][4]) THEN {} ELSE {"diag"})

(* An included Babfile against the same Babfile on its own, names prefixed.   *)
PrefixLine(l, ns, names) ==
  [s |-> l.s, lab |-> [i \in 1..Len(l.lab) |-> IF l.lab[i] \in names THEN ns \o ":" \o l.lab[i] ELSE l.lab[i]],
   text |-> IF HasPrefix(l.text, "RUN ") THEN "RUN " \o ns \o ":" \o From(l.text, Len("RUN ") + 1)
            ELSE IF HasPrefix(l.text, "DEP ") THEN "DEP " \o ns \o ":" \o From(l.text, Len("DEP ") + 1) ELSE l.text]
PairBad(b, p) ==
  LET i == b.runs[p.inc]
      a == b.runs[p.alone]
      names == {x.name : x \in Flat(Ctx(b, a.root))}
      SetOf(o) == {ObsCmd(o.cmds[k]) : k \in 1..Len(o.cmds)}
      si == Behaviour(CtxV(b, i.root, i.verbose), i.name)
      sa == Behaviour(CtxV(b, a.root, a.verbose), a.name)
  IN (IF i.code = a.code THEN {} ELSE {"alone-exit"})
     \cup (IF SetOf(i) = SetOf(a) /\ Len(i.cmds) = Len(a.cmds) THEN {} ELSE {"alone-commands"})
     \cup (IF Elems(i.lines) = {PrefixLine(l, p.ns, names) : l \in Elems(a.lines)} /\ Len(i.lines) = Len(a.lines) THEN {} ELSE {"alone-lines"})
     \cup (IF i.view = a.view THEN {} ELSE {"alone-view"})
     \* the specification itself has the property
     \cup (IF /\ si.ok = sa.ok
              /\ {SpecCmd(x) : x \in Cmds(si.recs)} = {SpecCmd(x) : x \in Cmds(sa.recs)}
              /\ Lines(si.recs) = {PrefixLine(l, p.ns, names) : l \in Lines(sa.recs)} THEN {} ELSE {"specification"})

Bad(b) == UNION {RunBad(b, b.runs[i]) : i \in {j \in 1..Len(b.runs) : ~b.runs[j].live}}
          \cup UNION {PairBad(b, b.pairs[i]) : i \in 1..Len(b.pairs)}
Want(b) == [i \in 1..Len(b.runs) |-> LET r == Behaviour(CtxV(b, b.runs[i].root, b.runs[i].verbose), b.runs[i].name) IN
             [name |-> b.runs[i].name, root |-> b.runs[i].root, bad |-> RunBad(b, b.runs[i]), ok |-> r.ok, recs |-> r.recs, errs |-> r.errs]]
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), want |-> IF Bad(Batch[i]) = {} THEN {} ELSE {Want(Batch[i])}]])
=============================================================================
