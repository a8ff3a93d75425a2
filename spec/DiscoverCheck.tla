---------------------------- MODULE DiscoverCheck ----------------------------
(* entry: [dirs: <<<<name, kind>>..>>.., flag: "" or "yes", fdir, fname, runs: <<[mode, code, used]>>..] *)
(* used: <<dir, name>> as reported by what ran or was listed, or <<0, "">>                                *)
EXTENDS Discover, TLC, IOUtils, Json
Batch == JsonDeserialize(IOEnv.BATCH)
M(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]
Want(b) == LET ds == [i \in 1..Len(b.dirs) |-> M(b.dirs[i])]
           IN IF b.flag = "" THEN Nearest(ds) ELSE Named(ds, b.fdir, b.fname)
Ok(w, r) == LET good == w.found /\ w.kind # "bad"
            IN /\ r.mode # "complete" => (r.code = 0 <=> good)     \* completion never fails, it offers nothing
               /\ r.mode # "validate" => r.used = IF good THEN <<w.dir, w.name>> ELSE <<0, "">>
Bad(b) == LET w == Want(b) IN {b.runs[i].mode : i \in {i \in 1..Len(b.runs) : ~Ok(w, b.runs[i])}}
VARIABLE n
Init == n \in 1..Len(Batch)
Next == FALSE /\ n' = n
Post == TLCGet("generated") >= 0 /\ JsonSerialize(IOEnv.RESULT, [i \in 1..Len(Batch) |-> [bad |-> Bad(Batch[i]), want |-> <<Want(Batch[i])>>]])
==============================================================================
