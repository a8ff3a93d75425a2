------------------------------- MODULE Values -------------------------------
(* The value semantics of a Babfile: substitution, variable scopes,          *)
(* conditions.  A result is [ok |-> BOOLEAN, v |-> value].                   *)
EXTENDS Str

Ok(v)  == [ok |-> TRUE,  v |-> v]
Err(v) == [ok |-> FALSE, v |-> v]

NameStart == Letters \cup {"_"}
NameChars == NameStart \cup Digits \cup {"."}

(* A reference ${{ name }} starting at position i: [n |-> length, name |-> ..]; *)
(* n = 0 if there is none.                                                      *)
RefAt(s, i) ==
  IF ~StartsAt(s, i, "${{") THEN [n |-> 0, name |-> ""]
  ELSE LET a == Skip(s, i + 3, WS)
           b == IF a <= Len(s) /\ Ch(s, a) \in NameStart THEN Skip(s, a, NameChars) ELSE a
           c == Skip(s, b, WS)
       IN IF b > a /\ StartsAt(s, c, "}}")
          THEN [n |-> c + 2 - i, name |-> SubSeq(s, a, b - 1)]
          ELSE [n |-> 0, name |-> ""]

IsEnvRef(name) == HasPrefix(name, "env.")
EnvVal(env, name) == LET k == From(name, 5) IN IF k \in DOMAIN env THEN env[k] ELSE ""

RECURSIVE Interp_(_, _, _, _, _)
Interp_(s, i, acc, vars, env) ==
  IF i > Len(s) THEN Ok(acc)
  ELSE IF Ch(s, i) # "$" THEN
       LET j == CHOOSE k \in (i+1)..(Len(s)+1) :
                   /\ (k = Len(s) + 1 \/ Ch(s, k) = "$")
                   /\ \A m \in i..(k-1) : Ch(s, m) # "$"
       IN Interp_(s, j, acc \o SubSeq(s, i, j - 1), vars, env)
  ELSE IF StartsAt(s, i, "$${{") THEN Interp_(s, i + 4, acc \o "${{", vars, env)
  ELSE LET r == RefAt(s, i) IN
       IF r.n = 0 THEN Interp_(s, i + 1, acc \o "$", vars, env)
       ELSE IF IsEnvRef(r.name) THEN Interp_(s, i + r.n, acc \o EnvVal(env, r.name), vars, env)
       ELSE IF r.name \in DOMAIN vars THEN Interp_(s, i + r.n, acc \o vars[r.name], vars, env)
       ELSE Err(r.name)
Interp(s, vars, env) == Interp_(s, 1, "", vars, env)

\* names referenced (unescaped) by s, env references excluded
RECURSIVE Refs_(_, _)
Refs_(s, i) ==
  IF i > Len(s) THEN {}
  ELSE IF StartsAt(s, i, "$${{") THEN Refs_(s, i + 4)
  ELSE LET r == RefAt(s, i) IN
       IF r.n = 0 THEN Refs_(s, i + 1)
       ELSE (IF IsEnvRef(r.name) THEN {} ELSE {r.name}) \cup Refs_(s, i + r.n)
Refs(s) == Refs_(s, 1)

(* Resolution of a scope of raw definitions over an already resolved parent  *)
(* scope.  Declarative: a definition may refer to its siblings in any order  *)
(* and to the parent; the whole scope fails if a sibling cycle exists or a   *)
(* referenced name exists in neither scope.                                  *)
RECURSIVE ReachVars(_, _)
ReachVars(raw, S) ==
  LET N == S \cup UNION {Refs(raw[x]) \cap DOMAIN raw : x \in S}
  IN IF N = S THEN S ELSE ReachVars(raw, N)
CyclicVar(raw, x) == x \in ReachVars(raw, Refs(raw[x]) \cap DOMAIN raw)
RECURSIVE ValOf(_, _, _, _)
ValOf(raw, parent, env, x) ==
  LET sib == Refs(raw[x]) \cap DOMAIN raw
      sc  == [y \in sib \cup DOMAIN parent |->
                 IF y \in sib THEN ValOf(raw, parent, env, y) ELSE parent[y]]
  IN Interp(raw[x], sc, env).v
ScopeOK(raw, parent) ==
  /\ \A x \in DOMAIN raw : ~CyclicVar(raw, x)
  /\ \A x \in DOMAIN raw : Refs(raw[x]) \subseteq DOMAIN raw \cup DOMAIN parent
Scope(raw, parent, env) ==
  IF ~ScopeOK(raw, parent) THEN Err(EmptyMap)
  ELSE Ok(Over([x \in DOMAIN raw |-> ValOf(raw, parent, env, x)], parent))

\* nested scopes: scs is a sequence of raw definitions, outermost first
RECURSIVE Scopes(_, _, _)
Scopes(scs, parent, env) ==
  IF scs = <<>> THEN Ok(parent)
  ELSE LET s == Scope(scs[1], parent, env) IN IF s.ok THEN Scopes(Tail(scs), s.v, env) ELSE s

(* Conditions.  A comparison is  L op 'R'  or  L op "R"  up to the end of    *)
(* the trimmed condition, as written (before substitution), where R contains *)
(* no quote of its kind and the operator is the first one for which this is  *)
(* so.  Operators and quotes inside substituted values are just text.        *)
Ops == {"==", "!="}
\* positions p at which an operator stands and the rest is a quoted word
CmpAt(s, q, p) ==
  /\ \E o \in Ops : StartsAt(s, p, o)
  /\ LET a == Skip(s, p + 2, WS)
     IN /\ a < Len(s)
        /\ Ch(s, a) = q /\ Ch(s, Len(s)) = q
        /\ \A k \in (a+1)..(Len(s)-1) : Ch(s, k) # q
CmpPos(s, q) == {p \in 1..Len(s) : CmpAt(s, q, p)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Quote(s) == IF CmpPos(s, "'") # {} THEN "'" ELSE IF CmpPos(s, "\"") # {} THEN "\"" ELSE ""
Truthy(t) == LET v == Trim(t) IN v # "" /\ ToLower(v) # "false"
\* the left side is stripped of blanks, then of surrounding quotes
Cond(w, vars, env) ==
  LET s == Trim(w)
      q == Quote(s)
  IN IF w = "" THEN Ok(TRUE)
     ELSE IF q = "" THEN LET r == Interp(w, vars, env) IN IF r.ok THEN Ok(Truthy(r.v)) ELSE Err(FALSE)
     ELSE LET p == MinOf(CmpPos(s, q))
              a == Skip(s, p + 2, WS)
              l == Interp(SubSeq(s, 1, p - 1), vars, env)
              r == Interp(SubSeq(s, a + 1, Len(s) - 1), vars, env)
          IN IF ~l.ok \/ ~r.ok THEN Err(FALSE)
             ELSE Ok((TrimSet(Trim(l.v), {"'", "\""}) = r.v) <=> StartsAt(s, p, "=="))
=============================================================================
