-------------------------------- MODULE Str --------------------------------
(* Character-level string operators (TLC evaluates Len, SubSeq and \o on     *)
(* strings; a character is a string of length 1).                            *)
EXTENDS Naturals, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
From(s, i) == SubSeq(s, i, Len(s))

WS      == {" ", "\t", "\n", "\r", "\f"}
Lower   == "abcdefghijklmnopqrstuvwxyz"
Upper   == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
\* literal sets: TLC evaluates them once
Uppers  == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Lowers  == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Digits  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
HasPrefix(s, p)   == StartsAt(s, 1, p)
HasSuffix(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p)    == \E i \in 1..(Len(s) + 1) : StartsAt(s, i, p)

\* first position >= i whose character is not in C (Len+1 if none)
RECURSIVE Skip(_, _, _)
Skip(s, i, C) == IF i <= Len(s) /\ Ch(s, i) \in C THEN Skip(s, i + 1, C) ELSE i
\* last position <= i whose character is not in C (0 if none)
RECURSIVE SkipBack(_, _, _)
SkipBack(s, i, C) == IF i >= 1 /\ Ch(s, i) \in C THEN SkipBack(s, i - 1, C) ELSE i

TrimSet(s, C) == LET a == Skip(s, 1, C)
                     b == SkipBack(s, Len(s), C)
                 IN IF a > b THEN "" ELSE SubSeq(s, a, b)
Trim(s) == TrimSet(s, WS)

FoldMap == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
LowerOf(c) == IF c \in Uppers THEN FoldMap[c] ELSE c
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE LowerOf(Ch(s, 1)) \o ToLower(From(s, 2))

RECURSIVE SplitLines(_)
SplitLines(s) == LET i == Skip(s, 1, {Ch(s, k) : k \in 1..Len(s)} \ {"\n"})
                 IN IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitLines(From(s, i + 1))
RECURSIVE Join(_, _)
Join(seq, sep) == IF seq = <<>> THEN ""
                  ELSE IF Len(seq) = 1 THEN seq[1]
                  ELSE seq[1] \o sep \o Join(Tail(seq), sep)

\* maps come from JSON as sequences of <<key, value>> pairs
PairsDom(ps) == {ps[i][1] : i \in 1..Len(ps)}
LastIdx(ps, k) == CHOOSE i \in 1..Len(ps) : ps[i][1] = k /\ \A j \in (i+1)..Len(ps) : ps[j][1] # k
MapOf(ps) == [k \in PairsDom(ps) |-> ps[LastIdx(ps, k)][2]]
Over(hi, lo) == [k \in DOMAIN hi \cup DOMAIN lo |-> IF k \in DOMAIN hi THEN hi[k] ELSE lo[k]]
RECURSIVE Layers(_)                          \* sequence of maps, lowest first
Layers(ms) == IF ms = <<>> THEN <<>> ELSE Over(ms[Len(ms)], Layers(SubSeq(ms, 1, Len(ms) - 1)))
EmptyMap == [k \in {} |-> ""]
=============================================================================
