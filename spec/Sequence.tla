------------------------------ MODULE Sequence ------------------------------
(* A sequence handed out one by one, and the other ways of going through    *)
(* it.  base: what one gets with "next" alone; i: how many are gone.        *)
EXTENDS Bytes, SequencesExt
At(base, i) == IF i \in 1..Len(base) THEN <<base[i]>> ELSE <<>>
Ahead(base, i) == SubSeq(base, i + 1, Len(base))
Gone(base, i) == IF i > Len(base) THEN Len(base) ELSE i
Every(base, i, k) == LET r == Ahead(base, i) IN [j \in 1..((Len(r) + k - 1) \div k) |-> r[(j - 1) * k + 1]]
(* o: operation, k: its number; the answer is a sequence of items or of numbers *)
Answer(base, i, o, k) ==
  CASE o = "next" -> At(base, i + 1)
    [] o = "nth" -> At(base, i + 1 + k)
    [] o = "take" -> SubSeq(base, i + 1, IF i + k < Len(base) THEN i + k ELSE Len(base))
    (* on a copy *)
    [] o = "count" -> <<Len(base) - i>>
    [] o = "last" -> IF i < Len(base) THEN <<base[Len(base)]>> ELSE <<>>
    [] o \in {"fold", "each", "collect"} -> Ahead(base, i)
    [] o = "skip" -> Ahead(base, Gone(base, i + k))
    [] o = "step" -> Every(base, i, k)
(* bounds announced for what is left: <<at least>> or <<at least, at most>> *)
HintRight(base, i, v) == v[1] <= Len(base) - i /\ (Len(v) > 1 => Len(base) - i <= v[2])
Moved(base, i, o, k) ==
  CASE o = "next" -> Gone(base, i + 1) [] o = "nth" -> Gone(base, i + 1 + k) [] o = "take" -> Gone(base, i + k)
    [] OTHER -> i
=============================================================================
