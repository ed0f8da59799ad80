--------------------------- MODULE MC_SparseSearch --------------------------
(* SparseSearch finds what EntryPoint finds: all byte strings up to MaxLen  *)
(* over a small alphabet, written as filler with parts, offsets to the      *)
(* base 4, candidates at every second byte.                                 *)
EXTENDS Bytes, SequencesExt, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Alphabet == 0..3
Formats2 == << [n |-> "V2", anchor |-> <<3, 1>>, min |-> 3, lenAt |-> 2, majAt |-> 1],
          [n |-> "V3", anchor |-> <<3, 3>>, min |-> 3, lenAt |-> 2, majAt |-> 1] >>
EP == INSTANCE EntryPoint WITH Chunk <- 2, Modulus <- 4, MinMajor <- 1, Formats <- Formats2
SS == INSTANCE SparseSearch WITH H <- 2, EndType <- 3, Base <- 4, Filler <- 1, Chunk <- 2, Formats <- Formats2, Reach <- 4
RECURSIVE RunsFrom(_, _)
RunsFrom(q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE IF q[i] = 1 THEN RunsFrom(q, i + 1)
  ELSE LET ends == {j \in i..Len(q) : \A m \in i..j : q[m] # 1}
           e == CHOOSE j \in ends : \A m \in ends : m <= j
       IN <<[at |-> SS!Wide2(i - 1), b |-> SubSeq(q, i, e)]>> \o RunsFrom(q, e + 1)
Sparse2(q) == [size |-> SS!Wide2(Len(q)), parts |-> RunsFrom(q, 1)]
VARIABLES buf, seen
vars == <<buf, seen>>
Init == buf \in BoundedSeq(Alphabet, MaxLen) /\ seen = <<"none">>
(* what a search of q comes to *)
Outcome(q) ==
  LET s == EP!Run(q, EP!Start)
      fi == EP!FormatAt(q, s.p)
  IN IF s.out = "NotFound" THEN <<"NotFound">>
     ELSE <<Formats2[fi].n, EP!Violations(q, s.p, Formats2[fi]), Slice(q, s.p, IF Len(q) - s.p < 3 THEN Len(q) - s.p ELSE 3)>>
Next == seen = <<"none">> /\ seen' = Outcome(buf) /\ UNCHANGED buf
Spec == Init /\ [][Next]_vars
Agree == seen # <<"none">> => seen = Outcome(SS!Window(Sparse2(buf)))
(* the window begins with the anchor, wherever that was *)
Begins == SS!Window(Sparse2(buf)) # <<>> => EP!FormatAt(SS!Window(Sparse2(buf)), 0) # 0
=============================================================================
