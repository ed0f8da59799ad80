------------------------------ MODULE MC_Sparse -----------------------------
(* Sparse walks like Walk: all byte strings up to MaxLen over a small       *)
(* alphabet, written as filler with parts, offsets to the base 3.           *)
EXTENDS Bytes, SequencesExt, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Alphabet == 0..3
WK == INSTANCE Walk WITH H <- 2, EndType <- 3
SP == INSTANCE Sparse WITH H <- 2, EndType <- 3, Base <- 3, Filler <- 1
(* the maximal runs of other bytes than the filler *)
RECURSIVE RunsFrom(_, _)
RunsFrom(q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE IF q[i] = 1 THEN RunsFrom(q, i + 1)
  ELSE LET ends == {j \in i..Len(q) : \A m \in i..j : q[m] # 1}
           e == CHOOSE j \in ends : \A m \in ends : m <= j
       IN <<[at |-> SP!Wide2(i - 1), b |-> SubSeq(q, i, e)]>> \o RunsFrom(q, e + 1)
Sparse2(q) == [size |-> SP!Wide2(Len(q)), parts |-> RunsFrom(q, 1)]
VARIABLES buf, decl, major, s, w
vars == <<buf, decl, major, s, w>>
Init ==
  /\ buf \in BoundedSeq(Alphabet, MaxLen)
  /\ decl \in 0..(MaxLen + 2)
  /\ major \in {2, 3}
  /\ s = WK!Begin
  /\ w = SP!Begin
Step == /\ s.live
        /\ s' = WK!Advance(buf, decl, major, s)
        /\ w' = SP!Advance(Sparse2(buf), SP!Wide2(decl), major, w)
        /\ UNCHANGED <<buf, decl, major>>
Next == Step \/ (~s.live /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Agree ==
  LET f == WK!Frame(buf, decl, s.pos)
      g == SP!Frame(Sparse2(buf), SP!Wide2(decl), w.pos)
  IN /\ w.live = s.live
     /\ w.pos = SP!Wide2(s.pos)
     /\ s.live => /\ g.k = f.k /\ g.x = f.x /\ g.seen = f.seen
                  /\ g.o = SP!Wide2(f.o) /\ g.nxt = SP!Wide2(f.nxt)
=============================================================================
