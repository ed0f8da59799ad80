------------------------------- MODULE MC_Copy ------------------------------
(* A copy of an iteration taken at any point, the original and the copy     *)
(* driven in any order: each hands out what a lone iteration would.         *)
EXTENDS Bytes, SequencesExt, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Alphabet == {0, 2, 3}
WK == INSTANCE Walk WITH H <- 2, EndType <- 3
VARIABLES buf, decl, major, one, two, outs
vars == <<buf, decl, major, one, two, outs>>
NoCopy == [pos |-> 0, live |-> FALSE, taken |-> FALSE]
Init == /\ buf \in BoundedSeq(Alphabet, MaxLen) /\ decl \in {Len(buf), MaxLen} /\ major \in {2, 3}
        /\ one = WK!Begin /\ two = NoCopy /\ outs = << <<>>, <<>> >>
Here(s) == WK!Frame(buf, decl, s.pos)
StepOne == one.live /\ one' = WK!Advance(buf, decl, major, one) /\ outs' = <<Append(outs[1], Here(one)), outs[2]>> /\ UNCHANGED <<buf, decl, major, two>>
Core(s) == [pos |-> s.pos, live |-> s.live]
StepTwo == two.taken /\ two.live /\ two' = WK!Advance(buf, decl, major, Core(two)) @@ [taken |-> TRUE]
           /\ outs' = <<outs[1], Append(outs[2], Here(two))>> /\ UNCHANGED <<buf, decl, major, one>>
Fork == ~two.taken /\ two' = one @@ [taken |-> TRUE] /\ outs' = <<outs[1], outs[1]>> /\ UNCHANGED <<buf, decl, major, one>>
Next == StepOne \/ StepTwo \/ Fork
Spec == Init /\ [][Next]_vars
RECURSIVE Alone(_)
Alone(s) == IF ~s.live THEN <<>> ELSE <<Here(s)>> \o Alone(WK!Advance(buf, decl, major, s))
lone == Alone(WK!Begin)
PrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Undisturbed == PrefixOf(outs[1], lone) /\ (two.taken => PrefixOf(outs[2], lone))
SameEnd == (two.taken /\ ~one.live /\ ~two.live) => outs[1] = outs[2] /\ outs[1] = lone
=============================================================================
