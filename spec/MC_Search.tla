------------------------------ MODULE MC_Search -----------------------------
(* The search, exhaustively: all byte strings up to MaxLen over a small     *)
(* alphabet with two small formats (one anchor begins like the other),      *)
(* candidates at every second byte, sums modulo the alphabet.               *)
EXTENDS Bytes, SequencesExt, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Alphabet == 0..3
Formats2 == << [n |-> "V2", anchor |-> <<3, 1>>, min |-> 3, lenAt |-> 2, majAt |-> 1],
          [n |-> "V3", anchor |-> <<3, 3>>, min |-> 3, lenAt |-> 2, majAt |-> 1] >>
EP == INSTANCE EntryPoint WITH Chunk <- 2, Modulus <- 4, MinMajor <- 1, Formats <- Formats2
VARIABLES buf, at
vars == <<buf, at>>
Init == buf \in BoundedSeq(Alphabet, MaxLen) /\ at = EP!Start
Look == at.out = "" /\ at' = EP!Step(buf, at) /\ UNCHANGED buf
Idle == at.out # "" /\ UNCHANGED vars
Next == Look \/ Idle
Spec == Init /\ [][Next]_vars /\ WF_vars(Look)

Form(p) == Formats2[EP!FormatAt(buf, p)]
Wrong == EP!Violations(buf, at.p, Form(at.p))
LenAt(p) == buf[p + 3]
(* positions before the current one were looked at and had no anchor *)
NothingSkipped == \A p \in 0..(at.p - 1) : p % 2 = 0 => EP!FormatAt(buf, p) = 0
Aligned == at.p % 2 = 0
(* the machine finds what the declarative definition says *)
Agrees ==
  /\ at.out = "NotFound" => EP!Candidates(buf) = {}
  /\ at.out = "Anchor" => EP!Candidates(buf) # {} /\ \A q \in EP!Candidates(buf) : at.p <= q
  /\ at.out = "Anchor" => (EP!Accepts(buf) <=> Wrong = {})
AtOnce == at.out # "" => EP!Run(buf, EP!Start) = at
(* an accepted entry point lies inside the buffer with its declared length, whose sum is zero *)
Sound == (at.out = "Anchor" /\ Wrong = {}) =>
  /\ at.p + Form(at.p).min <= Len(buf) /\ LenAt(at.p) >= Form(at.p).min /\ at.p + LenAt(at.p) <= Len(buf)
  /\ EP!SumBytes(buf, at.p + 1, at.p + LenAt(at.p), 0) = 0
(* and an anchor that satisfies all of this is accepted *)
Complete == (at.out = "Anchor" /\ Wrong # {}) =>
  LET p == at.p  f == Form(p) IN
  \/ p + f.min > Len(buf) \/ LenAt(p) < f.min \/ p + LenAt(p) > Len(buf)
  \/ EP!SumBytes(buf, p + 1, p + LenAt(p), 0) # 0 \/ buf[p + f.majAt + 1] < 1
(* any single changed byte of an accepted entry point is noticed, unless it is the length itself *)
Detects == (at.out = "Anchor" /\ Wrong = {}) =>
  \A i \in (at.p + 1)..(at.p + LenAt(at.p)), a \in Alphabet :
    (i # at.p + 3 /\ a # buf[i]) =>
      LET other == [buf EXCEPT ![i] = a] IN
      EP!FormatAt(other, at.p) # 0 => EP!Violations(other, at.p, Formats2[EP!FormatAt(other, at.p)]) # {}
(* what comes after does not matter, what comes before only through its anchors *)
Later == (at.out = "Anchor" /\ Wrong = {}) => \A a \in Alphabet : EP!Accepts(Append(buf, a))
Earlier == at.out # "" => (EP!Accepts(<<0, 3>> \o buf) <=> EP!Accepts(buf))
Found == <>(at.out # "")
Final == [][at.out # "" => at' = at]_vars
=============================================================================
