------------------------------- MODULE MC_Walk ------------------------------
(* The walk, exhaustively: all byte strings up to MaxLen over a small       *)
(* alphabet, all declared lengths, both kinds of version.  The header is    *)
(* two bytes here (type, length).                                           *)
EXTENDS Bytes, SequencesExt, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Alphabet == 0..3
WK == INSTANCE Walk WITH H <- 2, EndType <- 3
VARIABLES buf, decl, major, s, out
vars == <<buf, decl, major, s, out>>
Init ==
  /\ buf \in BoundedSeq(Alphabet, MaxLen)
  /\ decl \in 0..(MaxLen + 2)
  /\ major \in {2, 3}
  /\ s = WK!Begin
  /\ out = <<>>
Here == WK!Frame(buf, decl, s.pos)
Hand == /\ s.live
        /\ out' = Append(out, Here)
        /\ s' = WK!Advance(buf, decl, major, s)
        /\ UNCHANGED <<buf, decl, major>>
Idle == ~s.live /\ UNCHANGED vars
Next == Hand \/ Idle
Spec == Init /\ [][Next]_vars /\ WF_vars(Hand)

Fits(i) == out[i].k = "fit"
(* structures follow one another without gap or overlap, from offset 0 *)
Contiguous == \A i \in DOMAIN out : out[i].o = IF i = 1 THEN 0 ELSE out[i - 1].nxt
OnlyLastMisfits == \A i \in DOMAIN out : i < Len(out) => Fits(i)
(* a structure that is handed out lies inside the buffer, its section inside the table, and ends with its first double NUL *)
Inside == \A i \in DOMAIN out : Fits(i) =>
  /\ out[i].x >= 2 /\ out[i].o + out[i].x < decl /\ out[i].nxt <= Len(buf)
  /\ buf[out[i].nxt] = 0 /\ buf[out[i].nxt - 1] = 0
  /\ \A j \in (out[i].o + out[i].x + 1)..(out[i].nxt - 2) : ~(buf[j] = 0 /\ buf[j + 1] = 0)
(* and nothing is held back: a misfit really does not fit, an end is an end *)
Justified == \A i \in DOMAIN out :
  LET f == out[i] IN
  CASE f.k = "end" -> decl - f.o < 2
    [] f.k = "size" -> decl - f.o >= 2 /\ (Len(buf) - f.o < 2 \/ f.x < 2 \/ f.o + f.x >= decl \/ f.o + f.x > Len(buf))
    [] f.k = "open" -> \A j \in (f.o + f.x + 1)..(Len(buf) - 1) : ~(buf[j] = 0 /\ buf[j + 1] = 0)
    [] OTHER -> TRUE
StopsForAReason == ~s.live =>
  \/ out # <<>> /\ ~Fits(Len(out))
  \/ out # <<>> /\ major = 3 /\ ByteAt(buf, out[Len(out)].o) = 3
EndIsLast == \A i \in DOMAIN out : (i < Len(out) /\ major = 3) => ByteAt(buf, out[i].o) # 3
Bounded == Len(out) <= decl \div 2 + 1
(* what lies at an offset depends on the bytes from there on only, and a structure that fits is not changed by more bytes *)
Local == (s.live /\ s.pos <= Len(buf)) =>
  LET g == WK!Frame(SubSeq(buf, s.pos + 1, Len(buf)), IF decl >= s.pos THEN decl - s.pos ELSE 0, 0) IN
  g.k = Here.k /\ g.x = Here.x /\ g.z + s.pos = Here.z
Stable == (s.live /\ Here.k = "fit") => \A a \in Alphabet : WK!Frame(Append(buf, a), decl, s.pos) = Here
Fused == [][~s.live => s' = s]_vars
Terminates == <>(~s.live)
=============================================================================
