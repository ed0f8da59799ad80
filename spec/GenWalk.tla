------------------------------- MODULE GenWalk ------------------------------
(* Shapes of structure tables: every sequence of up to MaxLen kinds of      *)
(* structures, every way the buffer can end, every relation between the     *)
(* declared length and the buffer.  Each finished shape is printed; the     *)
(* driver turns it into bytes.                                              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
PieceKinds == {"raw", "tiny", "bare", "good", "nuls", "badstr", "badlen", "text", "end", "long", "short0"}
Cuts == {"no", "nonul", "nonuls", "head", "body", "tail", "zeros"}
Decls == {"exact", "less", "more", "huge", "zero", "inner"}
VARIABLES p, shape
Open == [c |-> "", d |-> "", v |-> 0, f |-> 0]
Init == p = <<>> /\ shape = Open
Add(x) == shape = Open /\ Len(p) < MaxLen /\ p' = Append(p, x) /\ UNCHANGED shape
Close(c, d, v, f) ==
  /\ shape = Open
  /\ shape' = [c |-> c, d |-> d, v |-> v, f |-> f]
  /\ UNCHANGED p
  /\ PrintT("SHAPE " \o ToJson([p |-> p, c |-> c, d |-> d, v |-> v, f |-> f]))
Next == (\E x \in PieceKinds : Add(x)) \/ (\E c \in Cuts, d \in Decls, v \in {2, 3}, f \in {2, 3} : Close(c, d, v, f))
=============================================================================
