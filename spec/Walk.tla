-------------------------------- MODULE Walk --------------------------------
(* Iteration over a structure table.  H: bytes of a header (type, length,   *)
(* then the handle); EndType: type code of the end-of-table structure.      *)
EXTENDS Bytes
CONSTANTS H, EndType

(* 1-based index of the first NUL of the first double NUL from i on, or 0   *)
RECURSIVE DoubleNul(_, _)
DoubleNul(buf, i) ==
  IF i + 1 > Len(buf) THEN 0
  ELSE LET hi == IF i + 40 < Len(buf) - 1 THEN i + 40 ELSE Len(buf) - 1
           hit == {j \in i..hi : buf[j] = 0 /\ buf[j + 1] = 0}
       IN IF hit # {} THEN CHOOSE j \in hit : \A m \in hit : j <= m
          ELSE DoubleNul(buf, hi + 1)

(* What lies at offset o of the table: k = "end", "size" (does not fit),    *)
(* "open" (no end of its string-set) or "fit".  x: declared length; seen:   *)
(* the declared length is really there; z: end of the string-set (offset of *)
(* its double NUL); nxt: offset of the next structure.                      *)
Frame(buf, decl, o) ==
  LET rem == Len(buf) - o
      fr(k, x, seen, z) == [k |-> k, o |-> o, x |-> x, seen |-> seen, z |-> z, nxt |-> z + 2]
  IN IF o + H > decl THEN fr("end", 0, FALSE, o)
     ELSE IF rem < H THEN fr("size", 0, FALSE, o)
     ELSE LET len == ByteAt(buf, o + 1) IN
          IF len < H \/ o + len >= decl \/ len > rem THEN fr("size", len, TRUE, o)
          ELSE LET z == DoubleNul(buf, o + len + 1) IN
               IF z = 0 THEN fr("open", len, TRUE, o) ELSE fr("fit", len, TRUE, z - 1)

(* The machine: a state is [pos, live].  One step hands out what is at pos. *)
Begin == [pos |-> 0, live |-> TRUE]
Advance(buf, decl, major, s) ==
  IF ~s.live THEN s
  ELSE LET f == Frame(buf, decl, s.pos) IN
       CASE f.k = "fit" -> [pos |-> f.nxt, live |-> ~(major >= 3 /\ ByteAt(buf, s.pos) = EndType)]
         [] OTHER -> [s EXCEPT !.live = FALSE]
=============================================================================
