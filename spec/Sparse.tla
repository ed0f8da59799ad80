------------------------------- MODULE Sparse -------------------------------
(* Iteration over a table that is too large to write down: a buffer of one  *)
(* repeated byte (Filler, not zero) with some parts written over it, and    *)
(* offsets of two digits to the base Base, since TLC's integers end at 2^31.*)
(* The rules are those of Walk; MC_Sparse shows that the two agree.         *)
EXTENDS Bytes
CONSTANTS H, EndType, Base, Filler

Wide2(n) == <<n \div Base, n % Base>>
Plus(a, n) == LET x == a[2] + n IN <<a[1] + x \div Base, x % Base>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NotAfter(a, b) == ~Before(b, a)
(* b - a for a not after b, or Far when it is more than a few digits *)
Far == 16384 * Base
Gap(a, b) == IF b[1] - a[1] > 4096 THEN Far ELSE (b[1] - a[1]) * Base + b[2] - a[2]

(* a buffer: [size, parts], parts in ascending order, with filler between them *)
InPart(p, o) == NotAfter(p.at, o) /\ Gap(p.at, o) < Len(p.b)
Get(buf, o) ==
  LET hit == {i \in DOMAIN buf.parts : InPart(buf.parts[i], o)} IN
  IF hit = {} THEN Filler
  ELSE LET i == CHOOSE i \in hit : TRUE IN buf.parts[i].b[Gap(buf.parts[i].at, o) + 1]
Bytes2(buf, o, n) == [i \in 1..n |-> Get(buf, Plus(o, i - 1))]
(* offsets at which a double NUL starts, at or after o *)
Doubles(buf, o) ==
  {Plus(buf.parts[w[1]].at, w[2] - 1) :
     w \in {<<i, j>> \in UNION {{i} \X (1..(Len(buf.parts[i].b) - 1)) : i \in DOMAIN buf.parts} :
            LET b == buf.parts[i].b IN b[j] = 0 /\ b[j + 1] = 0 /\ NotAfter(o, Plus(buf.parts[i].at, j - 1))}}
First(S) == CHOOSE a \in S : \A b \in S : NotAfter(a, b)

Frame(buf, decl, o) ==
  LET fr(k, x, seen, z) == [k |-> k, o |-> o, x |-> x, seen |-> seen, z |-> z, nxt |-> Plus(z, 2)]
  IN IF Before(decl, Plus(o, H)) THEN fr("end", 0, FALSE, o)
     ELSE IF Before(buf.size, Plus(o, H)) THEN fr("size", 0, FALSE, o)
     ELSE LET len == Get(buf, Plus(o, 1))
              z == Doubles(buf, Plus(o, len))
          IN IF len < H \/ NotAfter(decl, Plus(o, len)) \/ Before(buf.size, Plus(o, len)) THEN fr("size", len, TRUE, o)
             ELSE IF z = {} THEN fr("open", len, TRUE, o) ELSE fr("fit", len, TRUE, First(z))
Begin == [pos |-> <<0, 0>>, live |-> TRUE]
Advance(buf, decl, major, s) ==
  IF ~s.live THEN s
  ELSE LET f == Frame(buf, decl, s.pos) IN
       CASE f.k = "fit" -> [pos |-> f.nxt, live |-> ~(major >= 3 /\ Get(buf, s.pos) = EndType)]
         [] OTHER -> [s EXCEPT !.live = FALSE]
=============================================================================
