------------------------------- MODULE Access -------------------------------
(* Access to the formatted section of a raw structure by offset and width.  *)
(* Offsets and sizes are 64-bit numbers: eight little-endian bytes.         *)
EXTENDS Bytes
Small(q) == \A i \in 4..8 : q[i] = 0
Num3(q) == q[1] + 256 * q[2] + 65536 * q[3]
Inside(S, a, n) == Small(a) /\ Num3(a) >= 4 /\ Num3(a) + n <= S.len
WidthOf(o) == CASE o \in {"g1", "c1"} -> 1 [] o \in {"g2", "c2"} -> 2 [] o \in {"g4", "c4"} -> 4 [] o \in {"g8", "c8"} -> 8 [] OTHER -> 16
(* bytes become a number exactly when they are as many as the number has *)
Converts(o, n) == Small(n) /\ Num3(n) = WidthOf(o)
=============================================================================
