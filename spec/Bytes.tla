------------------------------- MODULE Bytes -------------------------------
(* Little-endian reading of byte sequences, bit tests and number texts.     *)
(* Byte sequences are TLA+ sequences (first byte has index 1); offsets are  *)
(* counted from 0, as the standard does.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Byte == 0..255
ByteAt(b, o) == b[o + 1]
WordAt(b, o) == b[o + 1] + 256 * b[o + 2]
Slice(b, o, n) == SubSeq(b, o + 1, o + n)

(* value of up to three little-endian bytes, or of four below 2^30: the     *)
(* others are capped, which is all that a table length needs                *)
Cap == 1073741824
DwordCapped(q) ==
  IF q[4] >= 64 THEN Cap ELSE q[1] + 256 * (q[2] + 256 * (q[3] + 256 * q[4]))

Pow2(n) == 2 ^ n
Bit(x, i) == (x \div Pow2(i)) % 2
BitSet(x, i) == Bit(x, i) = 1
(* bit i of a little-endian byte sequence *)
SeqBit(q, i) == Bit(q[(i \div 8) + 1], i % 8)
(* the bits of a byte / word that lie in a set of positions *)
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumOf(S \ {x})
Keep(x, bits) == SumOf({Pow2(i) : i \in {j \in bits : BitSet(x, j)}})

Zeros(n) == [i \in 1..n |-> 0]

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex2(x) == HexDigits[(x \div 16) + 1] \o HexDigits[(x % 16) + 1]
Hex4(x) == Hex2(x \div 256) \o Hex2(x % 256)
RECURSIVE HexMin(_)
HexMin(x) == IF x < 16 THEN HexDigits[x + 1] ELSE HexMin(x \div 16) \o HexDigits[(x % 16) + 1]
Dec(x) == ToString(x)
Dec2(x) == IF x < 10 THEN "0" \o Dec(x) ELSE Dec(x)

(* Multiplication of a little-endian byte sequence by a small number,       *)
(* in n bytes: derived quantities do not fit TLC's integers.                *)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(q, k, i, carry) ==
  IF i > Len(q) THEN <<>>
  ELSE LET x == q[i] * k + carry IN <<x % 256>> \o MulFrom(q, k, i + 1, x \div 256)
Widen(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0]
Mul(q, k, n) == MulFrom(Widen(q, n), k, 1, 0)
Word(x) == <<x % 256, x \div 256>>
Wide(x, n) == Widen(<<x % 256, (x \div 256) % 256, (x \div 65536) % 256, (x \div 16777216) % 256>>, n)

(* decimal text of a little-endian byte sequence of any length *)
RECURSIVE DivFrom(_, _, _)
DivFrom(q, i, rem) ==  \* quotient by 10, most significant byte first; i counts down
  IF i = 0 THEN <<>>
  ELSE LET x == rem * 256 + q[i] IN DivFrom(q, i - 1, x % 10) \o <<x \div 10>>
RECURSIVE RemFrom(_, _, _)
RemFrom(q, i, rem) == IF i = 0 THEN rem ELSE RemFrom(q, i - 1, (rem * 256 + q[i]) % 10)
RECURSIVE DecSeq(_)
DecSeq(q) ==
  IF \A i \in 2..Len(q) : q[i] = 0 THEN Dec(q[1])
  ELSE DecSeq(DivFrom(q, Len(q), 0)) \o Dec(RemFrom(q, Len(q), 0))

(* Upper-case hexadecimal text of a little-endian byte sequence, no leading zeroes *)
RECURSIVE HexSeqFrom(_, _)
HexSeqFrom(q, i) == IF i = 0 THEN "" ELSE Hex2(q[i]) \o HexSeqFrom(q, i - 1)
HexSeq(q) == HexSeqFrom(q, Len(q))
=============================================================================
