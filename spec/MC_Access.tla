------------------------------ MODULE MC_Access -----------------------------
(* Access by offset, exhaustively for short sections, small offsets and     *)
(* offsets at the top of the 64-bit range.  A reader moves over the section *)
(* one byte at a time.                                                      *)
EXTENDS Access, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Small8(x) == Wide(x, 8)
Huge == {<<255, 255, 255, 255, 255, 255, 255, 255>>, <<252, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 1, 0, 0, 0>>,
         <<4, 0, 0, 0, 1, 0, 0, 0>>, <<5, 0, 0, 128, 0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0, 0>>}
Widths == {1, 2, 4, 8, 16}
VARIABLES section, offset
vars == <<section, offset>>
Sec(n) == [len |-> n, b |-> [j \in 1..n |-> (11 * j) % 256]]
Init == section \in {Sec(n) : n \in 4..MaxLen} /\ offset = 0
Move == offset < MaxLen + 3 /\ offset' = offset + 1 /\ UNCHANGED section
Next == Move
Spec == Init /\ [][Next]_vars
S == section
In(o, n) == Inside(S, Small8(o), n)
(* a read is possible exactly when each of its bytes can be read, past the header *)
ByteByByte == \A n \in Widths : In(offset, n) <=> \A j \in 0..(n - 1) : In(offset + j, 1)
OneByte == In(offset, 1) <=> offset \in 4..(S.len - 1)
(* what is read is the concatenation of the single bytes *)
Concatenation == \A n \in Widths : In(offset, n) => \A j \in 1..n : Slice(S.b, offset, n)[j] = Slice(S.b, offset + j - 1, 1)[1]
(* the empty slice is there at every offset from the end of the header to the end of the section *)
Empty == In(offset, 0) <=> offset \in 4..S.len
(* neither header nor anything behind the section, nor an offset that wraps around *)
Bounds == \A n \in Widths : In(offset, n) => offset >= 4 /\ offset + n <= S.len
NoWrap == \A q \in Huge : ~Small(q) /\ ~Inside(S, q, 0) /\ ~Inside(S, q, 1)
(* narrowing a readable range keeps it readable *)
Narrow == \A n \in 1..MaxLen : In(offset, n) => In(offset, n - 1) /\ In(offset + 1, n - 1)
=============================================================================
