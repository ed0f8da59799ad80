------------------------------- MODULE Flags --------------------------------
(* Views over bit-fields: one flag per bit, the significant ones, and the   *)
(* runs of reserved positions.                                              *)
EXTENDS Bytes, FlagTables, SequencesExt

FlagText(f) == CASE f[1] = "Significant" -> <<f[2], f[3]>>
                 [] f[1] = "Reserved" -> <<f[2], f[2]>>
                 [] OTHER -> <<"Unknown", "Unknown">>
Width(q) == 8 * Len(q)
FlagAt(layout, q, i) ==
  [p |-> i, s |-> SeqBit(q, i), k |-> layout[i + 1][1], a |-> layout[i + 1][2], b |-> layout[i + 1][3],
   t |-> FlagText(layout[i + 1])]
AllFlags(layout, q) == [i \in 1..Width(q) |-> FlagAt(layout, q, i - 1)]
(* the flags that are set and not reserved, ascending *)
Significant(layout, q) == SelectSeq(AllFlags(layout, q), LAMBDA f : f.s = 1 /\ f.k # "Reserved")
(* maximal runs of reserved positions with the same description *)
IsRes(layout, q, i) == i \in 0..(Width(q) - 1) /\ layout[i + 1][1] = "Reserved"
SameRun(layout, q, i, j) == IsRes(layout, q, i) /\ IsRes(layout, q, j) /\ layout[i + 1][2] = layout[j + 1][2]
RunEnds(layout, q, i) == CHOOSE e \in i..(Width(q) - 1) :
  /\ \A j \in i..e : SameRun(layout, q, i, j)
  /\ ~SameRun(layout, q, i, e + 1)
ReservedRuns(layout, q) ==
  LET starts == SelectSeq([i \in 1..Width(q) |-> i - 1], LAMBDA i : IsRes(layout, q, i) /\ ~SameRun(layout, q, i - 1, i))
  IN [k \in 1..Len(starts) |-> <<starts[k], RunEnds(layout, q, starts[k]), layout[starts[k] + 1][2]>>]
View(layout, q) ==
  [val |-> q, all |-> AllFlags(layout, q), sig |-> Significant(layout, q), res |-> ReservedRuns(layout, q),
   back |-> << Widen(q, 16) >>]

Layouts == [
  bios_characteristics |-> F_BiosCharacteristics, bios_characteristics_exttension_1 |-> F_BiosExtension1,
  bios_characteristics_exttension_2 |-> F_BiosExtension2, slot_characteristics_1 |-> F_SlotCharacteristics1,
  slot_characteristics_2 |-> F_SlotCharacteristics2, log_status |-> F_LogStatus, flags |-> F_LanguageFlags,
  slot1 |-> F_SlotCharacteristics1, slot2 |-> F_SlotCharacteristics2, status |-> F_LogStatus, post |-> F_PostResults ]
(* the layout of a case: letters, s = significant, u = unknown, others reserved *)
(* may describe fewer or more bits than the value has: the others are unknown *)
CustomLayout(lay, width) == [i \in 1..width |->
  CASE i > Len(lay) -> <<"Unknown", "", "">>
    [] lay[i] = "s" -> <<"Significant", "s" \o Dec(i - 1), "S" \o Dec(i - 1)>>
    [] lay[i] = "u" -> <<"Unknown", "", "">>
    [] OTHER -> <<"Reserved", lay[i], "">>]
=============================================================================
