----------------------------- MODULE MC_Records -----------------------------
(* Record lists: counts, sizes and section lengths.  A reader takes one     *)
(* record at a time; the list is what it took.                              *)
EXTENDS Decode, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
VARIABLES atType, count, each, total, taken
vars == <<atType, count, each, total, taken>>
Body == [j \in 1..total |->
  CASE j = 1 -> atType [] j = 2 -> total
    [] atType = 3 /\ j = 20 -> count [] atType = 3 /\ j = 21 -> each
    [] atType = 9 /\ j = 19 -> count
    [] atType = 15 /\ j = 22 -> count [] atType = 15 /\ j = 23 -> each
    [] OTHER -> (j * 7) % 256]
S0 == [v |-> V32, t |-> atType, len |-> total, h |-> 0, b |-> Body, ss |-> <<>>]
Base == CASE atType = 3 -> 21 [] atType = 9 -> 19 [] atType = 14 -> 5 [] atType = 15 -> 23
Width1 == CASE atType = 3 -> each [] atType = 9 -> 5 [] atType = 14 -> 3 [] atType = 15 -> each
Init == /\ atType \in {3, 9, 14, 15} /\ count \in 0..8 /\ each \in 0..5
        /\ total \in 24..MaxLen /\ taken = <<>>
        /\ atType \in {9, 14} => each = 0
        /\ atType = 14 => count = 0
Fits == CASE atType = 3 -> EncFits(S0) [] atType = 9 -> PeersFit(S0) [] atType = 14 -> TRUE [] atType = 15 -> LengthOk(S0)
Want == CASE atType = 14 -> (total - 5) \div 3 [] atType = 3 /\ each = 0 -> 0 [] atType = 15 /\ each # 2 -> 0 [] OTHER -> count
At(j) == Base + (j - 1) * Width1
Take == /\ Fits /\ Len(taken) < Want
        /\ taken' = Append(taken, At(Len(taken) + 1))
        /\ UNCHANGED <<atType, count, each, total>>
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Take)
Items == CASE atType = 3 -> EncItems(S0) [] atType = 9 -> [j \in 1..SlotN(S0) |-> DeviceOf(Peer(S0, j))]
           [] atType = 14 -> GroupItems(S0) [] atType = 15 -> LogItems(S0)
(* records lie inside the section, one after another *)
InsideSection == \A j \in 1..Len(taken) : taken[j] >= Base /\ taken[j] + Width1 <= total
OneAfterAnother == \A j \in 2..Len(taken) : taken[j] = taken[j - 1] + Width1
(* a list has as many items as it has room and count for, and no more *)
RightCount == Fits => Len(Items) = Want
(* each item depends on the bytes of its own record only *)
Own == Fits => \A j \in 1..Len(taken) :
  LET q == Slice(S0.b, taken[j], IF atType = 3 /\ each > 3 THEN 3 ELSE Width1) IN
  Items[j] = (CASE atType = 3 -> ElementText(Widen(q, 3)) [] atType = 9 -> DeviceOf(q)
                [] atType = 14 -> <<q[1], q[2] + 256 * q[3]>> [] atType = 15 -> DescriptorOf(q))
(* what follows the list does not touch it *)
Sku == (atType = 3 /\ EncHasSku(S0)) => \A j \in 1..Len(taken) : EncSkuAt(S0) >= taken[j] + Width1
Rest3 == (atType = 9 /\ Fits) => \A j \in 1..Len(taken) : SlotRest(S0, 0) >= taken[j] + 5
AllTaken == <>(Fits => Len(taken) = Want)
=============================================================================
