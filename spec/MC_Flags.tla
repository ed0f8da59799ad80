------------------------------ MODULE MC_Flags ------------------------------
(* Bit-field views: all layouts of eight bits over the given kinds, chosen  *)
(* bit by bit, with some values.  (MaxLen bits vary, the rest repeat.)      *)
EXTENDS Flags, IOUtils
Varying == atoi(IOEnv.MAXLEN)
Kinds4 == {<<"Significant", "s", "S">>, <<"Unknown", "", "">>, <<"Reserved", "a", "">>, <<"Reserved", "b", "">>}
Values == {0, 255, 1, 128, 85, 170, 15, 60}
VARIABLES lay, val
vars == <<lay, val>>
Init == lay = <<>> /\ val \in Values
More == Len(lay) < 8 /\ \E x \in (IF Len(lay) < Varying THEN Kinds4 ELSE {lay[Len(lay) - Varying + 1]}) : lay' = Append(lay, x)
        /\ UNCHANGED val
Next == More
Spec == Init /\ [][Next]_vars
Full == Len(lay) = 8
q1 == <<val>>
runs == ReservedRuns(lay, q1)
sig == LET s == Significant(lay, q1) IN [j \in 1..Len(s) |-> s[j].p]
InRun(i) == {r \in 1..Len(runs) : runs[r][1] <= i /\ i <= runs[r][2]}
(* every position is reserved and in exactly one range, or not reserved and in none *)
Partition == Full => \A i \in 0..7 : Cardinality(InRun(i)) = (IF lay[i + 1][1] = "Reserved" THEN 1 ELSE 0)
Described == Full => \A r \in 1..Len(runs) : \A i \in runs[r][1]..runs[r][2] : lay[i + 1][2] = runs[r][3]
Ascending == Full => \A r \in 2..Len(runs) : runs[r - 1][2] < runs[r][1]
Maximal == Full => \A r \in 2..Len(runs) : runs[r - 1][2] + 1 = runs[r][1] => runs[r - 1][3] # runs[r][3]
(* the significant flags and the reserved bits make up the value *)
MakeUp == Full => Keep(val, {sig[j] : j \in 1..Len(sig)}) + Keep(val, {i \in 0..7 : lay[i + 1][1] = "Reserved"}) = val
SigSet == Full => \A j \in 1..Len(sig) : BitSet(val, sig[j]) /\ (j > 1 => sig[j - 1] < sig[j])
One == Full => Len(AllFlags(lay, q1)) = 8 /\ \A i \in 1..8 : AllFlags(lay, q1)[i].p = i - 1
=============================================================================
