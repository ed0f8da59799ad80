------------------------------ MODULE MC_Layout -----------------------------
(* The layouts of all structures over all versions and section lengths.     *)
(* Steps: the section grows by a byte, or the version by one; what is there *)
(* stays there, what is read lies inside the section.                       *)
EXTENDS Decode, IOUtils
Versions == {Ver(2, n) : n \in 0..9} \cup {Ver(3, n) : n \in 0..4} \cup {Ver(4, 0)}
MaxLen == atoi(IOEnv.MAXLEN)
VARIABLES atType, atVersion, atSize
vars == <<atType, atVersion, atSize>>
Init == atType \in Decoded /\ atVersion = V20 /\ atSize = 4
Longer == atSize < MaxLen /\ atSize' = atSize + 1 /\ UNCHANGED <<atType, atVersion>>
NewerVersions == {x \in Versions : x > atVersion}
Newer == NewerVersions # {} /\ atVersion' = (CHOOSE x \in NewerVersions : \A y \in NewerVersions : x <= y) /\ UNCHANGED <<atType, atSize>>
Next == Longer \/ Newer
Spec == Init /\ [][Next]_vars

(* a structure with contents of which nothing is reserved *)
Body(t, n) == [j \in 1..n |-> IF j = 1 THEN t ELSE IF j = 2 THEN n ELSE 1]
S0 == [v |-> atVersion, t |-> atType, len |-> atSize, h |-> 257, b |-> Body(atType, atSize), ss |-> << <<65>> >>]
rows == Rows[atType]
Permitted(v, n) == LET r == Lengths(atType, v) IN r[1] <= n /\ n <= r[2]
Present(v, n) == {rows[j].n : j \in {x \in DOMAIN rows : v >= rows[x].v /\ n >= rows[x].m}}
Spans == {<<rows[j].o, rows[j].o + rows[j].w>> : j \in DOMAIN rows}
(* every field that counts as there lies inside the section *)
Covered == \A j \in DOMAIN rows : rows[j].m >= rows[j].o + rows[j].w
(* a field that is always there lies inside every permitted section *)
Mandatory == Permitted(atVersion, atSize) => \A j \in DOMAIN rows : rows[j].p = "r" => rows[j].o + rows[j].w <= atSize
(* no two fields overlap, except the two halves of one byte of the enclosure *)
Disjoint == \A a, b \in DOMAIN rows :
  (a # b /\ rows[a].o # rows[b].o) => rows[a].o + rows[a].w <= rows[b].o \/ rows[b].o + rows[b].w <= rows[a].o
OneName == \A a, b \in DOMAIN rows : a # b => rows[a].n # rows[b].n
SameByte == \A a, b \in DOMAIN rows : (a # b /\ rows[a].o = rows[b].o) => atType = 3 /\ rows[a].o = 5
(* presence grows with the section and with the version *)
Grows == [][Present(atVersion, atSize) \subseteq Present(atVersion', atSize')]_vars
(* a permitted section stays permitted when it grows, where the length is a minimum *)
Monotone == [][(Permitted(atVersion, atSize) /\ atVersion' = atVersion /\ Lengths(atType, atVersion)[2] = 255 /\ atSize' <= 255) => Permitted(atVersion', atSize')]_vars
(* decoding is total: for every permitted section there are entries or reasons, and exactly one of them applies *)
Total == Permitted(atVersion, atSize) /\ ~(atType = 15 /\ atVersion >= V21) =>
  LET e == Errors(S0) IN
  /\ \A x \in e : x[1] = "String"
  /\ e = {} => Expected(S0, {"n", "s", "e", "b", "g", "l", "d"}) # <<>>
Refused == ~Permitted(atVersion, atSize) => <<"Length", 0>> \in Errors(S0)
(* no entry is given twice *)
Unique == Permitted(atVersion, atSize) =>
  LET e == Expected(S0, {"n", "s", "e", "b", "g", "l", "d"}) IN
  Decodes(S0) => Cardinality({<<e[j][1], e[j][2]>> : j \in 1..Len(e)}) = Len(e)
(* the bytes behind the last field do not matter *)
Behind == (Decodes(S0) /\ atSize >= Longest[atType] /\ atSize < MaxLen /\ Permitted(atVersion, atSize + 1) /\ atType \notin {3, 9, 14, 15}) =>
  LET L == [S0 EXCEPT !.len = atSize + 1, !.b = Append(S0.b, 7)] IN
  Expected(S0, {"n", "s", "e", "b", "g", "l", "d"}) = Expected(L, {"n", "s", "e", "b", "g", "l", "d"})
=============================================================================
