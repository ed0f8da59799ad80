------------------------------- MODULE Export -------------------------------
(* Writes the layouts as JSON, for the case generator: offsets, thresholds  *)
(* and permitted lengths come from the specification only.                  *)
EXTENDS Decode, Json, IOUtils
Versions == <<V20, V21, V22, V23, V24, V25, V26, V27, V30, V31, V32>>
OfType(t) == [ t |-> t, kind |-> Kind(t),
  rows |-> [i \in 1..Len(Rows[t]) |-> LET r == Rows[t][i] IN
              [n |-> r.n, g |-> r.g, k |-> r.k, o |-> r.o, w |-> r.w, p |-> r.p, v |-> r.v, m |-> r.m, a |-> r.a, s |-> r.s]],
  strings |-> SetToSeq(StringOffsets(t)), longest |-> Longest[t],
  lengths |-> [i \in 1..Len(Versions) |-> <<Versions[i], Lengths(t, Versions[i])[1], Lengths(t, Versions[i])[2]>>] ]
Types == SetToSeq(Decoded)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(Types) |-> OfType(Types[i])])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
