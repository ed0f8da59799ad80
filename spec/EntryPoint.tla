----------------------------- MODULE EntryPoint -----------------------------
(* The search for an entry point.  Chunk: distance of candidate positions;  *)
(* Formats: sequence of records n name, anchor, min smallest size, lenAt    *)
(* offset of the length byte, majAt offset of the major version; Modulus of *)
(* the byte sum.                                                            *)
EXTENDS Bytes, SequencesExt
CONSTANTS Chunk, Formats, Modulus, MinMajor

AnchorAt(buf, p, f) ==
  /\ p + Len(f.anchor) <= Len(buf)
  /\ \A i \in 1..Len(f.anchor) : buf[p + i] = f.anchor[i]
FormatAt(buf, p) ==   \* 0: none
  LET c == {i \in 1..Len(Formats) : AnchorAt(buf, p, Formats[i])} IN
  IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
RECURSIVE SumBytes(_, _, _, _)
SumBytes(buf, i, j, acc) == IF i > j THEN acc ELSE SumBytes(buf, i + 1, j, (acc + buf[i]) % Modulus)

(* What is wrong with the entry point of format f at p: <<reason, value>>   *)
Violations(buf, p, f) ==
  LET rem == Len(buf) - p
      readable(o) == rem > o
      len == buf[p + f.lenAt + 1]
      maj == buf[p + f.majAt + 1]
  IN (IF rem < f.min THEN {<<"BadSize", rem>>} ELSE {})
     \cup (IF readable(f.lenAt) THEN
             (IF len < f.min THEN {<<"BadSize", len>>} ELSE {})
             \cup (IF rem < len THEN {<<"BadSize", rem>>} ELSE {})
             \cup (IF len <= rem /\ SumBytes(buf, p + 1, p + len, 0) # 0
                   THEN {<<"BadChecksum", SumBytes(buf, p + 1, p + len, 0)>>} ELSE {})
           ELSE {})
     \cup (IF readable(f.majAt) /\ maj < MinMajor THEN {<<"TooOldVersion", maj>>} ELSE {})

(* The search as a state machine: a state is [p, out]; out is "" while      *)
(* searching, then "NotFound" or "Anchor".                                  *)
Start == [p |-> 0, out |-> ""]
Step(buf, s) ==
  IF s.out # "" THEN s
  ELSE IF s.p >= Len(buf) THEN [s EXCEPT !.out = "NotFound"]
  ELSE IF FormatAt(buf, s.p) # 0 THEN [s EXCEPT !.out = "Anchor"]
  ELSE [s EXCEPT !.p = s.p + Chunk]
(* many steps at once, for long buffers: where the machine comes to rest *)
Ahead == 64
RECURSIVE Run(_, _)
Run(buf, s) ==
  IF s.out # "" THEN s
  ELSE IF s.p >= Len(buf) THEN Step(buf, s)
  ELSE LET hit == {k \in 0..(Ahead - 1) : FormatAt(buf, s.p + k * Chunk) # 0} IN
       IF hit = {} THEN LET far == s.p + Ahead * Chunk
                            end == ((Len(buf) + Chunk - 1) \div Chunk) * Chunk
                        IN Run(buf, [s EXCEPT !.p = IF far < end THEN far ELSE end])
       ELSE Step(buf, [s EXCEPT !.p = s.p + (CHOOSE k \in hit : \A m \in hit : k <= m) * Chunk])

(* The same, said without a machine *)
Candidates(buf) == {p \in 0..Len(buf) : p % Chunk = 0 /\ FormatAt(buf, p) # 0}
Accepts(buf) == LET c == Candidates(buf) IN
  c # {} /\ LET p == CHOOSE p \in c : \A q \in c : p <= q IN Violations(buf, p, Formats[FormatAt(buf, p)]) = {}
=============================================================================
