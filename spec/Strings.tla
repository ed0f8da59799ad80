------------------------------ MODULE Strings ------------------------------
(* The string-set of a structure and the validity of its text.              *)
EXTENDS Bytes, SequencesExt

(* The strings of the bytes between the formatted section and the double    *)
(* NUL (exclusive): separated by single NULs.  A string-set that starts     *)
(* with a NUL is empty.                                                     *)
StringSet(a) ==
  IF a = <<>> \/ a[1] = 0 THEN <<>>
  ELSE LET ends == SetToSortSeq({i \in 1..(Len(a) + 1) : i = Len(a) + 1 \/ a[i] = 0}, <)
       IN [k \in 1..Len(ends) |-> SubSeq(a, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k] - 1)]

(* Well-formed UTF-8 (RFC 3629), stated position by position.               *)
Cont(b) == b \in 128..191
LeadLen(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0
SecondOk(b, c) == CASE b = 224 -> c >= 160 [] b = 237 -> c <= 159 [] b = 240 -> c >= 144 [] b = 244 -> c <= 143 [] OTHER -> TRUE
IsText(s) ==
  \/ \A i \in 1..Len(s) : s[i] < 128
  \/ \A i \in 1..Len(s) :
       IF Cont(s[i])
       THEN \E k \in 1..3 : /\ i - k >= 1
                            /\ LeadLen(s[i - k]) > k
                            /\ \A m \in (i - k + 1)..i : Cont(s[m])
       ELSE LET n == LeadLen(s[i]) IN
            /\ n > 0
            /\ i + n - 1 <= Len(s)
            /\ \A m \in (i + 1)..(i + n - 1) : Cont(s[m])
            /\ n > 1 => SecondOk(s[i], s[i + 1])

(* String number n of a string-set: does it resolve, and to what?           *)
Resolves(ss, n) == n = 0 \/ (n <= Len(ss) /\ IsText(ss[n]))
StringNo(ss, n) == IF n = 0 THEN <<>> ELSE ss[n]
(* The strings up to the first one that is not text, at most max of them    *)
Listed(ss, max) ==
  LET bad == {i \in 1..Len(ss) : ~IsText(ss[i])}
      n == IF bad = {} THEN Len(ss) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN SubSeq(ss, 1, IF n > max THEN max ELSE n)
=============================================================================
