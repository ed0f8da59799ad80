----------------------------- MODULE MC_Strings -----------------------------
(* String-sets and text, exhaustively over short byte sequences.  A reader  *)
(* goes through the bytes one at a time, splitting at NULs and following    *)
(* the UTF-8 automaton; at the end it must agree with the definitions.      *)
EXTENDS Strings, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Alphabet == {0, 65, 127, 128, 144, 160, 191, 192, 195, 224, 237, 240, 244, 255}
VARIABLES bytes, i, done, cur, auto, bad
vars == <<bytes, i, done, cur, auto, bad>>
(* the automaton: <<how many more, lowest next, highest next>> *)
Rest0 == <<0, 0, 0>>
Lead(b) == CASE b < 128 -> Rest0 [] b \in 194..223 -> <<1, 128, 191>> [] b = 224 -> <<2, 160, 191>> [] b = 237 -> <<2, 128, 159>>
             [] b \in 225..239 -> <<2, 128, 191>> [] b = 240 -> <<3, 144, 191>> [] b \in 241..243 -> <<3, 128, 191>>
             [] b = 244 -> <<3, 128, 143>> [] OTHER -> <<-1, 0, 0>>
After(st, b) == IF st[1] = -1 THEN st
                ELSE IF st[1] = 0 THEN Lead(b)
                ELSE IF b >= st[2] /\ b <= st[3] THEN (IF st[1] = 1 THEN Rest0 ELSE <<st[1] - 1, 128, 191>>)
                ELSE <<-1, 0, 0>>
NoDouble(q) == \A j \in 1..(Len(q) - 1) : ~(q[j] = 0 /\ q[j + 1] = 0)
(* the bytes before the first double NUL *)
Sets == {q \in BoundedSeq(Alphabet, MaxLen) : NoDouble(q) /\ (q = <<>> \/ q[Len(q)] # 0)}
Init == bytes \in Sets /\ i = 1 /\ done = <<>> /\ cur = <<>> /\ auto = Rest0 /\ bad = {}
Close == /\ done' = Append(done, cur)
         /\ bad' = IF auto = Rest0 THEN bad ELSE bad \cup {Len(done) + 1}
         /\ cur' = <<>> /\ auto' = Rest0
Read == /\ i <= Len(bytes)
        /\ i' = i + 1
        /\ IF bytes[i] = 0 THEN Close ELSE cur' = Append(cur, bytes[i]) /\ auto' = After(auto, bytes[i]) /\ UNCHANGED <<done, bad>>
        /\ UNCHANGED bytes
End == /\ i = Len(bytes) + 1
       /\ i' = i + 1
       /\ IF bytes = <<>> THEN UNCHANGED <<done, cur, auto, bad>> ELSE Close
       /\ UNCHANGED bytes
Next == Read \/ End
Spec == Init /\ [][Next]_vars
Ended == i = Len(bytes) + 2
ss == StringSet(bytes)
(* a set that starts with NUL is empty; otherwise the reader's strings are the set *)
Splits == Ended => ss = (IF bytes # <<>> /\ bytes[1] = 0 THEN <<>> ELSE done)
NoEmpty == \A j \in 1..Len(ss) : ss[j] # <<>> /\ \A b \in 1..Len(ss[j]) : ss[j][b] # 0
TextAgrees == Ended => \A j \in 1..Len(done) : IsText(done[j]) <=> j \notin bad
Numbers == \A n \in 0..(Len(ss) + 2) :
  /\ Resolves(ss, n) => (n = 0 /\ StringNo(ss, n) = <<>>) \/ (n \in 1..Len(ss) /\ StringNo(ss, n) = ss[n])
  /\ (n > Len(ss)) => ~Resolves(ss, n)
(* a bad string hides itself, and no other *)
Independent == \A n \in 1..Len(ss) : Resolves(ss, n) <=> IsText(ss[n])
ListIsPrefix == \A max \in 0..3 :
  LET q == Listed(ss, max) IN
  /\ Len(q) <= max /\ Len(q) <= Len(ss)
  /\ \A j \in 1..Len(q) : q[j] = ss[j] /\ IsText(ss[j])
  /\ Len(q) < max => (Len(q) = Len(ss) \/ ~IsText(ss[Len(q) + 1]))
=============================================================================
