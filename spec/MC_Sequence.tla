----------------------------- MODULE MC_Sequence ----------------------------
(* The ways of going through a sequence, each against its definition by     *)
(* single steps.                                                            *)
EXTENDS Sequence, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
VARIABLES list, gone, op, num, left, got
vars == <<list, gone, op, num, left, got>>
Ops == {"next", "nth", "take", "count", "last", "fold", "each", "collect", "skip", "step"}
(* one call is carried out by single steps: left steps to go, got what they gave *)
Init == /\ list \in {[i \in 1..n |-> i % 3] : n \in 0..MaxLen}
        /\ gone = 0 /\ op = "idle" /\ num = 0 /\ left = 0 /\ got = <<>>
Copy == {"count", "last", "fold", "each", "collect", "skip", "step"}
Budget(o, k) == CASE o = "next" -> 1 [] o = "nth" -> k + 1 [] o = "take" -> k [] OTHER -> Len(list) + 1
Call == /\ op = "idle"
        /\ op' \in Ops /\ num' \in (IF op' = "step" THEN 1..(MaxLen + 1) ELSE 0..(MaxLen + 1))
        /\ left' = Budget(op', num') /\ got' = <<>> /\ UNCHANGED <<list, gone>>
Step == /\ op # "idle" /\ left > 0
        /\ LET at == gone + Len(got) + 1 IN
           IF at <= Len(list) THEN got' = Append(got, list[at]) /\ left' = left - 1 ELSE got' = got /\ left' = 0
        /\ UNCHANGED <<list, gone, op, num>>
Return == /\ op # "idle" /\ left = 0
          /\ gone' = (IF op \in Copy THEN gone ELSE gone + Len(got))
          /\ op' = "idle" /\ num' = 0 /\ got' = <<>> /\ UNCHANGED <<list, left>>
Next == Call \/ Step \/ Return
Spec == Init /\ [][Next]_vars
Kept(k) == SelectSeq([i \in 1..Len(got) |-> <<i, got[i]>>], LAMBDA x : x[1] % k = 1 % k)
Outcome ==
  CASE op = "next" -> got
    [] op = "nth" -> IF Len(got) = num + 1 THEN <<got[num + 1]>> ELSE <<>>
    [] op \in {"take", "fold", "each", "collect"} -> got
    [] op = "count" -> <<Len(got)>>
    [] op = "last" -> IF got = <<>> THEN <<>> ELSE <<got[Len(got)]>>
    [] op = "skip" -> SubSeq(got, num + 1, Len(got))
    [] op = "step" -> LET s == Kept(num) IN [i \in 1..Len(s) |-> s[i][2]]
Right == (op # "idle" /\ left = 0) =>
  /\ Outcome = Answer(list, gone, op, num)
  /\ (op \notin Copy => gone + Len(got) = Moved(list, gone, op, num))
  /\ (op \in Copy => gone = Moved(list, gone, op, num))
Exact == HintRight(list, gone, <<Len(list) - gone, Len(list) - gone>>) /\ HintRight(list, gone, <<0>>)
         /\ ~HintRight(list, gone, <<Len(list) - gone + 1>>)
=============================================================================
