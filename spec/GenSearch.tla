------------------------------ MODULE GenSearch -----------------------------
(* Shapes of search buffers: sequences of what lies at candidate positions. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Places == {"fill"} \cup {"good2", "good3", "long2", "long3", "sum2", "sum3", "old2", "old3", "small2", "small3", "over2", "over3", "skew2", "skew3"}
VARIABLES p, c
Init == p = <<>> /\ c = ""
Add(x) == c = "" /\ Len(p) < MaxLen /\ p' = Append(p, x) /\ UNCHANGED c
Close(x) == c = "" /\ c' = x /\ UNCHANGED p /\ PrintT("SHAPE " \o ToJson([p |-> p, c |-> x]))
Next == (\E x \in Places : Add(x)) \/ (\E x \in {"no", "cut", "last", "tail"} : Close(x))
=============================================================================
