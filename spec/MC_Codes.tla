------------------------------ MODULE MC_Codes ------------------------------
(* The code tables: every code of every table has one meaning, different    *)
(* codes have different meanings (a reader goes through the codes and       *)
(* collects them), and codes without a meaning of their own keep the number.*)
EXTENDS Enums, IOUtils
Top == atoi(IOEnv.MAXLEN)
VARIABLES table, code
vars == <<table, code>>
Init == table \in DOMAIN Tables /\ code = 0
Limit(t) == CASE t = "ProcessorFamily" -> Top [] t = "CacheLevel" -> 7 [] t = "CacheLocation" -> 3 [] t = "CacheOperationalMode" -> 3 [] OTHER -> 255
Next == code < Limit(table) /\ code' = code + 1 /\ UNCHANGED table
Spec == Init /\ [][Next]_vars
(* codes whose meaning the standard gives to more than one code *)
Shared == {<<"MemoryType", 21>>, <<"MemoryType", 22>>, <<"MemoryType", 23>>}
Different == <<table, code>> \notin Shared =>
  \A d \in (IF table = "ProcessorFamily" THEN DOMAIN Tables[table] ELSE 0..(code - 1)) :
    (d < code /\ <<table, d>> \notin Shared) => Name(table, d) # Name(table, code)
HasText == table \notin NoText => Text(table, code) # "" /\ Alt(table, code) # ""
HasName == Name(table, code) # ""
Keeps == code \notin DOMAIN Tables[table] => \E n \in {"Undefined", "Oem", "Available", "OemSpecific", "Reserved", "Unused", "NotUsed"} : Name(table, code) = Paren(n, code)
=============================================================================
