------------------------------ MODULE MC_Bytes ------------------------------
(* Arithmetic on byte sequences against TLC's integers, where those reach.  *)
EXTENDS Decode, IOUtils
Step == atoi(IOEnv.MAXLEN)
VARIABLE num
Init == num = 0
Next == num < 65535 /\ num' = (IF num + Step > 65535 THEN 65535 ELSE num + Step)
Spec == Init /\ [][Next]_num
Val4(q) == q[1] + 256 * (q[2] + 256 * (q[3] + 256 * q[4]))
Multiplies == \A m \in {0, 1, 2, 10, 255, 256, 1024, 32767} : Val4(Mul(Word(num), m, 8)) = num * m /\ \A i \in 5..8 : Mul(Word(num), m, 8)[i] = 0
Prints == DecSeq(Widen(Word(num), 8)) = ToString(num)
Widens == Val4(Wide(num, 8)) = num /\ Word(num) = <<num % 256, num \div 256>>
Caps == DwordCapped(Wide(num, 4)) = num
BitsOf == Keep(num, 0..15) = num /\ Keep(num, {}) = 0 /\ Keep(num, 0..7) = num % 256
          /\ \A i \in 0..15 : SeqBit(Word(num), i) = Bit(num, i)
(* quantities *)
Cache1 == LET r == CacheSize(num) IN r[1] \in {1, 64} /\ Val4(r[2]) = num % 32768
          /\ (r[1] = 1 => Val4(r[3][1]) = (num % 32768) * 1024)
          /\ (r[1] = 64 => r[3][1] = Mul(Mul(Word(num % 32768), 256, 8), 256, 8))
(* the wide form of a size says the same as the narrow one *)
Cache2 == (num < 32768) => CacheSize2(Wide(num, 4)) = CacheSize(num)
Cache3 == (num >= 32768) => CacheSize2(<<num % 256, (num \div 256) % 128, 0, 128>>) = CacheSize(num)
Rom == num < 255 => Val4(RomBytes(num, <<>>)) = (num + 1) * 65536
RomX == num < 2048 => Val4(RomBytes(255, <<num>>)) = num * 1048576
RomG == num < 16384 => RomBytes(255, <<num + 16384>>) = Mul(RomBytes(255, <<num>>), 1024, 8)
Capacity == Val4(CapacityBytes(num, 255)) = num * 255
Dates == LET d == SbdsDate(num) IN (d[1] - 1980) * 512 + d[2] * 32 + d[3] = num /\ d[1] \in 1980..2107 /\ d[2] \in 0..15 /\ d[3] \in 0..31
Voltages == num < 256 => LET r == VoltageOf(num) IN
  CASE r[1] = "Current" -> r[2] + 128 = num [] r[1] = "Undefined" -> r[2] = num /\ num < 128 [] OTHER -> r[2] = num /\ num < 8
Confs == LET r == CacheConf(num) IN r = CacheConf(num % 1024) /\ ((num % 1024) \div 16) % 2 = 0 => r = CacheConf(num + 16)
=============================================================================
