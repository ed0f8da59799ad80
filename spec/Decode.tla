------------------------------- MODULE Decode -------------------------------
(* What a structure decodes to.  A structure S is a record                  *)
(*   v version, t type, len length, h handle, b formatted section (with the *)
(*   header), ss string-set.                                                *)
EXTENDS Layout, Flags

B(S, o) == ByteAt(S.b, o)
W(S, o) == WordAt(S.b, o)
Has(S, o, w) == o + w <= S.len
Since(S, v, m) == S.v >= v /\ S.len >= m
Some(x) == <<x>>
None == <<>>
When(c, x) == IF c THEN <<x>> ELSE <<>>

UuidBytes(S) ==
  LET u == Slice(S.b, 8, 16) IN
  IF S.v < V26 THEN u
  ELSE <<u[4], u[3], u[2], u[1], u[6], u[5], u[8], u[7]>> \o SubSeq(u, 9, 16)

(* value of a field that is there *)
Value(S, r) ==
  CASE r.k = "u8" -> B(S, r.o)
    [] r.k = "u16" -> W(S, r.o)
    [] r.k = "le" -> Slice(S.b, r.o, r.w)
    [] r.k = "str" -> StringNo(S.ss, B(S, r.o))
    [] r.k = "strok" -> StringNo(S.ss, B(S, r.o))
    [] r.k = "enum" -> Name(r.a, B(S, r.o))
    [] r.k = "enum7" -> Name(r.a, B(S, r.o) % 128)
    [] r.k = "bit7" -> B(S, r.o) \div 128
    [] r.k = "mask" -> Keep(IF r.w = 1 THEN B(S, r.o) ELSE W(S, r.o), FlagBits[r.a])
    [] r.k = "uuid" -> UuidBytes(S)
Given(S, r) ==
  /\ Since(S, r.v, r.m)
  /\ r.s = <<>> \/ Slice(S.b, r.o, r.w) # r.s
  /\ r.k = "strok" => Resolves(S.ss, B(S, r.o))
Observed(S, r) ==
  CASE r.p = "r" -> Value(S, r)
    [] r.p = "o" -> IF Given(S, r) THEN Some(Value(S, r)) ELSE None
    [] r.p = "d" -> IF Given(S, r) THEN Value(S, r) ELSE r.d

(* texts of an enumerated field *)
TextOf(S, r) ==
  LET c == IF r.k = "enum7" THEN B(S, r.o) % 128 ELSE B(S, r.o)
      dflt == CHOOSE x \in 0..255 : Name(r.a, x) = r.d
  IN CASE r.p = "r" -> Texts(r.a, c)
       [] r.p = "o" -> IF Given(S, r) THEN Some(Texts(r.a, c)) ELSE None
       [] r.p = "d" -> IF Given(S, r) THEN Texts(r.a, c) ELSE Texts(r.a, dflt)

---------------------------------------------------------------------------
(* Structures whose fields depend on one another                            *)

(* Enclosure: contained elements (count, record length, records), then SKU  *)
EncCount(S) == B(S, 19)
EncSize(S) == B(S, 20)
EncFits(S) == S.len >= 21 /\ 21 + EncCount(S) * EncSize(S) <= S.len
EncSkuAt(S) == 21 + EncCount(S) * EncSize(S)
EncHasSku(S) == EncFits(S) /\ EncSkuAt(S) < S.len
EncRecord(S, i) ==
  LET sz == EncSize(S) IN Widen(Slice(S.b, 21 + (i - 1) * sz, IF sz < 3 THEN sz ELSE 3), 3)
ElementText(q) == ContainedType(q[1])[2] \o " (" \o Dec(q[2]) \o "-" \o Dec(q[3]) \o ")"
EncItems(S) ==
  IF EncSize(S) = 0 THEN <<>> ELSE [i \in 1..EncCount(S) |-> ElementText(EncRecord(S, i))]

(* Processor *)
Family(S) == IF B(S, 6) = 254 /\ Since(S, V26, 42) THEN W(S, 40) ELSE B(S, 6)
Cores(S, o, o2) ==
  When(Since(S, V25, 40), IF B(S, o) = 255 /\ Since(S, V30, 48) THEN W(S, o2) ELSE B(S, o))
VoltageOf(x) ==
  CASE x >= 128 -> <<"Current", x - 128>>
    [] x % 128 >= 8 -> <<"Undefined", x>>
    [] OTHER -> <<"Legacy", x>>
RECURSIVE Bin(_)
Bin(x) == IF x < 2 THEN Dec(x) ELSE Bin(x \div 2) \o Dec(x % 2)
VoltageText(x) ==
  CASE x >= 128 -> "Current voltage: " \o Dec((x - 128) \div 10) \o "." \o Dec((x - 128) % 10) \o " V"
    [] x = 0 -> "Voltage capability unknown"
    [] x >= 8 -> "Undefined 0b" \o Bin(x)
    [] OTHER -> "Processor socket accept: " \o (IF BitSet(x, 0) THEN "5.5V " ELSE "")
                  \o (IF BitSet(x, 1) THEN "3.3V " ELSE "") \o (IF BitSet(x, 2) THEN "2.9V " ELSE "")

(* BIOS ROM size: 64 KB units, or the extended field *)
RomUnit(e) == e \div 16384
RomDefined(basic, ext) == basic # 255 \/ ext = <<>> \/ RomUnit(ext[1]) \in {0, 1}
RomBytes(basic, ext) ==
  IF basic # 255 THEN Mul(Mul(Wide(basic + 1, 8), 256, 8), 256, 8)
  ELSE IF ext = <<>> THEN Mul(Mul(Wide(256, 8), 256, 8), 256, 8)
  ELSE LET mb == Mul(Mul(Wide(ext[1] % 16384, 8), 1024, 8), 1024, 8)
       IN IF RomUnit(ext[1]) = 0 THEN mb ELSE Mul(mb, 1024, 8)
RevText(q) == IF q[1] = 255 /\ q[2] = 255 THEN "N/A" ELSE Dec(q[1]) \o "." \o Dec(q[2])

(* Cache *)
CacheSize(x) ==   \* of a word
  LET gran == IF x >= 32768 THEN 64 ELSE 1
      val == Wide(x % 32768, 4)
  IN <<gran, val, Some(Mul(Mul(Widen(val, 8), 1024, 8), gran, 8))>>
CacheSize2(q) ==  \* of four bytes
  LET gran == IF q[4] >= 128 THEN 64 ELSE 1
      val == <<q[1], q[2], q[3], q[4] % 128>>
  IN <<gran, val, Some(Mul(Mul(Widen(val, 8), 1024, 8), gran, 8))>>
YesNo(bit) == IF bit = 1 THEN "true" ELSE "false"
CacheConf(x) == << Name("CacheLevel", x % 8), YesNo(Bit(x, 3)), Name("CacheLocation", (x \div 32) % 4),
                   YesNo(Bit(x, 7)), Name("CacheOperationalMode", (x \div 256) % 4) >>

(* Slots *)
SlotN(S) == IF S.len > 18 THEN B(S, 18) ELSE 0
PeersFit(S) == 19 + 5 * SlotN(S) <= S.len
Peer(S, i) == Slice(S.b, 19 + 5 * (i - 1), 5)
DeviceOf(q) == << <<q[1] + 256 * q[2], q[3], q[4]>>, q[5] >>
LHex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
LHex2(x) == LHex[(x \div 16) + 1] \o LHex[(x % 16) + 1]
DeviceText(q) == LHex2(q[2]) \o LHex2(q[1]) \o ":" \o LHex2(q[3]) \o ":" \o LHex2(q[4] \div 8) \o "." \o LHex[(q[4] % 8) + 1]
                   \o " (Width " \o Dec(q[5]) \o ")"
SlotRest(S, k) == 20 + 5 * SlotN(S) + k
PitchText(x) == IF x = 0 THEN "Not given or is unknown" ELSE Dec(x \div 100) \o "." \o Dec2(x % 100) \o " mm"

(* Lists of strings *)
Listing(S) == Listed(S.ss, 100000)
Languages(S) == Listed(S.ss, 255)

(* Group associations *)
GroupItems(S) ==
  LET n == (S.len - 5) \div 3 IN [i \in 1..n |-> <<B(S, 2 + 3 * i), W(S, 3 + 3 * i)>>]

(* Event log *)
LogX(S) == B(S, 21)
LogY(S) == B(S, 22)
HasDescriptors(S) == S.v >= V21
Descriptor(S, i) == Slice(S.b, 23 + 2 * (i - 1), 2)
DescriptorOf(q) == <<q, Name("EventLogType", q[1]), DataFormat(q[2])[1]>>
LogItems(S) == IF LogY(S) # 2 THEN <<>> ELSE [i \in 1..LogX(S) |-> DescriptorOf(Descriptor(S, i))]
(* formats 1 to 6 carry a value that a descriptor does not have: zeroes *)
DataFormatAlt(c) ==
  CASE c = 1 -> "SMBIOS structure associated handle: 0"
    [] c = 2 -> "Multiple-event counter value: 0"
    [] c = 3 -> "Multiple-event: Handle 0x0000, Count 0"
    [] c = 4 -> "POST result: 0x0"
    [] c = 5 -> "System management: Reserved: 65535"
    [] c = 6 -> "Multiple-event system management: Type Reserved: 65535, Count 0"
    [] OTHER -> DataFormat(c)[3]
DataFormatTexts(c) == <<DataFormat(c)[2], DataFormatAlt(c)>>

(* Memory array: the wide capacity counts when the narrow one says so *)
MaxUnknown(S) == S.v < V21 \/ Slice(S.b, 7, 4) = <<0, 0, 0, 128>>
ExtCapacity(S) ==
  IF Since(S, V27, 23) /\ MaxUnknown(S) /\ Slice(S.b, 15, 8) # Zeros(8) THEN Some(Slice(S.b, 15, 8)) ELSE None

(* Battery *)
Basic(S, o) == B(S, o) # 0 /\ Resolves(S.ss, B(S, o))
SbdsDate(x) == <<1980 + x \div 512, (x \div 32) % 16, x % 32>>
DateOf(S) == CASE Basic(S, 6) -> <<"Basic", StringNo(S.ss, B(S, 6))>>
               [] Has(S, 18, 2) -> <<"Sbds", SbdsDate(W(S, 18))>>
               [] OTHER -> <<"None", <<>>>>
Dec4(x) == IF x < 10 THEN "000" \o Dec(x) ELSE IF x < 100 THEN "00" \o Dec(x) ELSE IF x < 1000 THEN "0" \o Dec(x) ELSE Dec(x)
DateText(x) == LET d == SbdsDate(x) IN Dec4(d[1]) \o "-" \o Dec2(d[2]) \o "-" \o Dec2(d[3])
SerialOf(S) == CASE Basic(S, 7) -> <<"Basic", StringNo(S.ss, B(S, 7))>>
                 [] Has(S, 16, 2) -> <<"Sbds", <<W(S, 16)>>>>
                 [] OTHER -> <<"None", <<>>>>
SerialText(x) == "0x" \o (IF x < 16 THEN "0" ELSE "") \o HexMin(x)
ChemistryOf(S) ==
  IF B(S, 9) = 2 /\ Has(S, 20, 1) /\ Resolves(S.ss, B(S, 20))
  THEN <<"Sbds", StringNo(S.ss, B(S, 20))>> ELSE <<Chemistry(B(S, 9))[1], <<>>>>
CapacityBytes(val, mult) == Mul(Wide(val, 8), mult, 8)
Multiplier(S) == IF Has(S, 21, 1) THEN B(S, 21) ELSE 1
CapacityOf(S) ==
  IF W(S, 10) = 0 THEN <<"Unknown", <<>>, Some(Zeros(8))>>
  ELSE <<"Data", <<W(S, 10), Multiplier(S)>>, Some(CapacityBytes(W(S, 10), Multiplier(S)))>>

---------------------------------------------------------------------------
(* Entries <<group, name, value, tag>>: what is observed of S beyond rows.  *)
(* tag: "o" presence varies, "x" one field stands in for another, "" plain. *)
Entry(g, n, x, tag) == <<g, n, x, tag>>
T2(s) == <<s, s>>
Extra(S) ==
  CASE S.t = 0 ->
         LET ext == When(Since(S, V31, 26), W(S, 24))
             rev(o) == When(Since(S, V24, 24), T2(RevText(Slice(S.b, o, 2))))
         IN << Entry("t", "bios_revision", rev(20), "o"), Entry("t", "firmware_revision", rev(22), "o") >>
            \o (IF RomDefined(B(S, 9), ext) THEN << Entry("d", "rom_size", Some(RomBytes(B(S, 9), ext)), "") >> ELSE <<>>)
    [] S.t = 3 ->
         << Entry("l", "contained_elements", When(EncFits(S), <<EncCount(S), EncItems(S)>>), "o"),
            Entry("s", "sku_number", When(EncHasSku(S), StringNo(S.ss, B(S, EncSkuAt(S)))), "o") >>
    [] S.t = 4 ->
         << Entry("e", "processor_family", Name("ProcessorFamily", Family(S)), "x"),
            Entry("t", "processor_family", Texts("ProcessorFamily", Family(S)), "x"),
            Entry("n", "core_count", Cores(S, 35, 42), "x"), Entry("n", "core_enabled", Cores(S, 36, 44), "x"),
            Entry("n", "thread_count", Cores(S, 37, 46), "x"),
            Entry("d", "voltage", VoltageOf(B(S, 17)), ""), Entry("t", "voltage", T2(VoltageText(B(S, 17))), "") >>
    [] S.t = 7 ->
         << Entry("d", "cache_configuration", CacheConf(W(S, 5)), ""),
            Entry("d", "maximum_cache_size", CacheSize(W(S, 7)), ""), Entry("d", "installed_size", CacheSize(W(S, 9)), ""),
            Entry("d", "maximum_cache_size_2", When(Since(S, V31, 27), CacheSize2(Slice(S.b, 19, 4))), "o"),
            Entry("d", "installed_size_2", When(Since(S, V31, 27), CacheSize2(Slice(S.b, 23, 4))), "o") >>
    [] S.t = 9 ->
         LET w == SlotRest(S, 1)  info == SlotRest(S, 0)  pitch == SlotRest(S, 2)
             peers == S.len >= 19 /\ PeersFit(S)
         IN << Entry("n", "slot_information", When(Has(S, info, 1), B(S, info)), "o"),
               Entry("e", "slot_physical_width", When(Has(S, w, 1), Name("SlotWidth", B(S, w))), "o"),
               Entry("t", "slot_physical_width", When(Has(S, w, 1), Texts("SlotWidth", B(S, w))), "o"),
               Entry("n", "slot_pitch", When(Has(S, pitch, 2), W(S, pitch)), "o"),
               Entry("t", "slot_pitch", When(Has(S, pitch, 2), T2(PitchText(W(S, pitch)))), "o"),
               Entry("l", "peer_devices", When(peers, [i \in 1..SlotN(S) |-> DeviceOf(Peer(S, i))]), "o"),
               Entry("t", "peer_devices", When(peers, [i \in 1..SlotN(S) |-> DeviceText(Peer(S, i))]), "o") >>
    [] S.t \in {11, 12} -> << Entry("l", "strings", Listing(S), "") >>
    [] S.t = 13 ->
         << Entry("l", "strings", Languages(S), ""),
            Entry("b", "flags", When(S.v >= V21, <<B(S, 5)>>), "o"),
            Entry("n", "current_language", IF S.v >= V21 THEN B(S, 21) ELSE B(S, 20), "") >>
    [] S.t = 14 -> << Entry("l", "items", GroupItems(S), "") >>
    [] S.t = 15 ->
         LET q == Slice(S.b, 16, 4) IN
         << Entry("n", "access_method", AccessMethod(B(S, 10), q), ""),
            Entry("t", "access_method", <<AccessText(B(S, 10), q), AccessAlt(B(S, 10), q)>>, ""),
            Entry("l", "descriptors", When(HasDescriptors(S), LogItems(S)), "o"),
            Entry("t", "descriptors",
                  When(HasDescriptors(S), [i \in 1..Len(LogItems(S)) |->
                       <<Texts("EventLogType", Descriptor(S, i)[1]), DataFormatTexts(Descriptor(S, i)[2])>>]), "o") >>
    [] S.t = 16 -> << Entry("n", "extended_maximum_capacity", ExtCapacity(S), "x") >>
    [] S.t = 22 ->
         LET d == DateOf(S)  s == SerialOf(S)  c == ChemistryOf(S)
             txt(n, x, t) == IF x[1] \in {"Basic"} THEN Entry("tb", n, x[2], "x") ELSE Entry("ta", n, t, "x")
         IN << Entry("d", "manufacture_date", d, "x"), Entry("d", "serial_number", s, "x"),
               Entry("e", "device_chemistry", c, "x"), Entry("d", "design_capacity", CapacityOf(S), ""),
               txt("manufacture_date", d, IF d[1] = "Sbds" THEN DateText(W(S, 18)) ELSE ""),
               txt("serial_number", s, IF s[1] = "Sbds" THEN SerialText(W(S, 16)) ELSE ""),
               IF c[1] = "Sbds" THEN Entry("tb", "device_chemistry", c[2], "x")
               ELSE Entry("ta", "device_chemistry", Chemistry(B(S, 9))[2], "x") >>
    [] S.t \in Decoded -> <<>>
    [] OTHER ->
         << Entry("n", "version", <<S.v \div 256, S.v % 256>>, ""), Entry("n", "length", S.len, ""),
            Entry("n", "handle", S.h, ""), Entry("n", "data", Slice(S.b, 4, S.len - 4), ""),
            Entry("e", "info", Name("InfoType", S.t), ""), Entry("t", "info", Texts("InfoType", S.t), "") >>

RowTag(r) == IF r.s # <<>> THEN "x" ELSE IF r.p \in {"o", "d"} THEN "o" ELSE ""
FromRows(S, groups) ==
  IF S.t \notin Decoded THEN <<>>
  ELSE LET rs == SelectSeq(Rows[S.t], LAMBDA r : r.g \in groups)
           ts == IF "t" \notin groups THEN <<>>
                 ELSE SelectSeq(Rows[S.t], LAMBDA r : r.g = "e" /\ r.a \notin NoText)
       IN [i \in 1..Len(rs) |-> Entry(rs[i].g, rs[i].n, Observed(S, rs[i]), RowTag(rs[i]))]
          \o [i \in 1..Len(ts) |-> Entry("t", ts[i].n, TextOf(S, ts[i]), RowTag(ts[i]))]
InGroups(e, groups) == e[1] \in groups \/ ("t" \in groups /\ e[1] \in {"ta", "tb"})
(* everything that is observed of S, in the given groups *)
Expected(S, groups) == FromRows(S, groups) \o SelectSeq(Extra(S), LAMBDA e : InGroups(e, groups))

(* the bit-field views of S: <<name, bytes>> *)
ViewsOf(S) ==
  LET row(n) == LET i == CHOOSE i \in DOMAIN Rows[S.t] : Rows[S.t][i].n = n IN Rows[S.t][i]
      put(n) == IF row(n).p = "r" THEN << <<n, Observed(S, row(n))>> >>
                ELSE IF Given(S, row(n)) THEN << <<n, Value(S, row(n))>> >> ELSE <<>>
  IN CASE S.t = 0 -> put("bios_characteristics") \o put("bios_characteristics_exttension_1") \o put("bios_characteristics_exttension_2")
       [] S.t = 9 -> put("slot_characteristics_1") \o put("slot_characteristics_2")
       [] S.t = 13 -> IF S.v >= V21 THEN << <<"flags", <<B(S, 5)>>>> >> ELSE <<>>
       [] S.t = 15 -> put("log_status")
       [] OTHER -> <<>>

---------------------------------------------------------------------------
(* Why a structure cannot be decoded: a set of <<reason, number>>           *)
LengthOk(S) ==
  LET r == Lengths(S.t, S.v) IN
  /\ r[1] <= S.len /\ S.len <= r[2]
  /\ (S.t = 15 /\ S.v >= V21) => S.len = 23 + LogX(S) * LogY(S)
LengthErrors(S) == IF LengthOk(S) THEN {} ELSE {<<"Length", 0>>}
StringErrors(S) ==
  IF S.t \notin Decoded THEN {}
  ELSE LET rs == SelectSeq(Rows[S.t], LAMBDA r : r.k = "str" /\ S.v >= r.v /\ S.len >= r.m)
           idx == {B(S, rs[i].o) : i \in 1..Len(rs)}
                    \cup (IF S.t = 3 /\ EncHasSku(S) THEN {B(S, EncSkuAt(S))} ELSE {})
       IN {<<"String", n>> : n \in {m \in idx : ~Resolves(S.ss, m)}}
CountErrors(S) ==
  IF S.t = 12 /\ S.len >= 5 /\ B(S, 4) # Len(Listing(S)) THEN {<<"String", B(S, 4)>>} ELSE {}
Errors(S) == LengthErrors(S) \cup StringErrors(S) \cup CountErrors(S)
Decodes(S) == Errors(S) = {}
=============================================================================
