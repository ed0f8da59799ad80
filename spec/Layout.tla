------------------------------- MODULE Layout -------------------------------
(* Where the standard puts the fields of each structure.  One row per field *)
(* n name, g group, k kind, o offset, w width, p "r" always there / "o"     *)
(* optional / "d" with a default, v first version, m shortest section that  *)
(* has it, a table or flag set, s raw bytes that mean "not given", d default*)
EXTENDS Bytes, Strings, Enums

Ver(a, b) == 256 * a + b
V20 == Ver(2, 0)
V21 == Ver(2, 1)
V22 == Ver(2, 2)
V23 == Ver(2, 3)
V24 == Ver(2, 4)
V25 == Ver(2, 5)
V26 == Ver(2, 6)
V27 == Ver(2, 7)
V30 == Ver(3, 0)
V31 == Ver(3, 1)
V32 == Ver(3, 2)

Row(n, g, k, o, w, p, v, m, a, s, d) ==
  [n |-> n, g |-> g, k |-> k, o |-> o, w |-> w, p |-> p, v |-> v, m |-> m, a |-> a, s |-> s, d |-> d]
Req(n, g, k, o, w, a) == Row(n, g, k, o, w, "r", 0, o + w, a, <<>>, 0)
Opt(n, g, k, o, w, a, v, m) == Row(n, g, k, o, w, "o", v, m, a, <<>>, 0)
Sen(n, g, k, o, w, v, m, s) == Row(n, g, k, o, w, "o", v, m, "", s, 0)
Def(n, g, k, o, w, a, v, m, d) == Row(n, g, k, o, w, "d", v, m, a, <<>>, d)
Str(n, o) == Req(n, "s", "str", o, 1, "")
Num8(n, o) == Req(n, "n", "u8", o, 1, "")
Num16(n, o) == Req(n, "n", "u16", o, 2, "")
Num(n, o, w) == Req(n, "n", "le", o, w, "")
Enum(n, o, a) == Req(n, "e", "enum", o, 1, a)
Mask(n, o, w, a) == Req(n, "g", "mask", o, w, a)
Bits(n, o, w) == Req(n, "b", "le", o, w, "")
OStr(n, o, v, m) == Opt(n, "s", "str", o, 1, "", v, m)
OEnum(n, o, a, v, m) == Opt(n, "e", "enum", o, 1, a, v, m)
ONum(n, o, w, v, m) == Opt(n, "n", CASE w = 1 -> "u8" [] w = 2 -> "u16" [] OTHER -> "le", o, w, "", v, m)
Hdr == << Num16("handle", 2) >>

FlagBits == [
  board |-> 0..4, status |-> {0, 1, 2, 6}, processor |-> (0..7) \cup {9}, sram |-> 0..6,
  detail |-> 1..15, modes |-> 1..5 ]

L_Bios == Hdr \o <<
  Str("vendor", 4), Str("bios_version", 5), Num16("bios_starting_address_segment", 6),
  Str("bios_release_date", 8), Num8("rom_size_basic", 9), Bits("bios_characteristics", 10, 8),
  Opt("bios_characteristics_exttension_1", "b", "le", 18, 1, "", V21, 19),
  Opt("bios_characteristics_exttension_2", "b", "le", 19, 1, "", V24, 20),
  Opt("bios_revision", "n", "le", 20, 2, "", V24, 24),
  Opt("firmware_revision", "n", "le", 22, 2, "", V24, 24),
  ONum("rom_size_extended", 24, 2, V31, 26) >>
L_System == Hdr \o <<
  Str("manufacturer", 4), Str("product", 5), Str("version", 6), Str("serial", 7),
  Opt("uuid", "n", "uuid", 8, 16, "", V21, 25), OEnum("wakeup", 24, "WakeupType", V21, 25),
  OStr("sku", 25, V24, 27), OStr("family", 26, V24, 27) >>
L_BaseBoard == Hdr \o <<
  Str("manufacturer", 4), Str("product", 5), Str("version", 6), Str("serial", 7),
  OStr("asset", 8, 0, 9), Opt("feature_flags", "g", "mask", 9, 1, "board", 0, 10),
  OStr("location_in_chassis", 10, 0, 11), ONum("chassis_handle", 11, 2, 0, 13),
  OEnum("board_type", 13, "BoardType", 0, 14) >>
L_Enclosure == Hdr \o <<
  Str("manufacturer", 4), Req("chassis_lock", "n", "bit7", 5, 1, ""), Req("enclosure_type", "e", "enum7", 5, 1, "EnclosureType"),
  Str("version", 6), Str("serial_number", 7), Str("asset_tag_number", 8),
  OEnum("boot_up_state", 9, "State", 0, 10), OEnum("power_supply_state", 10, "State", 0, 11),
  OEnum("thermal_state", 11, "State", 0, 12), OEnum("security_status", 12, "SecurityStatus", 0, 13),
  ONum("oem_defined", 13, 4, 0, 17), ONum("height", 17, 1, 0, 18), ONum("power_cords_number", 18, 1, 0, 19) >>
L_Processor == Hdr \o <<
  Str("socket_designation", 4), Enum("processor_type", 5, "ProcessorType"), Str("processor_manufacturer", 7),
  Num("processor_id", 8, 8), Str("processor_version", 16), Num16("external_clock", 18), Num16("max_speed", 20),
  Num16("current_speed", 22), Mask("status", 24, 1, "status"), Enum("processor_upgrade", 25, "ProcessorUpgrade"),
  ONum("l1_cache_handle", 26, 2, V21, 32), ONum("l2_cache_handle", 28, 2, V21, 32), ONum("l3_cache_handle", 30, 2, V21, 32),
  OStr("serial_number", 32, V23, 35), OStr("asset_tag", 33, V23, 35), OStr("part_number", 34, V23, 35),
  Opt("processor_characteristics", "g", "mask", 38, 2, "processor", V25, 40) >>
L_Cache == Hdr \o <<
  Str("socket_designation", 4), Mask("supported_sram_type", 11, 2, "sram"), Mask("current_sram_type", 13, 2, "sram"),
  ONum("cache_speed", 15, 1, V21, 19), OEnum("error_correction_type", 16, "CacheErrorCorrectionType", V21, 19),
  OEnum("system_cache_type", 17, "SystemCacheType", V21, 19), OEnum("associativity", 18, "CacheAssociativity", V21, 19) >>
L_PortConnector == Hdr \o <<
  Str("internal_reference_designator", 4), Enum("internal_connector_type", 5, "ConnectorType"),
  Str("external_reference_designator", 6), Enum("external_connector_type", 7, "ConnectorType"),
  Enum("port_type", 8, "PortType") >>
L_SystemSlots == Hdr \o <<
  Str("slot_designation", 4), Enum("slot_type", 5, "SlotType"), Enum("slot_data_bus_width", 6, "SlotWidth"),
  Enum("current_usage", 7, "CurrentUsage"), Enum("slot_length", 8, "SlotLength"), Num16("slot_id", 9),
  Bits("slot_characteristics_1", 11, 1),
  Opt("slot_characteristics_2", "b", "le", 12, 1, "", 0, 13),
  Sen("segment_group_number", "n", "u16", 13, 2, 0, 15, <<255, 255>>),
  Sen("bus_number", "n", "u8", 15, 1, 0, 16, <<255>>),
  Sen("device_and_function_number", "n", "u8", 16, 1, 0, 17, <<255>>),
  ONum("data_bus_width", 17, 1, 0, 18) >>
L_OemStrings == Hdr
L_SystemConfigurationOptions == Hdr
L_BiosLanguage == Hdr
L_GroupAssociations == Hdr \o << Str("group_name", 4) >>
L_SystemEventLog == Hdr \o <<
  Num16("log_area_length", 4), Num16("log_header_start_offset", 6), Num16("log_data_start_offset", 8),
  Bits("log_status", 11, 1), Num("log_change_token", 12, 4),
  OEnum("log_header_format", 20, "LogHeaderFormat", V20, 21) >>
L_PhysicalMemoryArray == Hdr \o <<
  Def("location", "e", "enum", 4, 1, "MemoryArrayLocation", V21, 5, "Unknown"),
  Def("use", "e", "enum", 5, 1, "MemoryArrayUse", V21, 6, "Unknown"),
  Def("memory_error_correction", "e", "enum", 6, 1, "MemoryArrayErrorCorrectionTypes", V21, 7, "Unknown"),
  Sen("maximum_capacity", "n", "le", 7, 4, V21, 11, <<0, 0, 0, 128>>),
  Sen("memory_error_information_handle", "n", "u16", 11, 2, V21, 13, <<254, 255>>),
  Def("number_of_memory_devices", "n", "u16", 13, 2, "", V21, 15, 0) >>
L_MemoryDevice == Hdr \o <<
  Num16("physical_memory_handle", 4), Sen("memory_error_handle", "n", "u16", 6, 2, 0, 8, <<254, 255>>),
  Sen("total_width", "n", "u16", 8, 2, 0, 10, <<255, 255>>), Sen("data_width", "n", "u16", 10, 2, 0, 12, <<255, 255>>),
  Sen("size", "n", "u16", 12, 2, 0, 14, <<255, 255>>), Enum("form_factor", 14, "FormFactor"),
  ONum("device_set", 15, 1, 0, 16), Str("device_locator", 16), Str("bank_locator", 17), Enum("memory_type", 18, "MemoryType"),
  Mask("type_detail", 19, 2, "detail"), Sen("speed", "n", "u16", 21, 2, 0, 23, <<0, 0>>),
  Def("manufacturer", "s", "str", 23, 1, "", 0, 24, <<>>), Def("serial", "s", "str", 24, 1, "", 0, 25, <<>>),
  Def("asset_tag", "s", "str", 25, 1, "", 0, 26, <<>>), Def("part_number", "s", "str", 26, 1, "", 0, 27, <<>>),
  Def("attributes", "n", "u8", 27, 1, "", 0, 28, 0), Def("extended_size", "n", "le", 28, 4, "", 0, 32, <<0, 0, 0, 0>>),
  Sen("configured_memory_speed", "n", "u16", 32, 2, 0, 34, <<0, 0>>), Sen("minimum_voltage", "n", "u16", 34, 2, 0, 36, <<0, 0>>),
  Sen("maximum_voltage", "n", "u16", 36, 2, 0, 38, <<0, 0>>), Sen("configured_voltage", "n", "u16", 38, 2, 0, 40, <<0, 0>>),
  OEnum("memory_technology", 40, "MemoryTechnology", 0, 41),
  Opt("operating_mode_capability", "g", "mask", 41, 2, "modes", 0, 43),
  Opt("firmware_version", "s", "strok", 43, 1, "", 0, 44),
  ONum("module_manufacturer", 44, 2, 0, 46), ONum("module_product_id", 46, 2, 0, 48),
  ONum("memory_subsystem_controller_manufacturer_id", 48, 2, 0, 50), ONum("memory_subsystem_controller_product_id", 50, 2, 0, 52),
  ONum("non_volatile_size", 52, 8, 0, 60), ONum("volatile_size", 60, 8, 0, 68), ONum("cache_size", 68, 8, 0, 76),
  ONum("logical_size", 76, 8, 0, 84), ONum("extended_speed", 84, 4, 0, 88), ONum("extended_configured_memory_speed", 88, 4, 0, 92) >>
L_MemoryError32 == Hdr \o <<
  Enum("error_type", 4, "ErrorType"), Enum("error_granularity", 5, "ErrorGranularity"), Enum("error_operation", 6, "ErrorOperation"),
  Num("vendor_syndrome", 7, 4), Num("memory_array_error_address", 11, 4), Num("device_error_address", 15, 4),
  Num("error_resolution", 19, 4) >>
L_MemoryArrayMappedAddress == Hdr \o <<
  Num("starting_address", 4, 4), Num("ending_address", 8, 4), Num16("memory_array_handle", 12), Num8("partition_width", 14),
  ONum("extended_starting_address", 15, 8, 0, 23), ONum("extended_ending_address", 23, 8, 0, 31) >>
L_MemoryDeviceMappedAddress == Hdr \o <<
  Num("starting_address", 4, 4), Num("ending_address", 8, 4), Num16("memory_device_handle", 12),
  Num16("memory_array_mapped_address_handle", 14), Num8("partition_row_position", 16), Num8("interleave_position", 17),
  Num8("interleaved_data_depth", 18),
  ONum("extended_starting_address", 19, 8, 0, 27), ONum("extended_ending_address", 27, 8, 0, 35) >>
L_BuiltInPointingDevice == Hdr \o <<
  Enum("type", 4, "PointingType"), Enum("interface", 5, "PointingInterface"), Num8("number_of_buttons", 6) >>
L_PortableBattery == Hdr \o <<
  Str("location", 4), Str("manufacturer", 5), Str("device_name", 8), Num16("design_voltage", 12),
  Str("sbds_version_number", 14), Num8("maximum_error_in_battery_data", 15), ONum("oem_specific", 22, 4, 0, 26) >>

(* structure kinds by type code *)
Kinds == (0 :> "Bios") @@ (1 :> "System") @@ (2 :> "BaseBoard") @@ (3 :> "Enclosure") @@ (4 :> "Processor") @@ (7 :> "Cache")
      @@ (8 :> "PortConnector") @@ (9 :> "SystemSlots") @@ (11 :> "OemStrings") @@ (12 :> "SystemConfigurationOptions")
      @@ (13 :> "BiosLanguage") @@ (14 :> "GroupAssociations") @@ (15 :> "SystemEventLog") @@ (16 :> "PhysicalMemoryArray")
      @@ (17 :> "MemoryDevice") @@ (18 :> "MemoryError32") @@ (19 :> "MemoryArrayMappedAddress")
      @@ (20 :> "MemoryDeviceMappedAddress") @@ (21 :> "BuiltInPointingDevice") @@ (22 :> "PortableBattery")
Decoded == DOMAIN Kinds
Kind(t) == IF t \in Decoded THEN Kinds[t] ELSE "Other"
Rows == (0 :> L_Bios) @@ (1 :> L_System) @@ (2 :> L_BaseBoard) @@ (3 :> L_Enclosure) @@ (4 :> L_Processor) @@ (7 :> L_Cache)
      @@ (8 :> L_PortConnector) @@ (9 :> L_SystemSlots) @@ (11 :> L_OemStrings) @@ (12 :> L_SystemConfigurationOptions)
      @@ (13 :> L_BiosLanguage) @@ (14 :> L_GroupAssociations) @@ (15 :> L_SystemEventLog) @@ (16 :> L_PhysicalMemoryArray)
      @@ (17 :> L_MemoryDevice) @@ (18 :> L_MemoryError32) @@ (19 :> L_MemoryArrayMappedAddress)
      @@ (20 :> L_MemoryDeviceMappedAddress) @@ (21 :> L_BuiltInPointingDevice) @@ (22 :> L_PortableBattery)

(* Permitted lengths of the formatted section: [min, max] by type, version. *)
(* The event log and the group associations say more (module Decode).       *)
Lengths(t, v) ==
  LET atleast(n) == <<n, 255>>  exactly(n) == <<n, n>> IN
  CASE t = 0 -> atleast(18)
    [] t = 1 -> atleast(8)
    [] t = 2 -> atleast(8)
    [] t = 3 -> atleast(9)
    [] t = 4 -> atleast(26)
    [] t = 7 -> atleast(15)
    [] t = 8 -> atleast(9)
    [] t = 9 -> IF v < V21 THEN exactly(12) ELSE IF v < V26 THEN exactly(13) ELSE IF v < V32 THEN exactly(17) ELSE atleast(17)
    [] t = 12 -> atleast(5)
    [] t = 13 -> IF v < V21 THEN atleast(21) ELSE atleast(22)
    [] t = 14 -> atleast(5)
    [] t = 15 -> IF v < V21 THEN exactly(20) ELSE atleast(23)
    [] t = 16 -> IF v < V21 THEN atleast(4) ELSE atleast(15)
    [] t = 17 -> atleast(21)
    [] t = 18 -> IF v < V21 THEN atleast(23) ELSE exactly(23)
    [] t = 19 -> IF v < V21 THEN atleast(15) ELSE IF v < V27 THEN exactly(15) ELSE exactly(31)
    [] t = 20 -> IF v < V21 THEN atleast(19) ELSE IF v < V27 THEN exactly(19) ELSE exactly(35)
    [] t = 21 -> IF v < V21 THEN atleast(7) ELSE exactly(7)
    [] t = 22 -> IF v < V21 THEN atleast(16) ELSE IF v < V22 THEN exactly(16) ELSE exactly(26)
    [] OTHER -> atleast(4)

(* offsets of all string numbers of a type that must resolve, or may *)
StringOffsets(t) ==
  {Rows[t][i].o : i \in {j \in DOMAIN Rows[t] : Rows[t][j].k \in {"str", "strok"}}}
    \cup (IF t = 22 THEN {6, 7, 20} ELSE IF t = 3 THEN {21} ELSE {})
(* the section length beyond which nothing is defined *)
Longest == [t \in Decoded |->
  CASE t = 4 -> 48 [] t = 7 -> 27 [] t = 9 -> 24 + 25 [] t = 3 -> 22 + 9 [] t = 12 -> 5 [] t = 13 -> 22
    [] t = 14 -> 4 + 5 [] t = 15 -> 23 + 8 [] t = 16 -> 23 [] t = 22 -> 26
    [] OTHER -> LET e == {Rows[t][i].o + Rows[t][i].w : i \in DOMAIN Rows[t]} IN CHOOSE x \in e : \A y \in e : y <= x]
=============================================================================
