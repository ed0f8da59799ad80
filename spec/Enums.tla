------------------------------- MODULE Enums --------------------------------
(* Enumerated codes: every code has a meaning; codes outside the tables     *)
(* keep their number.                                                       *)
EXTENDS Bytes, Codes

Tables == [
  WakeupType |-> T_WakeupType, BoardType |-> T_BoardType, EnclosureType |-> T_EnclosureType,
  State |-> T_State, SecurityStatus |-> T_SecurityStatus, ProcessorType |-> T_ProcessorType,
  ProcessorUpgrade |-> T_ProcessorUpgrade, CacheErrorCorrectionType |-> T_CacheErrorCorrectionType,
  SystemCacheType |-> T_SystemCacheType, CacheAssociativity |-> T_CacheAssociativity,
  CacheLevel |-> T_CacheLevel, CacheLocation |-> T_CacheLocation, CacheOperationalMode |-> T_CacheOperationalMode,
  ConnectorType |-> T_ConnectorType, PortType |-> T_PortType, SlotType |-> T_SlotType, SlotWidth |-> T_SlotWidth,
  CurrentUsage |-> T_CurrentUsage, SlotLength |-> T_SlotLength, LogHeaderFormat |-> T_LogHeaderFormat,
  EventLogType |-> T_EventLogType, MemoryArrayLocation |-> T_MemoryArrayLocation,
  MemoryArrayUse |-> T_MemoryArrayUse, MemoryArrayErrorCorrectionTypes |-> T_MemoryArrayErrorCorrectionTypes,
  MD_ErrorGranularity |-> T_MD_ErrorGranularity, MD_ErrorOperation |-> T_MD_ErrorOperation,
  MD_ErrorType |-> T_MD_ErrorType, FormFactor |-> T_FormFactor, MemoryTechnology |-> T_MemoryTechnology,
  MemoryType |-> T_MemoryType, ErrorType |-> T_ErrorType, ErrorGranularity |-> T_ErrorGranularity,
  ErrorOperation |-> T_ErrorOperation, PointingType |-> T_PointingType, PointingInterface |-> T_PointingInterface,
  InfoType |-> T_InfoType, ProcessorFamily |-> T_ProcessorFamily ]

(* enumerations that have no text form of their own *)
NoText == {"WakeupType", "ProcessorType", "MD_ErrorGranularity", "MD_ErrorOperation", "MD_ErrorType",
           "FormFactor", "MemoryTechnology", "MemoryType"}

Paren(name, c) == name \o "(" \o Dec(c) \o ")"
(* meaning, text and alternate text of a code that has no meaning of its own *)
Rest(t, c) ==
  CASE t = "InfoType" -> <<Paren("Oem", c), "OEM: " \o Dec(c), "OEM: " \o Dec(c)>>
    [] t = "LogHeaderFormat" /\ c < 128 -> <<Paren("Available", c), "Available: " \o Dec(c), "Available: " \o Dec(c)>>
    [] t = "LogHeaderFormat" -> <<Paren("OemSpecific", c), "OEM-specific", "BIOS vendor or OEM-specific format: " \o Dec(c)>>
    [] t = "EventLogType" /\ c \in {0, 15} -> <<Paren("Reserved", c), "Reserved", "Reserved: " \o Dec(c)>>
    [] t = "EventLogType" /\ c < 128 -> <<Paren("Unused", c), "Unused: " \o Dec(c), "Unused: " \o Dec(c)>>
    [] t = "EventLogType" -> <<Paren("Available", c), "OEM-specific", "Available for system- and OEM-specific assignments: " \o Dec(c)>>
    [] t = "ProcessorFamily" /\ c \in {255, 65535} ->
         LET x == "Not used. " \o HexMin(c) \o "h is the un-initialized value of Flash memory." IN <<Paren("NotUsed", c), x, x>>
    [] t = "ProcessorFamily" -> <<Paren("Available", c), "Available 0x" \o HexMin(c), "Available 0x" \o HexMin(c)>>
    [] t = "ProcessorUpgrade" -> <<Paren("Undefined", c), "Undefined " \o Dec(c), "Undefined " \o Dec(c)>>
    [] t \in NoText -> <<Paren("Undefined", c), "", "">>
    [] OTHER -> <<Paren("Undefined", c), "Undefined: " \o Dec(c), "Undefined: " \o Dec(c)>>

Code(t, c) == IF c \in DOMAIN Tables[t] THEN Tables[t][c] ELSE Rest(t, c)
Name(t, c) == Code(t, c)[1]
Text(t, c) == Code(t, c)[2]
Alt(t, c)  == Code(t, c)[3]
Texts(t, c) == <<Text(t, c), Alt(t, c)>>

(* What an enclosure contains: bit 7 tells structure types from board types *)
ContainedType(c) ==
  IF c >= 128
  THEN LET x == Code("InfoType", c - 128) IN <<"InfoType(" \o x[1] \o ")", "Structure type: " \o x[2], "Structure type: " \o x[3]>>
  ELSE LET x == Code("BoardType", c) IN <<"BoardType(" \o x[1] \o ")", "Baseboard type: " \o x[2], "Baseboard type: " \o x[3]>>

(* Variable data formats of event log records (as found in descriptors) *)
DataFormat(c) ==
  CASE c = 0 -> <<"None", "None", "No standard format data is available">>
    [] c = 1 -> <<"Handle", "Handle", "">>
    [] c = 2 -> <<"MultipleEvent", "Multiple-event", "">>
    [] c = 3 -> <<"MultipleEventHandle", "Multiple-event handle", "">>
    [] c = 4 -> <<"PostResults", "POST results bitmap", "">>
    [] c = 5 -> <<"SystemManagementType", "System management", "">>
    [] c = 6 -> <<"MultipleEventSystemManagementType", "Multiple-event system management", "">>
    [] c \in 7..127 -> <<"Unused", "Unused: " \o Dec(c), "Unused: " \o Dec(c)>>
    [] OTHER -> <<"OemAssigned", "OEM-specific", "OEM assigned: " \o Dec(c)>>

(* Battery chemistry *)
Chemistry(c) ==
  CASE c = 1 -> <<"Other", "Other">> [] c = 2 -> <<"Unknown", "Unknown">> [] c = 3 -> <<"LeadAcid", "Lead Acid">>
    [] c = 4 -> <<"NickelCadmium", "Nickel Cadmium">> [] c = 5 -> <<"NickelMetalHydride", "Nickel metal hydride">>
    [] c = 6 -> <<"LithiumIon", "Lithium-ion">> [] c = 7 -> <<"ZincAir", "Zinc air">>
    [] c = 8 -> <<"LithiumPolymer", "Lithium Polymer">>
    [] OTHER -> <<Paren("Undefined", c), "Undefined: " \o Dec(c)>>

(* System management event types; q: the four bytes of the code *)
SmType(q) ==
  LET low == q[1]
      small == q[2] = 0 /\ q[3] = 0 /\ q[4] = 0
      named(n, t) == <<n, <<>>, t>>
  IN CASE small /\ low = 0 -> named("OutOfRangeVoltagePlus2_5Num1", "+2.5V Out of range, #1")
       [] small /\ low = 1 -> named("OutOfRangeVoltagePlus2_5Num2", "+2.5V Out of range, #2")
       [] small /\ low = 2 -> named("OutOfRangeVoltagePlus3_3", "+3.3V Out of range")
       [] small /\ low = 3 -> named("OutOfRangeVoltagePlus5", "+5V Out of range")
       [] small /\ low = 4 -> named("OutOfRangeVoltageMinus5", "-5V Out of range")
       [] small /\ low = 5 -> named("OutOfRangeVoltagePlus12", "+12V Out of range")
       [] small /\ low = 6 -> named("OutOfRangeVoltageMinus12", "-12V Out of range")
       [] small /\ low \in 7..15 -> <<"OutOfRangeVoltageReserved", <<low>>, "Out-of-range voltage reserved: " \o Dec(low)>>
       [] small /\ low = 16 -> named("OutOfRangeTemperatureSystemBoard", "System board temperature out of range")
       [] small /\ low \in 17..20 -> named("OutOfRangeTemperatureProcessor" \o Dec(low - 16),
                                           "Processor #" \o Dec(low - 16) \o " temperature out of range")
       [] small /\ low \in 21..31 -> <<"OutOfRangeTemperatureReserved", <<low>>, "Out-of-range temperatures reserved: " \o Dec(low)>>
       [] small /\ low \in 32..39 -> <<"OutOfRangeFan", <<low - 32>>, "Fan " \o Dec(low - 32) \o " Out of range">>
       [] small /\ low = 48 -> named("ChassisSecureSwitchActivated", "Chassis secure switch activated")
       [] q[3] = 1 /\ q[4] = 0 -> <<"OutOfRangeSystemManagementProbe", <<q[1], q[2]>>,
              "A system-management probe or cooling device with handle 0x" \o Hex2(q[2]) \o Hex2(q[1]) \o " is out of range">>
       [] q[4] >= 128 -> <<"OemAssigned", q, "OEM assigned: " \o DecSeq(q)>>
       [] OTHER -> <<"Reserved", q, "Reserved: " \o DecSeq(q)>>

(* The access method of an event log: kind and parameters *)
AccessMethod(m, q) ==
  CASE m = 0 -> <<"IndexedIoOne8bitIndexOne8bitData", <<q[1], q[3]>>>>
    [] m = 1 -> <<"IndexedIoTwo8bitIndexOne8bitData", <<q[1], q[2], q[3]>>>>
    [] m = 2 -> <<"IndexedIoOne16bitIndexOne8bitData", <<q[1], q[2], q[3]>>>>
    [] m = 3 -> <<"MemoryMappedPhysicaAddress", q>>
    [] m = 4 -> <<"GeneralPurposeNonVolatileData", <<q[1], q[2]>>>>
    [] m \in 128..255 -> <<"OemSpecific", <<m>> \o q>>
    [] OTHER -> <<"Available", <<m>> \o q>>
(* its address, with the bytes the method does not use set to zero *)
AccessAddress(m, q) ==
  CASE m = 0 -> <<q[1], 0, q[3], 0>>
    [] m \in {1, 2} -> <<q[1], q[2], q[3], 0>>
    [] m = 4 -> <<q[1], q[2], 0, 0>>
    [] OTHER -> q
AccessText(m, q) ==
  CASE m = 0 -> "Indexed I/O, one 8-bit index port, one 8-bit data port"
    [] m = 1 -> "Indexed I/O, two 8-bit index ports, one 8-bit data port"
    [] m = 2 -> "Indexed I/O, one 16-bit index port, one 8-bit data port"
    [] m = 3 -> "Memory-mapped physical 32-bit address"
    [] m = 4 -> "General-purpose non-volatile data functions"
    [] m \in 128..255 -> "OEM-specific: " \o Dec(m)
    [] OTHER -> "Available: " \o Dec(m)
AccessAlt(m, q) ==
  CASE m = 0 -> AccessText(m, q) \o ": Index 0x" \o Hex2(q[1]) \o ", Data 0x" \o Hex2(q[3])
    [] m = 1 -> AccessText(m, q) \o ": Index [" \o HexMin(q[1]) \o ", " \o HexMin(q[2]) \o "], Data 0x" \o Hex2(q[3])
    [] m = 2 -> AccessText(m, q) \o ": Index 0x" \o Hex2(q[2]) \o Hex2(q[1]) \o ", Data 0x" \o Hex2(q[3])
    [] m = 3 -> AccessText(m, q) \o ": 0x" \o HexSeq(q)
    [] m = 4 -> "General-Purpose NonVolatile Data functions, handle 0x" \o Hex2(q[2]) \o Hex2(q[1])
    [] m \in 128..255 -> "BIOS Vendor/OEM-specific: Method " \o Dec(m) \o ", Address 0x" \o HexSeq(q)
    [] OTHER -> "Available: Method " \o Dec(m) \o ", Address 0x" \o HexSeq(q)
=============================================================================
