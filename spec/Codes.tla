------------------------------- MODULE Codes -------------------------------
(* The enumerations of the standard: code, meaning, text, alternate text.   *)
(* Characters outside ASCII are written <U+XXXX>.  Codes that are not in a  *)
(* table follow the rule of the table (module Enums).                       *)
EXTENDS Naturals, Sequences

Table(rows) == [c \in {rows[i][1] : i \in DOMAIN rows} |->
                  LET i == CHOOSE i \in DOMAIN rows : rows[i][1] = c
                  IN <<rows[i][2], rows[i][3], rows[i][4]>>]

T_WakeupType == Table(<<
     <<0, "Reserved", "", "">>,
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "APM_Timer", "", "">>,
     <<4, "Modem_Ring", "", "">>,
     <<5, "LAN_Remote", "", "">>,
     <<6, "Power_Switch", "", "">>,
     <<7, "PCI_PME", "", "">>,
     <<8, "AC_Power_Restored", "", "">> >>)

T_BoardType == Table(<<
     <<1, "Unknown", "Unknown", "Unknown">>,
     <<2, "Other", "Other", "Other">>,
     <<3, "ServerBlade", "Server Blade", "Server Blade">>,
     <<4, "ConnectivitySwitch", "Connectivity Switch", "Connectivity Switch">>,
     <<5, "SystemManagementModule", "System Management Module", "System Management Module">>,
     <<6, "ProcessorModule", "Processor Module", "Processor Module">>,
     <<7, "IoModule", "I/O Module", "I/O Module">>,
     <<8, "MemoryModule", "Memory Module", "Memory Module">>,
     <<9, "DaughterBoard", "Daughter board", "Daughter board">>,
     <<10, "MotherBoard", "Motherboard (includes processor, memory, and I/O)", "Motherboard (includes processor, memory, and I/O)">>,
     <<11, "ProcessorMemoryModule", "Processor/Memory Module", "Processor/Memory Module">>,
     <<12, "ProcessorIoModule", "Processor/IO Module", "Processor/IO Module">>,
     <<13, "InterconnectBoard", "Interconnect board", "Interconnect board">> >>)

T_EnclosureType == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Desktop", "Desktop", "Desktop">>,
     <<4, "LowProfileDesktop", "Low Profile Desktop", "Low Profile Desktop">>,
     <<5, "PizzaBox", "Pizza Box", "Pizza Box">>,
     <<6, "MiniTower", "Mini Tower", "Mini Tower">>,
     <<7, "Tower", "Tower", "Tower">>,
     <<8, "Portable", "Portable", "Portable">>,
     <<9, "Laptop", "Laptop", "Laptop">>,
     <<10, "Notebook", "Notebook", "Notebook">>,
     <<11, "HandHeld", "Hand Held", "Hand Held">>,
     <<12, "DockingStation", "Docking Station", "Docking Station">>,
     <<13, "AllInOne", "All in One", "All in One">>,
     <<14, "SubNotebook", "Sub Notebook", "Sub Notebook">>,
     <<15, "SpaceSaving", "Space-saving", "Space-saving">>,
     <<16, "LunchBox", "Lunch Box", "Lunch Box">>,
     <<17, "MainServerChassis", "Main Server Chassis", "Main Server Chassis">>,
     <<18, "ExpansionChassis", "Expansion Chassis", "Expansion Chassis">>,
     <<19, "SubChassis", "SubChassis", "SubChassis">>,
     <<20, "BusExpansionChassis", "Bus Expansion Chassis", "Bus Expansion Chassis">>,
     <<21, "PeripheralChassis", "Peripheral Chassis", "Peripheral Chassis">>,
     <<22, "RaidChassis", "RAID Chassis", "RAID Chassis">>,
     <<23, "RackMountChassis", "Rack Mount Chassis", "Rack Mount Chassis">>,
     <<24, "SealedCasePc", "Sealed-case PC", "Sealed-case PC">>,
     <<25, "MultiSystemChassis", "Multi-system chassis", "Multi-system chassis">>,
     <<26, "CompactPci", "Compact PCI", "Compact PCI">>,
     <<27, "AdvancedTca", "Advanced TCA", "Advanced TCA">>,
     <<28, "Blade", "Blade", "Blade">>,
     <<29, "BladeEnclosure", "Blade Enclosure", "Blade Enclosure">>,
     <<30, "Tablet", "Tablet", "Tablet">>,
     <<31, "Convertible", "Convertible", "Convertible">>,
     <<32, "Detachable", "Detachable", "Detachable">>,
     <<33, "IotGateway", "IoT Gateway", "IoT Gateway">>,
     <<34, "EmbeddedPc", "Embedded PC", "Embedded PC">>,
     <<35, "MiniPc", "Mini PC", "Mini PC">>,
     <<36, "StickPc", "Stick PC", "Stick PC">> >>)

T_State == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Safe", "Safe", "Safe">>,
     <<4, "Warning", "Warning", "Warning">>,
     <<5, "Critical", "Critical", "Critical">>,
     <<6, "NonRecoverable", "Non-recoverable", "Non-recoverable">> >>)

T_SecurityStatus == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "None", "None", "None">>,
     <<4, "ExternalInterfaceLockedOut", "External interface locked out", "External interface locked out">>,
     <<5, "ExternalInterfaceEnabled", "External interface enabled", "External interface enabled">> >>)

T_ProcessorType == Table(<<
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "CentralProcessor", "", "">>,
     <<4, "MathProcessor", "", "">>,
     <<5, "DspProcessor", "", "">>,
     <<6, "VideoProcessor", "", "">> >>)

T_ProcessorUpgrade == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "DaughterBoard", "Daughter Board", "Daughter Board">>,
     <<4, "ZIFSocket", "ZIF Socket", "ZIF Socket">>,
     <<5, "ReplaceablePiggyBack", "Replaceable Piggy Back", "Replaceable Piggy Back">>,
     <<6, "None", "None", "None">>,
     <<7, "LIFSocket", "LIF Socket", "LIF Socket">>,
     <<8, "Slot1", "Slot 1", "Slot 1">>,
     <<9, "Slot2", "Slot 2", "Slot 2">>,
     <<10, "Socket370", "370-pin socket", "370-pin socket">>,
     <<11, "SlotA", "Slot A", "Slot A">>,
     <<12, "SlotM", "Slot M", "Slot M">>,
     <<13, "Socket423", "Socket 423", "Socket 423">>,
     <<14, "SocketA", "Socket A (Socket 462)", "Socket A (Socket 462)">>,
     <<15, "Socket478", "Socket 478", "Socket 478">>,
     <<16, "Socket754", "Socket 754", "Socket 754">>,
     <<17, "Socket940", "Socket 940", "Socket 940">>,
     <<18, "Socket939", "Socket 939", "Socket 939">>,
     <<19, "SocketmPGA604", "Socket mPGA604", "Socket mPGA604">>,
     <<20, "SocketLGA771", "Socket LGA771", "Socket LGA771">>,
     <<21, "SocketLGA775", "Socket LGA775", "Socket LGA775">>,
     <<22, "SocketS1", "Socket S1", "Socket S1">>,
     <<23, "SocketAM2", "Socket AM2", "Socket AM2">>,
     <<24, "SocketF", "Socket F (1207)", "Socket F (1207)">>,
     <<25, "SocketLGA1366", "Socket LGA1366", "Socket LGA1366">>,
     <<26, "SocketG34", "Socket G34", "Socket G34">>,
     <<27, "SocketAM3", "Socket AM3", "Socket AM3">>,
     <<28, "SocketC32", "Socket C32", "Socket C32">>,
     <<29, "SocketLGA1156", "Socket LGA1156", "Socket LGA1156">>,
     <<30, "SocketLGA1567", "Socket LGA1567", "Socket LGA1567">>,
     <<31, "SocketPGA988A", "Socket PGA988A", "Socket PGA988A">>,
     <<32, "SocketBGA1288", "Socket BGA1288", "Socket BGA1288">>,
     <<33, "SocketrPGA988B", "Socket rPGA988B", "Socket rPGA988B">>,
     <<34, "SocketBGA1023", "Socket BGA1023", "Socket BGA1023">>,
     <<35, "SocketBGA1224", "Socket BGA1224", "Socket BGA1224">>,
     <<36, "SocketLGA1155", "Socket LGA1155", "Socket LGA1155">>,
     <<37, "SocketLGA1356", "Socket LGA1356", "Socket LGA1356">>,
     <<38, "SocketLGA2011", "Socket LGA2011", "Socket LGA2011">>,
     <<39, "SocketFS1", "Socket FS1", "Socket FS1">>,
     <<40, "SocketFS2", "Socket FS2", "Socket FS2">>,
     <<41, "SocketFM1", "Socket FM1", "Socket FM1">>,
     <<42, "SocketFM2", "Socket FM2", "Socket FM2">>,
     <<43, "SocketLGA2011Three", "Socket LGA2011-3", "Socket LGA2011-3">>,
     <<44, "SocketLGA1356Three", "Socket LGA1356-3", "Socket LGA1356-3">>,
     <<45, "SocketLGA1150", "Socket LGA1150", "Socket LGA1150">>,
     <<46, "SocketBGA1168", "Socket BGA1168", "Socket BGA1168">>,
     <<47, "SocketBGA1234", "Socket BGA1234", "Socket BGA1234">>,
     <<48, "SocketBGA1364", "Socket BGA1364", "Socket BGA1364">>,
     <<49, "SocketAM4", "Socket AM4", "Socket AM4">>,
     <<50, "SocketLGA1151", "Socket LGA1151", "Socket LGA1151">>,
     <<51, "SocketBGA1356", "Socket BGA1356", "Socket BGA1356">>,
     <<52, "SocketBGA1440", "Socket BGA1440", "Socket BGA1440">>,
     <<53, "SocketBGA1515", "Socket BGA1515", "Socket BGA1515">>,
     <<54, "SocketLGA3647", "Socket LGA3647-1", "Socket LGA3647-1">>,
     <<55, "SocketSP3", "Socket SP3", "Socket SP3">>,
     <<56, "SocketSP3r2", "Socket SP3r2", "Socket SP3r2">>,
     <<57, "SocketLGA2066", "Socket LGA2066", "Socket LGA2066">>,
     <<58, "SocketBGA1392", "Socket BGA1392", "Socket BGA1392">>,
     <<59, "SocketBGA1510", "Socket BGA1510", "Socket BGA1510">>,
     <<60, "SocketBGA1528", "Socket BGA1528", "Socket BGA1528">>,
     <<61, "SocketLGA4189", "Socket LGA4189", "Socket LGA4189">>,
     <<62, "SocketLGA1200", "Socket LGA1200", "Socket LGA1200">> >>)

T_CacheErrorCorrectionType == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "None", "None", "None">>,
     <<4, "Parity", "Parity", "Parity">>,
     <<5, "SingleBitEcc", "Single-bit ECC", "Single-bit ECC">>,
     <<6, "MultiBitEcc", "Multi-bit ECC", "Multi-bit ECC">> >>)

T_SystemCacheType == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Instruction", "Instruction", "Instruction">>,
     <<4, "Data", "Data", "Data">>,
     <<5, "Unified", "Unified", "Unified">> >>)

T_CacheAssociativity == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "DirectMapped", "Direct Mapped", "Direct Mapped">>,
     <<4, "TwowaySetAssociative", "2-way Set-Associative", "2-way Set-Associative">>,
     <<5, "FourWaySetAssociative", "4-way Set-Associative", "4-way Set-Associative">>,
     <<6, "FullyAssociative", "Fully Associative", "Fully Associative">>,
     <<7, "EightWaySetAssociative", "8-way Set-Associative", "8-way Set-Associative">>,
     <<8, "SixteenWaySetAssociative", "16-way Set-Associative", "16-way Set-Associative">>,
     <<9, "TwelveWaySetAssociative", "12-way Set-Associative", "12-way Set-Associative">>,
     <<10, "TwentyFourWaySetAssociative", "24-way Set-Associative", "24-way Set-Associative">>,
     <<11, "ThirtyTwoWaySetAssociative", "32-way Set-Associative", "32-way Set-Associative">>,
     <<12, "FourtyEightWaySetAssociative", "48-way Set-Associative", "48-way Set-Associative">>,
     <<13, "SixtyFourWaySetAssociative", "64-way Set-Associative", "64-way Set-Associative">>,
     <<14, "TwentyWaySetAssociative", "20-way Set-Associative", "20-way Set-Associative">> >>)

T_CacheLevel == Table(<<
     <<0, "L1", "L1", "L1">>,
     <<1, "L2", "L2", "L2">>,
     <<2, "L3", "L3", "L3">>,
     <<3, "L4", "L4", "L4">>,
     <<4, "L5", "L5", "L5">>,
     <<5, "L6", "L6", "L6">>,
     <<6, "L7", "L7", "L7">>,
     <<7, "L8", "L8", "L8">> >>)

T_CacheLocation == Table(<<
     <<0, "Internal", "Internal", "Internal">>,
     <<1, "External", "External", "External">>,
     <<2, "Reserved", "Reserved", "Reserved">>,
     <<3, "Unknown", "Unknown", "Unknown">> >>)

T_CacheOperationalMode == Table(<<
     <<0, "WriteThrough", "Write Through", "Write Through">>,
     <<1, "WriteBack", "Write Back", "Write Back">>,
     <<2, "ValuesWithMemoryAddress", "Values with Memory Address", "Values with Memory Address">>,
     <<3, "Unknown", "Unknown", "Unknown">> >>)

T_ConnectorType == Table(<<
     <<0, "None", "None", "None">>,
     <<1, "Centronics", "Centronics", "Centronics">>,
     <<2, "MiniCentronics", "Mini Centronics", "Mini Centronics">>,
     <<3, "Proprietary", "Proprietary", "Proprietary">>,
     <<4, "Db25PinMale", "DB-25 pin male", "DB-25 pin male">>,
     <<5, "Db25PinFemale", "DB-25 pin female", "DB-25 pin female">>,
     <<6, "Db15PinMale", "DB-15 pin male", "DB-15 pin male">>,
     <<7, "Db15PinFemale", "DB-15 pin female", "DB-15 pin female">>,
     <<8, "Db9PinMale", "DB-9 pin male", "DB-9 pin male">>,
     <<9, "Db9PinFemale", "DB-9 pin female", "DB-9 pin female">>,
     <<10, "Rj11", "RJ-11", "RJ-11">>,
     <<11, "Rj45", "RJ-45", "RJ-45">>,
     <<12, "MiniScsi", "50-pin MiniSCSI", "50-pin MiniSCSI">>,
     <<13, "MiniDin", "Mini-DIN", "Mini-DIN">>,
     <<14, "MicroDin", "Micro-DIN", "Micro-DIN">>,
     <<15, "Ps2", "PS/2", "PS/2">>,
     <<16, "Infrared", "Infrared", "Infrared">>,
     <<17, "HpHil", "HP-HIL", "HP-HIL">>,
     <<18, "AccessBus", "Access Bus (USB)", "Access Bus (USB)">>,
     <<19, "SsaScsi", "SSA SCSI", "SSA SCSI">>,
     <<20, "CircularDin8Male", "Circular DIN-8 male", "Circular DIN-8 male">>,
     <<21, "CircularDin8Female", "Circular DIN-8 female", "Circular DIN-8 female">>,
     <<22, "OnBoardIde", "On Board IDE", "On Board IDE">>,
     <<23, "OnBoardFloppy", "On Board Floppy", "On Board Floppy">>,
     <<24, "DualInline9", "9-pin Dual Inline (pin 10 cut)", "9-pin Dual Inline (pin 10 cut)">>,
     <<25, "DualInline25", "25-pin Dual Inline (pin 26 cut)", "25-pin Dual Inline (pin 26 cut)">>,
     <<26, "DualInline50", "50-pin Dual Inline", "50-pin Dual Inline">>,
     <<27, "DualInline68", "68-pin Dual Inline", "68-pin Dual Inline">>,
     <<28, "OnBoardSoundInputFromCdRom", "On Board Sound Input from CD-ROM", "On Board Sound Input from CD-ROM">>,
     <<29, "MiniCentronicsType14", "Mini-Centronics Type-14", "Mini-Centronics Type-14">>,
     <<30, "MiniCentronicsType26", "Mini-Centronics Type-26", "Mini-Centronics Type-26">>,
     <<31, "MiniJack", "Mini-jack (headphones)", "Mini-jack (headphones)">>,
     <<32, "Bnc", "BNC", "BNC">>,
     <<33, "Ieee1394", "1394", "1394">>,
     <<34, "SasSataPlugReceptacle", "SAS/SATA Plug Receptacle", "SAS/SATA Plug Receptacle">>,
     <<35, "UsbTypeCReceptacle", "USB Type-C Receptacle", "USB Type-C Receptacle">>,
     <<160, "Pc98", "PC-98", "PC-98">>,
     <<161, "Pc98Hireso", "PC-98Hireso", "PC-98Hireso">>,
     <<162, "PcH98", "PC-H98", "PC-H98">>,
     <<163, "Pc98Note", "PC-98Note", "PC-98Note">>,
     <<164, "Pc98Full", "PC-98Full", "PC-98Full">>,
     <<255, "Other", "Other <U+2013> Use Reference Designator Strings to supply information.", "Other <U+2013> Use Reference Designator Strings to supply information.">> >>)

T_PortType == Table(<<
     <<0, "None", "None", "None">>,
     <<1, "ParallelPortXtAtCompatible", "Parallel Port XT/AT Compatible", "Parallel Port XT/AT Compatible">>,
     <<2, "ParallelPortPs2", "Parallel Port PS/2", "Parallel Port PS/2">>,
     <<3, "ParallelPortEcp", "Parallel Port ECP", "Parallel Port ECP">>,
     <<4, "ParallelPortEpp", "Parallel Port EPP", "Parallel Port EPP">>,
     <<5, "ParallelPortEcpEpp", "Parallel Port ECP/EPP", "Parallel Port ECP/EPP">>,
     <<6, "SerialPortXtAtCompatible", "Serial Port XT/AT Compatible", "Serial Port XT/AT Compatible">>,
     <<7, "SerialPort16450Compatible", "Serial Port 16450 Compatible", "Serial Port 16450 Compatible">>,
     <<8, "SerialPort16550Compatible", "Serial Port 16550 Compatible", "Serial Port 16550 Compatible">>,
     <<9, "SerialPort16550ACompatible", "Serial Port 16550A Compatible", "Serial Port 16550A Compatible">>,
     <<10, "ScsiPort", "SCSI Port", "SCSI Port">>,
     <<11, "MidiPort", "MIDI Port", "MIDI Port">>,
     <<12, "JoyStickPort", "Joy Stick Port", "Joy Stick Port">>,
     <<13, "KeyboardPort", "Keyboard Port", "Keyboard Port">>,
     <<14, "MousePort", "Mouse Port", "Mouse Port">>,
     <<15, "SsaScsi", "SSA SCSI", "SSA SCSI">>,
     <<16, "Usb", "USB", "USB">>,
     <<17, "FireWire", "FireWire (IEEE P1394)", "FireWire (IEEE P1394)">>,
     <<18, "PcmciaType1", "PCMCIA Type I2", "PCMCIA Type I2">>,
     <<19, "PcmciaType2", "PCMCIA Type II", "PCMCIA Type II">>,
     <<20, "PcmciaType3", "PCMCIA Type III", "PCMCIA Type III">>,
     <<21, "Cardbus", "Cardbus", "Cardbus">>,
     <<22, "AccessBusPort", "Access Bus Port", "Access Bus Port">>,
     <<23, "Scsi2", "SCSI II", "SCSI II">>,
     <<24, "ScsiWide", "SCSI Wide", "SCSI Wide">>,
     <<25, "Pc98", "PC-98", "PC-98">>,
     <<26, "Pc98Hireso", "PC-98-Hireso", "PC-98-Hireso">>,
     <<27, "PcH98", "PC-H98", "PC-H98">>,
     <<28, "VideoPort", "Video Port", "Video Port">>,
     <<29, "AudioPort", "Audio Port", "Audio Port">>,
     <<30, "ModemPort", "Modem Port", "Modem Port">>,
     <<31, "NetworkPort", "Network Port", "Network Port">>,
     <<32, "Sata", "SATA", "SATA">>,
     <<33, "Sas", "SAS", "SAS">>,
     <<34, "MultiFunctionDisplayPort", "MFDP (Multi-Function Display Port)", "MFDP (Multi-Function Display Port)">>,
     <<35, "Thunderbolt", "Thunderbolt", "Thunderbolt">>,
     <<160, "Intel8251Compatible", "8251 Compatible", "8251 Compatible">>,
     <<161, "Intel8251FifoCompatible", "8251 FIFO Compatible", "8251 FIFO Compatible">>,
     <<255, "Other", "Other", "Other">> >>)

T_SlotType == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Isa", "ISA", "ISA">>,
     <<4, "Mca", "MCA", "MCA">>,
     <<5, "Eisa", "EISA", "EISA">>,
     <<6, "Pci", "PCI", "PCI">>,
     <<7, "PcCard", "PC Card (PCMCIA)", "PC Card (PCMCIA)">>,
     <<8, "VlVesa", "VL-VESA", "VL-VESA">>,
     <<9, "Proprietary", "Proprietary", "Proprietary">>,
     <<10, "ProcessorCardSlot", "Processor Card Slot", "Processor Card Slot">>,
     <<11, "ProprietaryMemoryCardSlot", "Proprietary Memory Card Slot", "Proprietary Memory Card Slot">>,
     <<12, "IoRiserCardSlot", "I/O Riser Card Slot", "I/O Riser Card Slot">>,
     <<13, "Nubus", "NuBus", "NuBus">>,
     <<14, "Pci66Mhz", "PCI <U+2013> 66MHz Capable", "PCI <U+2013> 66MHz Capable">>,
     <<15, "Agp", "AGP", "AGP">>,
     <<16, "Agp2x", "AGP 2X", "AGP 2X">>,
     <<17, "Agp4x", "AGP 4X", "AGP 4X">>,
     <<18, "PciX", "PCI-X", "PCI-X">>,
     <<19, "Agp8x", "AGP 8X", "AGP 8X">>,
     <<20, "M2Socket1DP", "M.2 Socket 1-DP (Mechanical Key A)", "M.2 Socket 1-DP (Mechanical Key A)">>,
     <<21, "M2Socket1SD", "M.2 Socket 1-SD (Mechanical Key E)", "M.2 Socket 1-SD (Mechanical Key E)">>,
     <<22, "M2Socket2", "M.2 Socket 2 (Mechanical Key B)", "M.2 Socket 2 (Mechanical Key B)">>,
     <<23, "M2Socket3", "M.2 Socket 3 (Mechanical Key M)", "M.2 Socket 3 (Mechanical Key M)">>,
     <<24, "MxmType1", "MXM Type I", "MXM Type I">>,
     <<25, "MxmType2", "MXM Type II", "MXM Type II">>,
     <<26, "MxmType3", "MXM Type III (standard connector)", "MXM Type III (standard connector)">>,
     <<27, "MxmType3He", "MXM Type III (HE connector)", "MXM Type III (HE connector)">>,
     <<28, "MxmType4", "MXM Type IV", "MXM Type IV">>,
     <<29, "Mxm3TypeA", "MXM 3.0 Type A", "MXM 3.0 Type A">>,
     <<30, "Mxm3TypeB", "MXM 3.0 Type B", "MXM 3.0 Type B">>,
     <<31, "U2PciExpressGen2", "PCI Express Gen 2 SFF-8639 (U.2)", "PCI Express Gen 2 SFF-8639 (U.2)">>,
     <<32, "U2PciExpressGen3", "PCI Express Gen 3 SFF-8639 (U.2)", "PCI Express Gen 3 SFF-8639 (U.2)">>,
     <<33, "PciExpressMini52pin1", "PCI Express Mini 52-pin with bottom-side keep-outs", "PCI Express Mini 52-pin (CEM spec. 2.0) with bottom-side keep-outs. Use Slot Length field value 03h (short length) for \"half-Mini card\" -only support, 04h (long length) for \"full-Mini card\" or dual support.">>,
     <<34, "PciExpressMini52pin2", "PCI Express Mini 52-pin without bottom-side keep-outs", "PCI Express Mini 52-pin (CEM spec. 2.0) without bottom-side keep-outs. Use Slot Length field value 03h (short length) for \"half-Mini card\" -only support, 04h (long length) for \"full-Mini card\" or dual support.">>,
     <<35, "PciExpressMini76pin", "PCI Express Mini 76-pin", "PCI Express Mini 76-pin (CEM spec. 2.0) Corresponds to Display-Mini card.">>,
     <<36, "U2PciExpressGen4", "PCI Express Gen 4 SFF-8639 (U.2)", "PCI Express Gen 4 SFF-8639 (U.2)">>,
     <<37, "U2PciExpressGen5", "PCI Express Gen 5 SFF-8639 (U.2)", "PCI Express Gen 5 SFF-8639 (U.2)">>,
     <<38, "OcpNic3Small", "OCP NIC 3.0 Small Form Factor (SFF)", "OCP NIC 3.0 Small Form Factor (SFF)">>,
     <<39, "OcpNic3Large", "OCP NIC 3.0 Large Form Factor (LFF)", "OCP NIC 3.0 Large Form Factor (LFF)">>,
     <<40, "OcpNicPriorTo3", "OCP NIC Prior to 3.0", "OCP NIC Prior to 3.0">>,
     <<48, "CxlFlexbus1", "CXL Flexbus 1.0 (deprecated)", "CXL Flexbus 1.0 (deprecated)">>,
     <<160, "Pc98C20", "PC-98/C20", "PC-98/C20">>,
     <<161, "Pc98C24", "PC-98/C24", "PC-98/C24">>,
     <<162, "Pc98E", "PC-98/E", "PC-98/E">>,
     <<163, "Pc98LocalBus", "PC-98/Local Bus", "PC-98/Local Bus">>,
     <<164, "Pc98Card", "PC-98/Card", "PC-98/Card">>,
     <<165, "PciExpress", "PCI Express", "PCI Express">>,
     <<166, "PciExpressX1", "PCI Express x1", "PCI Express x1">>,
     <<167, "PciExpressX2", "PCI Express x2", "PCI Express x2">>,
     <<168, "PciExpressX4", "PCI Express x4", "PCI Express x4">>,
     <<169, "PciExpressX8", "PCI Express x8", "PCI Express x8">>,
     <<170, "PciExpressX16", "PCI Express x16", "PCI Express x16">>,
     <<171, "PciExpressGen2", "PCI Express Gen 2", "PCI Express Gen 2">>,
     <<172, "PciExpressGen2x1", "PCI Express Gen 2 x1", "PCI Express Gen 2 x1">>,
     <<173, "PciExpressGen2x2", "PCI Express Gen 2 x2", "PCI Express Gen 2 x2">>,
     <<174, "PciExpressGen2x4", "PCI Express Gen 2 x4", "PCI Express Gen 2 x4">>,
     <<175, "PciExpressGen2x8", "PCI Express Gen 2 x8", "PCI Express Gen 2 x8">>,
     <<176, "PciExpressGen2x16", "PCI Express Gen 2 x16", "PCI Express Gen 2 x16">>,
     <<177, "PciExpressGen3", "PCI Express Gen 3", "PCI Express Gen 3">>,
     <<178, "PciExpressGen3x1", "PCI Express Gen 3 x1", "PCI Express Gen 3 x1">>,
     <<179, "PciExpressGen3x2", "PCI Express Gen 3 x2", "PCI Express Gen 3 x2">>,
     <<180, "PciExpressGen3x4", "PCI Express Gen 3 x4", "PCI Express Gen 3 x4">>,
     <<181, "PciExpressGen3x8", "PCI Express Gen 3 x8", "PCI Express Gen 3 x8">>,
     <<182, "PciExpressGen3x16", "PCI Express Gen 3 x16", "PCI Express Gen 3 x16">>,
     <<184, "PciExpressGen4", "PCI Express Gen 4", "PCI Express Gen 4">>,
     <<185, "PciExpressGen4x1", "PCI Express Gen 4 x1", "PCI Express Gen 4 x1">>,
     <<186, "PciExpressGen4x2", "PCI Express Gen 4 x2", "PCI Express Gen 4 x2">>,
     <<187, "PciExpressGen4x4", "PCI Express Gen 4 x4", "PCI Express Gen 4 x4">>,
     <<188, "PciExpressGen4x8", "PCI Express Gen 4 x8", "PCI Express Gen 4 x8">>,
     <<189, "PciExpressGen4x16", "PCI Express Gen 4 x16", "PCI Express Gen 4 x16">>,
     <<190, "PciExpressGen5", "PCI Express Gen 5", "PCI Express Gen 5">>,
     <<191, "PciExpressGen5x1", "PCI Express Gen 5 x1", "PCI Express Gen 5 x1">>,
     <<192, "PciExpressGen5x2", "PCI Express Gen 5 x2", "PCI Express Gen 5 x2">>,
     <<193, "PciExpressGen5x4", "PCI Express Gen 5 x4", "PCI Express Gen 5 x4">>,
     <<194, "PciExpressGen5x8", "PCI Express Gen 5 x8", "PCI Express Gen 5 x8">>,
     <<195, "PciExpressGen5x16", "PCI Express Gen 5 x16", "PCI Express Gen 5 x16">>,
     <<196, "PciExpressGen6", "PCI Express Gen 6 and Beyond", "PCI Express Gen 6 and Beyond">>,
     <<197, "E1FormFactorSlot", "EDSFF E1", "Enterprise and Datacenter 1U E1 Form Factor Slot (EDSFF E1.S, E1.L). See specifications SFF-TA-1006 and SFF-TA-1007 for more details on values for slot length and pitch.">>,
     <<198, "E3FormFactorSlot", "EDSFF E3", "Enterprise and Datacenter 3\" E3 Form Factor Slot (EDSFF E3.S, E3.L). See specification SFF-TA-1008 for details on values for slot length and pitch.">> >>)

T_SlotWidth == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Byte", "8 bit", "8 bit">>,
     <<4, "Word", "16 bit", "16 bit">>,
     <<5, "Dword", "32 bit", "32 bit">>,
     <<6, "Qword", "64 bit", "64 bit">>,
     <<7, "Dqword", "128 bit", "128 bit">>,
     <<8, "X1", "1x or x1", "1x or x1">>,
     <<9, "X2", "2x or x2", "2x or x2">>,
     <<10, "X4", "4x or x4", "4x or x4">>,
     <<11, "X8", "8x or x8", "8x or x8">>,
     <<12, "X12", "12x or x12", "12x or x12">>,
     <<13, "X16", "16x or x16", "16x or x16">>,
     <<14, "X32", "32x or x32", "32x or x32">> >>)

T_CurrentUsage == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Available", "Available", "Available">>,
     <<4, "InUse", "In use", "In use">>,
     <<5, "Unavailable", "Unavailable", "Unavailable (e.g., connected to a processor that is not installed)">> >>)

T_SlotLength == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "ShortLength", "Short Length", "Short Length">>,
     <<4, "LongLength", "Long Length", "Long Length">>,
     <<5, "DriveFormFactor2_5", "2.5\" drive form factor", "2.5\" drive form factor">>,
     <<6, "DriveFormFactor3_5", "3.5\" drive form factor", "3.5\" drive form factor">> >>)

T_LogHeaderFormat == Table(<<
     <<0, "NoHeader", "No Header", "No Header">>,
     <<1, "LogHeaderType1", "Type 1", "Type 1 log header">> >>)

T_EventLogType == Table(<<
     <<1, "SingleBitEccMemoryError", "Single-bit ECC memory error", "Single-bit ECC memory error">>,
     <<2, "MultiBitEccMemoryError", "Multi-bit ECC memory error", "Multi-bit ECC memory error">>,
     <<3, "ParityMemoryError", "Parity memory error", "Parity memory error">>,
     <<4, "BusTimeOut", "Bus timeout", "Bus time-out">>,
     <<5, "IoChannelCheck", "I/O channel block", "I/O Channel Check">>,
     <<6, "SoftwareNmi", "Software NMI", "Software NMI">>,
     <<7, "PostMemoryResize", "POST memory resize", "POST Memory Resize">>,
     <<8, "PostError", "POST error", "POST Error">>,
     <<9, "PciParityError", "PCI parity error", "PCI Parity Error">>,
     <<10, "PciSystemError", "PCI system error", "PCI System Error">>,
     <<11, "CpuFailure", "CPU failure", "CPU Failure">>,
     <<12, "EisaFailSafeTimerTimeOut", "EISA failsafe timer timeout", "EISA FailSafe Timer time-out">>,
     <<13, "CorrectableMemoryLogDisabled", "Correctable memory log disabled", "Correctable memory log disabled">>,
     <<14, "LoggingDisabledForSpecificEventType", "Logging disabled", "Logging disabled for a specific Event Type">>,
     <<16, "SystemLimitExceeded", "System limit exceeded", "System Limit Exceeded">>,
     <<17, "AsynchronousHardwareTimerExpired", "Asynchronous hardware timer expired", "Asynchronous hardware timer expired and issued a system reset">>,
     <<18, "SystemConfigurationInformation", "System configuration information", "System configuration information">>,
     <<19, "HardDiskInformation", "Hard disk information", "Hard-disk information">>,
     <<20, "SystemReconfigured", "System reconfigured", "System reconfigured">>,
     <<21, "UncorrectableCpuComplexError", "Uncorrectable CPU-complex error", "Uncorrectable CPU-complex error">>,
     <<22, "LogAreaReset", "Log area reset/cleared", "Log Area Reset/Cleared">>,
     <<23, "SystemBoot", "System boot", "System boot">>,
     <<255, "EndOfLog", "End of log", "End of log">> >>)

T_MemoryArrayLocation == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "SystemBoardOrMotherboard", "System board or motherboard", "System board or motherboard">>,
     <<4, "IsaAddOnCard", "ISA add-on card", "ISA add-on card">>,
     <<5, "EisaAddOnCard", "EISA add-on card", "EISA add-on card">>,
     <<6, "PciAddOnCard", "PCI add-on card", "PCI add-on card">>,
     <<7, "McaAddOnCard", "MCA add-on card", "MCA add-on card">>,
     <<8, "PcmciaAddOnCard", "PCMCIA add-on card", "PCMCIA add-on card">>,
     <<9, "ProprietaryAddOnCard", "Proprietary add-on card", "Proprietary add-on card">>,
     <<10, "NuBus", "NuBus", "NuBus">>,
     <<160, "Pc98c20AddOnCard", "PC-98/C20 add-on card", "PC-98/C20 add-on card">>,
     <<161, "Pc98c24AddOnCard", "PC-98/C24 add-on card", "PC-98/C24 add-on card">>,
     <<162, "Pc98eAddOnCard", "PC-98/E add-on card", "PC-98/E add-on card">>,
     <<163, "Pc98LocalBusAddOnCard", "PC-98/Local bus add-on card", "PC-98/Local bus add-on card">>,
     <<164, "CxlAddOnCard", "CXL add-on card", "CXL add-on card">> >>)

T_MemoryArrayUse == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "SystemMemory", "System memory", "System memory">>,
     <<4, "VideoMemory", "Video memory", "Video memory">>,
     <<5, "FlashMemory", "Flash memory", "Flash memory">>,
     <<6, "NonVolatileRam", "Non-volatile RAM", "Non-volatile RAM">>,
     <<7, "CacheMemory", "Cache memory", "Cache memory">> >>)

T_MemoryArrayErrorCorrectionTypes == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "None", "None", "None">>,
     <<4, "Parity", "Parity", "Parity">>,
     <<5, "SingleBitEcc", "Single-bit ECC", "Single-bit ECC">>,
     <<6, "MultiBitEcc", "Multi-bit ECC", "Multi-bit ECC">>,
     <<7, "CRC", "CRC", "CRC">> >>)

T_MD_ErrorGranularity == Table(<<
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "DeviceLevel", "", "">>,
     <<4, "MemoryLevel", "", "">> >>)

T_MD_ErrorOperation == Table(<<
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "Read", "", "">>,
     <<4, "Write", "", "">>,
     <<5, "PartialWrite", "", "">> >>)

T_MD_ErrorType == Table(<<
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "Ok", "", "">>,
     <<4, "BadRead", "", "">>,
     <<5, "Parity", "", "">>,
     <<6, "SingleBit", "", "">>,
     <<7, "DoubleBit", "", "">>,
     <<8, "MultiBit", "", "">>,
     <<9, "Nibble", "", "">>,
     <<10, "Checksum", "", "">>,
     <<11, "Crc", "", "">>,
     <<12, "CorrectedSingleBit", "", "">>,
     <<13, "Corrected", "", "">>,
     <<14, "Uncorrectable", "", "">> >>)

T_FormFactor == Table(<<
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "Simm", "", "">>,
     <<4, "Sip", "", "">>,
     <<5, "Chip", "", "">>,
     <<6, "Dip", "", "">>,
     <<7, "Zip", "", "">>,
     <<8, "ProprietaryCard", "", "">>,
     <<9, "Dimm", "", "">>,
     <<10, "Tsop", "", "">>,
     <<11, "RowOfChips", "", "">>,
     <<12, "Rimm", "", "">>,
     <<13, "SoDimm", "", "">>,
     <<14, "Srimm", "", "">>,
     <<15, "FbDimm", "", "">> >>)

T_MemoryTechnology == Table(<<
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "Dram", "", "">>,
     <<4, "NvDimmN", "", "">>,
     <<5, "NvDimmF", "", "">>,
     <<6, "NvDimmP", "", "">>,
     <<7, "IntelOptane", "", "">> >>)

T_MemoryType == Table(<<
     <<1, "Other", "", "">>,
     <<2, "Unknown", "", "">>,
     <<3, "Dram", "", "">>,
     <<4, "Edram", "", "">>,
     <<5, "Vram", "", "">>,
     <<6, "Sram", "", "">>,
     <<7, "Ram", "", "">>,
     <<8, "Rom", "", "">>,
     <<9, "Flash", "", "">>,
     <<10, "Eeprom", "", "">>,
     <<11, "Feprom", "", "">>,
     <<12, "Eprom", "", "">>,
     <<13, "Cdram", "", "">>,
     <<14, "ThreeDram", "", "">>,
     <<15, "Sdram", "", "">>,
     <<16, "Sgram", "", "">>,
     <<17, "Rdram", "", "">>,
     <<18, "Ddr", "", "">>,
     <<19, "Ddr2", "", "">>,
     <<20, "Ddr2FbDimm", "", "">>,
     <<21, "Reserved", "", "">>,
     <<22, "Reserved", "", "">>,
     <<23, "Reserved", "", "">>,
     <<24, "Ddr3", "", "">>,
     <<25, "Fbd2", "", "">>,
     <<26, "Ddr4", "", "">>,
     <<27, "LpDdr", "", "">>,
     <<28, "LpDdr2", "", "">>,
     <<29, "LpDdr3", "", "">>,
     <<30, "LpDdr4", "", "">>,
     <<31, "LogicalNonVolatileDevice", "", "">>,
     <<32, "Hbm", "", "">>,
     <<33, "Hbm2", "", "">>,
     <<34, "Ddr5", "", "">>,
     <<35, "LpDdr5", "", "">> >>)

T_ErrorType == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Ok", "OK", "OK">>,
     <<4, "BadRead", "Bad read", "Bad read">>,
     <<5, "ParityError", "Parity error", "Parity error">>,
     <<6, "SingleBitError", "Single-bit error", "Single-bit error">>,
     <<7, "DoubleBitError", "Double-bit error", "Double-bit error">>,
     <<8, "MultiBitError", "Multi-bit error", "Multi-bit error">>,
     <<9, "NibbleError", "Nibble error", "Nibble error">>,
     <<10, "ChecksumError", "Checksum error", "Checksum error">>,
     <<11, "CrcError", "CRC error", "CRC error">>,
     <<12, "CorrectedSingleBitError", "Corrected single-bit error", "Corrected single-bit error">>,
     <<13, "CorrectedError", "Corrected error", "Corrected error">>,
     <<14, "UncorrectableError", "Uncorrectable error", "Uncorrectable error">> >>)

T_ErrorGranularity == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "DeviceLevel", "Device level", "Device level">>,
     <<4, "MemoryPartitionLevel", "Memory partition level", "Memory partition level">> >>)

T_ErrorOperation == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Read", "Read", "Read">>,
     <<4, "Write", "Write", "Write">>,
     <<5, "PartialWrite", "Partial write", "Partial write">> >>)

T_PointingType == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Mouse", "Mouse", "Mouse">>,
     <<4, "TrackBall", "Track Ball", "Track Ball">>,
     <<5, "TrackPoint", "Track Point", "Track Point">>,
     <<6, "GlidePoint", "Glide Point", "Glide Point">>,
     <<7, "TouchPad", "Touch Pad", "Touch Pad">>,
     <<8, "TouchScreen", "Touch Screen", "Touch Screen">>,
     <<9, "OpticalSensor", "Optical Sensor", "Optical Sensor">> >>)

T_PointingInterface == Table(<<
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Serial", "Serial", "Serial">>,
     <<4, "Ps2", "PS/2", "PS/2">>,
     <<5, "Infrared", "Infrared", "Infrared">>,
     <<6, "HpHil", "HP-HIL", "HP-HIL">>,
     <<7, "BusMouse", "Bus mouse", "Bus mouse">>,
     <<8, "Adb", "ADB (Apple Desktop Bus)", "ADB (Apple Desktop Bus)">>,
     <<160, "BusMouseDb9", "Bus mouse DB-9", "Bus mouse DB-9">>,
     <<161, "BusMouseMicroDin", "Bus mouse micro-DIN", "Bus mouse micro-DIN">>,
     <<162, "Usb", "USB", "USB">> >>)

T_InfoType == Table(<<
     <<0, "Bios", "BIOS Information", "BIOS Information">>,
     <<1, "System", "System Information", "System Information">>,
     <<2, "BaseBoard", "Baseboard (or Module) Information", "Baseboard (or Module) Information">>,
     <<3, "Enclosure", "System Enclosure or Chassis", "System Enclosure or Chassis">>,
     <<4, "Processor", "Processor Information", "Processor Information">>,
     <<7, "Cache", "Cache Information", "Cache Information">>,
     <<8, "PortConnector", "Port Connector Information", "Port Connector Information">>,
     <<9, "SystemSlots", "System Slots", "System Slots">>,
     <<11, "OemStrings", "OEM Strings", "OEM Strings">>,
     <<12, "SystemConfigurationOptions", "System Configuration Options", "System Configuration Options">>,
     <<13, "BiosLanguage", "BIOS Language Information", "BIOS Language Information">>,
     <<14, "GroupAssociations", "Group Associations", "Group Associations">>,
     <<15, "SystemEventLog", "System Event Log", "System Event Log">>,
     <<16, "PhysicalMemoryArray", "Physical Memory Array", "Physical Memory Array">>,
     <<17, "MemoryDevice", "Memory Device", "Memory Device">>,
     <<18, "MemoryError32", "32-Bit Memory Error Information", "32-Bit Memory Error Information">>,
     <<19, "MemoryArrayMappedAddress", "Memory Array Mapped Address", "Memory Array Mapped Address">>,
     <<20, "MemoryDeviceMappedAddress", "Memory Device Mapped Address", "Memory Device Mapped Address">>,
     <<21, "BuiltInPointingDevice", "Built-in Pointing Device", "Built-in Pointing Device">>,
     <<22, "PortableBattery", "Portable Battery", "Portable Battery">>,
     <<32, "SystemBoot", "System Boot Information", "System Boot Information">>,
     <<127, "End", "End-of-Table", "End-of-Table">> >>)

T_ProcessorFamily == Table(<<
     <<0, "OutOfSpec", "OUT OF SPEC", "OUT OF SPEC">>,
     <<1, "Other", "Other", "Other">>,
     <<2, "Unknown", "Unknown", "Unknown">>,
     <<3, "Intel8086", "8086", "8086">>,
     <<4, "Intel80286", "80286", "80286">>,
     <<5, "Intel386Processor", "Intel386<U+2122> processor", "Intel386<U+2122> processor">>,
     <<6, "Intel486Processor", "Intel486<U+2122> processor", "Intel486<U+2122> processor">>,
     <<7, "Intel8087", "8087", "8087">>,
     <<8, "Intel80287", "80287", "80287">>,
     <<9, "Intel80387", "80387", "80387">>,
     <<10, "Intel80487", "80487", "80487">>,
     <<11, "IntelPentiumProcessor", "Intel<U+00AE> Pentium<U+00AE> processor", "Intel<U+00AE> Pentium<U+00AE> processor">>,
     <<12, "PentiumProProcessor", "Pentium<U+00AE> Pro processor", "Pentium<U+00AE> Pro processor">>,
     <<13, "PentiumIIProcessor", "Pentium<U+00AE> II processor", "Pentium<U+00AE> II processor">>,
     <<14, "PentiumProcessorWithMMXTechnology", "Pentium<U+00AE> processor with MMX<U+2122> technology", "Pentium<U+00AE> processor with MMX<U+2122> technology">>,
     <<15, "IntelCeleronProcessor", "Intel<U+00AE> Celeron<U+00AE> processor", "Intel<U+00AE> Celeron<U+00AE> processor">>,
     <<16, "PentiumIIXeonProcessor", "Pentium<U+00AE> II Xeon<U+2122> processor", "Pentium<U+00AE> II Xeon<U+2122> processor">>,
     <<17, "PentiumIIIProcessor", "Pentium<U+00AE> III processor", "Pentium<U+00AE> III processor">>,
     <<18, "M1Family", "M1 Family", "M1 Family">>,
     <<19, "M2Family", "M2 Family", "M2 Family">>,
     <<20, "IntelCeleronMProcessor", "Intel<U+00AE> Celeron<U+00AE> M processor", "Intel<U+00AE> Celeron<U+00AE> M processor">>,
     <<21, "IntelPentium4HTProcessor", "Intel<U+00AE> Pentium<U+00AE> 4 HT processor", "Intel<U+00AE> Pentium<U+00AE> 4 HT processor">>,
     <<24, "AMDDuronProcessorFamily", "AMD Duron<U+2122> Processor Family [1]", "AMD Duron<U+2122> Processor Family [1]">>,
     <<25, "K5Family", "K5 Family [1]", "K5 Family [1]">>,
     <<26, "K6Family", "K6 Family [1]", "K6 Family [1]">>,
     <<27, "K62", "K6-2", "K6-2">>,
     <<28, "K63", "K6-3", "K6-3">>,
     <<29, "AMDAthlonProcessorFamily", "AMD Athlon<U+2122> Processor Family [1]", "AMD Athlon<U+2122> Processor Family [1]">>,
     <<30, "AMD29000Family", "AMD29000 Family", "AMD29000 Family">>,
     <<31, "K62Plus", "K6-2+", "K6-2+">>,
     <<32, "PowerPCFamily", "Power PC Family", "Power PC Family">>,
     <<33, "PowerPC601", "Power PC 601", "Power PC 601">>,
     <<34, "PowerPC603", "Power PC 603", "Power PC 603">>,
     <<35, "PowerPC603Plus", "Power PC 603+", "Power PC 603+">>,
     <<36, "PowerPC604", "Power PC 604", "Power PC 604">>,
     <<37, "PowerPC620", "Power PC 620", "Power PC 620">>,
     <<38, "PowerPCX704", "Power PC x704", "Power PC x704">>,
     <<39, "PowerPC750", "Power PC 750", "Power PC 750">>,
     <<40, "IntelCoreDuoProcessor", "Intel<U+00AE> Core<U+2122> Duo processor", "Intel<U+00AE> Core<U+2122> Duo processor">>,
     <<41, "IntelCoreDuoMobileProcessor", "Intel<U+00AE> Core<U+2122> Duo mobile processor", "Intel<U+00AE> Core<U+2122> Duo mobile processor">>,
     <<42, "IntelCoreSoloMobileProcessor", "Intel<U+00AE> Core<U+2122> Solo mobile processor", "Intel<U+00AE> Core<U+2122> Solo mobile processor">>,
     <<43, "IntelAtomProcessor", "Intel<U+00AE> Atom<U+2122> processor", "Intel<U+00AE> Atom<U+2122> processor">>,
     <<44, "IntelCoreMProcessor", "Intel<U+00AE> Core<U+2122> M processor", "Intel<U+00AE> Core<U+2122> M processor">>,
     <<45, "IntelCoreM3Processor", "Intel(R) Core(TM) m3 processor", "Intel(R) Core(TM) m3 processor">>,
     <<46, "IntelCoreM5Processor", "Intel(R) Core(TM) m5 processor", "Intel(R) Core(TM) m5 processor">>,
     <<47, "IntelCoreM7Processor", "Intel(R) Core(TM) m7 processor", "Intel(R) Core(TM) m7 processor">>,
     <<48, "AlphaFamily", "Alpha Family [2]", "Alpha Family [2]">>,
     <<49, "Alpha21064", "Alpha 21064", "Alpha 21064">>,
     <<50, "Alpha21066", "Alpha 21066", "Alpha 21066">>,
     <<51, "Alpha21164", "Alpha 21164", "Alpha 21164">>,
     <<52, "Alpha21164PC", "Alpha 21164PC", "Alpha 21164PC">>,
     <<53, "Alpha21164a", "Alpha 21164a", "Alpha 21164a">>,
     <<54, "Alpha21264", "Alpha 21264", "Alpha 21264">>,
     <<55, "Alpha21364", "Alpha 21364", "Alpha 21364">>,
     <<56, "AMDTurionIIUltraDualCoreMobileMProcessorFamily", "AMD Turion<U+2122> II Ultra Dual-Core Mobile M Processor Family", "AMD Turion<U+2122> II Ultra Dual-Core Mobile M Processor Family">>,
     <<57, "AMDTurionIIDualCoreMobileMProcessorFamily", "AMD Turion<U+2122> II Dual-Core Mobile M Processor Family", "AMD Turion<U+2122> II Dual-Core Mobile M Processor Family">>,
     <<58, "AMDAthlonIIDualCoreMProcessorFamily", "AMD Athlon<U+2122> II Dual-Core M Processor Family", "AMD Athlon<U+2122> II Dual-Core M Processor Family">>,
     <<59, "AMDOpteron6100SeriesProcessor", "AMD Opteron<U+2122> 6100 Series Processor", "AMD Opteron<U+2122> 6100 Series Processor">>,
     <<60, "AMDOpteron4100SeriesProcessor", "AMD Opteron<U+2122> 4100 Series Processor", "AMD Opteron<U+2122> 4100 Series Processor">>,
     <<61, "AMDOpteron6200SeriesProcessor", "AMD Opteron<U+2122> 6200 Series Processor", "AMD Opteron<U+2122> 6200 Series Processor">>,
     <<62, "AMDOpteron4200SeriesProcessor", "AMD Opteron<U+2122> 4200 Series Processor", "AMD Opteron<U+2122> 4200 Series Processor">>,
     <<63, "AMDFXSeriesProcessor", "AMD FX<U+2122> Series Processor", "AMD FX<U+2122> Series Processor">>,
     <<64, "MIPSFamily", "MIPS Family", "MIPS Family">>,
     <<65, "MIPSR4000", "MIPS R4000", "MIPS R4000">>,
     <<66, "MIPSR4200", "MIPS R4200", "MIPS R4200">>,
     <<67, "MIPSR4400", "MIPS R4400", "MIPS R4400">>,
     <<68, "MIPSR4600", "MIPS R4600", "MIPS R4600">>,
     <<69, "MIPSR10000", "MIPS R10000", "MIPS R10000">>,
     <<70, "AMDCSeriesProcessor", "AMD C-Series Processor", "AMD C-Series Processor">>,
     <<71, "AMDESeriesProcessor", "AMD E-Series Processor", "AMD E-Series Processor">>,
     <<72, "AMDASeriesProcessor", "AMD A-Series Processor", "AMD A-Series Processor">>,
     <<73, "AMDGSeriesProcessor", "AMD G-Series Processor", "AMD G-Series Processor">>,
     <<74, "AMDZSeriesProcessor", "AMD Z-Series Processor", "AMD Z-Series Processor">>,
     <<75, "AMDRSeriesProcessor", "AMD R-Series Processor", "AMD R-Series Processor">>,
     <<76, "AMDOpteron4300SeriesProcessor", "AMD Opteron<U+2122> 4300 Series Processor", "AMD Opteron<U+2122> 4300 Series Processor">>,
     <<77, "AMDOpteron6300SeriesProcessor", "AMD Opteron<U+2122> 6300 Series Processor", "AMD Opteron<U+2122> 6300 Series Processor">>,
     <<78, "AMDOpteron3300SeriesProcessor", "AMD Opteron<U+2122> 3300 Series Processor", "AMD Opteron<U+2122> 3300 Series Processor">>,
     <<79, "AMDFireProSeriesProcessor", "AMD FirePro<U+2122> Series Processor", "AMD FirePro<U+2122> Series Processor">>,
     <<80, "SPARCFamily", "SPARC Family", "SPARC Family">>,
     <<81, "SuperSPARC", "SuperSPARC", "SuperSPARC">>,
     <<82, "MicroSPARCII", "microSPARC II", "microSPARC II">>,
     <<83, "MicroSPARCIIep", "microSPARC IIep", "microSPARC IIep">>,
     <<84, "UltraSPARC", "UltraSPARC", "UltraSPARC">>,
     <<85, "UltraSPARCII", "UltraSPARC II", "UltraSPARC II">>,
     <<86, "UltraSPARCIii", "UltraSPARC Iii", "UltraSPARC Iii">>,
     <<87, "UltraSPARCIII", "UltraSPARC III", "UltraSPARC III">>,
     <<88, "UltraSPARCIIIi", "UltraSPARC IIIi", "UltraSPARC IIIi">>,
     <<96, "Motorola68040Family", "68040 Family", "68040 Family">>,
     <<97, "Motorola68xxx", "68xxx", "68xxx">>,
     <<98, "Motorola68000", "68000", "68000">>,
     <<99, "Motorola68010", "68010", "68010">>,
     <<100, "Motorola68020", "68020", "68020">>,
     <<101, "Motorola68030", "68030", "68030">>,
     <<102, "AMDAthlonX4QuadCoreProcessorFamily", "AMD Athlon(TM) X4 Quad-Core Processor Family", "AMD Athlon(TM) X4 Quad-Core Processor Family">>,
     <<103, "AMDOpteronX1000SeriesProcessor", "AMD Opteron(TM) X1000 Series Processor", "AMD Opteron(TM) X1000 Series Processor">>,
     <<104, "AMDOpteronX2000SeriesAPU", "AMD Opteron(TM) X2000 Series APU", "AMD Opteron(TM) X2000 Series APU">>,
     <<105, "AMDOpteronASeriesProcessor", "AMD Opteron(TM) A-Series Processor", "AMD Opteron(TM) A-Series Processor">>,
     <<106, "AMDOpteronX3000SeriesAPU", "AMD Opteron(TM) X3000 Series APU", "AMD Opteron(TM) X3000 Series APU">>,
     <<107, "AMDZenProcessorFamily", "AMD Zen Processor Family", "AMD Zen Processor Family">>,
     <<112, "HobbitFamily", "Hobbit Family", "Hobbit Family">>,
     <<120, "CrusoeTM5000Family", "Crusoe<U+2122> TM5000 Family", "Crusoe<U+2122> TM5000 Family">>,
     <<121, "CrusoeTM3000Family", "Crusoe<U+2122> TM3000 Family", "Crusoe<U+2122> TM3000 Family">>,
     <<122, "EfficeonTM8000Family", "Efficeon<U+2122> TM8000 Family", "Efficeon<U+2122> TM8000 Family">>,
     <<128, "Weitek", "Weitek", "Weitek">>,
     <<130, "ItaniumProcessor", "Itanium<U+2122> processor", "Itanium<U+2122> processor">>,
     <<131, "AMDAthlon64ProcessorFamily", "AMD Athlon<U+2122> 64 Processor Family", "AMD Athlon<U+2122> 64 Processor Family">>,
     <<132, "AMDOpteronProcessorFamily", "AMD Opteron<U+2122> Processor Family", "AMD Opteron<U+2122> Processor Family">>,
     <<133, "AMDSempronProcessorFamily", "AMD Sempron<U+2122> Processor Family", "AMD Sempron<U+2122> Processor Family">>,
     <<134, "AMDTurion64MobileTechnology", "AMD Turion<U+2122> 64 Mobile Technology", "AMD Turion<U+2122> 64 Mobile Technology">>,
     <<135, "DualCoreAMDOpteronProcessorFamily", "Dual-Core AMD Opteron<U+2122> Processor Family", "Dual-Core AMD Opteron<U+2122> Processor Family">>,
     <<136, "AMDAthlon64X2DualCoreProcessorFamily", "AMD Athlon<U+2122> 64 X2 Dual-Core Processor Family", "AMD Athlon<U+2122> 64 X2 Dual-Core Processor Family">>,
     <<137, "AMDTurion64X2MobileTechnology", "AMD Turion<U+2122> 64 X2 Mobile Technology", "AMD Turion<U+2122> 64 X2 Mobile Technology">>,
     <<138, "QuadCoreAMDOpteronProcessorFamily", "Quad-Core AMD Opteron<U+2122> Processor Family", "Quad-Core AMD Opteron<U+2122> Processor Family">>,
     <<139, "ThirdGenerationAMDOpteronProcessorFamily", "Third-Generation AMD Opteron<U+2122> Processor Family", "Third-Generation AMD Opteron<U+2122> Processor Family">>,
     <<140, "AMDPhenomFXQuadCoreProcessorFamily", "AMD Phenom<U+2122> FX Quad-Core Processor Family", "AMD Phenom<U+2122> FX Quad-Core Processor Family">>,
     <<141, "AMDPhenomX4QuadCoreProcessorFamily", "AMD Phenom<U+2122> X4 Quad-Core Processor Family", "AMD Phenom<U+2122> X4 Quad-Core Processor Family">>,
     <<142, "AMDPhenomX2DualCoreProcessorFamily", "AMD Phenom<U+2122> X2 Dual-Core Processor Family", "AMD Phenom<U+2122> X2 Dual-Core Processor Family">>,
     <<143, "AMDAthlonX2DualCoreProcessorFamily", "AMD Athlon<U+2122> X2 Dual-Core Processor Family", "AMD Athlon<U+2122> X2 Dual-Core Processor Family">>,
     <<144, "PARISCFamily", "PA-RISC Family", "PA-RISC Family">>,
     <<145, "PARISC8500", "PA-RISC 8500", "PA-RISC 8500">>,
     <<146, "PARISC8000", "PA-RISC 8000", "PA-RISC 8000">>,
     <<147, "PARISC7300LC", "PA-RISC 7300LC", "PA-RISC 7300LC">>,
     <<148, "PARISC7200", "PA-RISC 7200", "PA-RISC 7200">>,
     <<149, "PARISC7100LC", "PA-RISC 7100LC", "PA-RISC 7100LC">>,
     <<150, "PARISC7100", "PA-RISC 7100", "PA-RISC 7100">>,
     <<160, "V30Family", "V30 Family", "V30 Family">>,
     <<161, "QuadCoreIntelXeonProcessor3200Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 3200 Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 3200 Series">>,
     <<162, "DualCoreIntelXeonProcessor3000Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 3000 Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 3000 Series">>,
     <<163, "QuadCoreIntelXeonProcessor5300Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 5300 Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 5300 Series">>,
     <<164, "DualCoreIntelXeonProcessor5100Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5100 Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5100 Series">>,
     <<165, "DualCoreIntelXeonProcessor5000Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5000 Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5000 Series">>,
     <<166, "DualCoreIntelXeonProcessorLV", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor LV", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor LV">>,
     <<167, "DualCoreIntelXeonProcessorULV", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor ULV", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor ULV">>,
     <<168, "DualCoreIntelXeonProcessor7100Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 7100 Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 7100 Series">>,
     <<169, "QuadCoreIntelXeonProcessor5400Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 5400 Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 5400 Series">>,
     <<170, "QuadCoreIntelXeonProcessor", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor">>,
     <<171, "DualCoreIntelXeonProcessor5200Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5200 Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5200 Series">>,
     <<172, "DualCoreIntelXeonProcessor7200Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 7200 Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 7200 Series">>,
     <<173, "QuadCoreIntelXeonProcessor7300Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 7300 Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 7300 Series">>,
     <<174, "QuadCoreIntelXeonProcessor7400Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 7400 Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 7400 Series">>,
     <<175, "MultiCoreIntelXeonProcessor7400Series", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor 7400 Series", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor 7400 Series">>,
     <<176, "PentiumIIIXeonProcessor", "Pentium<U+00AE> III Xeon<U+2122> processor", "Pentium<U+00AE> III Xeon<U+2122> processor">>,
     <<177, "PentiumIIIProcessorWithIntelSpeedStepTechnology", "Pentium<U+00AE> III Processor with Intel<U+00AE> SpeedStep<U+2122> Technology", "Pentium<U+00AE> III Processor with Intel<U+00AE> SpeedStep<U+2122> Technology">>,
     <<178, "Pentium4Processor", "Pentium<U+00AE> 4 Processor", "Pentium<U+00AE> 4 Processor">>,
     <<179, "IntelXeonProcessor", "Intel<U+00AE> Xeon<U+00AE> processor", "Intel<U+00AE> Xeon<U+00AE> processor">>,
     <<180, "AS400Family", "AS400 Family", "AS400 Family">>,
     <<181, "IntelXeonProcessorMP", "Intel<U+00AE> Xeon<U+2122> processor MP", "Intel<U+00AE> Xeon<U+2122> processor MP">>,
     <<182, "AMDAthlonXPProcessorFamily", "AMD Athlon<U+2122> XP Processor Family", "AMD Athlon<U+2122> XP Processor Family">>,
     <<183, "AMDAthlonMPProcessorFamily", "AMD Athlon<U+2122> MP Processor Family", "AMD Athlon<U+2122> MP Processor Family">>,
     <<184, "IntelItanium2Processor", "Intel<U+00AE> Itanium<U+00AE> 2 processor", "Intel<U+00AE> Itanium<U+00AE> 2 processor">>,
     <<185, "IntelPentiumMProcessor", "Intel<U+00AE> Pentium<U+00AE> M processor", "Intel<U+00AE> Pentium<U+00AE> M processor">>,
     <<186, "IntelCeleronDProcessor", "Intel<U+00AE> Celeron<U+00AE> D processor", "Intel<U+00AE> Celeron<U+00AE> D processor">>,
     <<187, "IntelPentiumDProcessor", "Intel<U+00AE> Pentium<U+00AE> D processor", "Intel<U+00AE> Pentium<U+00AE> D processor">>,
     <<188, "IntelPentiumProcessorExtremeEdition", "Intel<U+00AE> Pentium<U+00AE> Processor Extreme Edition", "Intel<U+00AE> Pentium<U+00AE> Processor Extreme Edition">>,
     <<189, "IntelCoreSoloProcessor", "Intel<U+00AE> Core<U+2122> Solo Processor", "Intel<U+00AE> Core<U+2122> Solo Processor">>,
     <<190, "Ambiguous", "Ambiguous", "Ambiguous">>,
     <<191, "IntelCore2DuoProcessor", "Intel<U+00AE> Core<U+2122> 2 Duo Processor", "Intel<U+00AE> Core<U+2122> 2 Duo Processor">>,
     <<192, "IntelCore2SoloProcessor", "Intel<U+00AE> Core<U+2122> 2 Solo processor", "Intel<U+00AE> Core<U+2122> 2 Solo processor">>,
     <<193, "IntelCore2ExtremeProcessor", "Intel<U+00AE> Core<U+2122> 2 Extreme processor", "Intel<U+00AE> Core<U+2122> 2 Extreme processor">>,
     <<194, "IntelCore2QuadProcessor", "Intel<U+00AE> Core<U+2122> 2 Quad processor", "Intel<U+00AE> Core<U+2122> 2 Quad processor">>,
     <<195, "IntelCore2ExtremeMobileProcessor", "Intel<U+00AE> Core<U+2122> 2 Extreme mobile processor", "Intel<U+00AE> Core<U+2122> 2 Extreme mobile processor">>,
     <<196, "IntelCore2DuoMobileProcessor", "Intel<U+00AE> Core<U+2122> 2 Duo mobile processor", "Intel<U+00AE> Core<U+2122> 2 Duo mobile processor">>,
     <<197, "IntelCore2SoloMobileProcessor", "Intel<U+00AE> Core<U+2122> 2 Solo mobile processor", "Intel<U+00AE> Core<U+2122> 2 Solo mobile processor">>,
     <<198, "IntelCoreI7Processor", "Intel<U+00AE> Core<U+2122> i7 processor", "Intel<U+00AE> Core<U+2122> i7 processor">>,
     <<199, "DualCoreIntelCeleronProcessor", "Dual-Core Intel<U+00AE> Celeron<U+00AE> processor", "Dual-Core Intel<U+00AE> Celeron<U+00AE> processor">>,
     <<200, "IBM390Family", "IBM390 Family", "IBM390 Family">>,
     <<201, "G4", "G4", "G4">>,
     <<202, "G5", "G5", "G5">>,
     <<203, "ESA390G6", "ESA/390 G6", "ESA/390 G6">>,
     <<204, "ZArchitectureBase", "z/Architecture base", "z/Architecture base">>,
     <<205, "IntelCoreI5Processor", "Intel<U+00AE> Core<U+2122> i5 processor", "Intel<U+00AE> Core<U+2122> i5 processor">>,
     <<206, "IntelCoreI3Processor", "Intel<U+00AE> Core<U+2122> i3 processor", "Intel<U+00AE> Core<U+2122> i3 processor">>,
     <<207, "IntelCoreI9Processor", "Intel<U+00AE> Core<U+2122> i9 processor", "Intel<U+00AE> Core<U+2122> i9 processor">>,
     <<210, "VIAC7MProcessorFamily", "VIA C7<U+2122>-M Processor Family", "VIA C7<U+2122>-M Processor Family">>,
     <<211, "VIAC7DProcessorFamily", "VIA C7<U+2122>-D Processor Family", "VIA C7<U+2122>-D Processor Family">>,
     <<212, "VIAC7ProcessorFamily", "VIA C7<U+2122> Processor Family", "VIA C7<U+2122> Processor Family">>,
     <<213, "VIAEdenProcessorFamily", "VIA Eden<U+2122> Processor Family", "VIA Eden<U+2122> Processor Family">>,
     <<214, "MultiCoreIntelXeonProcessor", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor">>,
     <<215, "DualCoreIntelXeonProcessor3xxxSeries", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 3xxx Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 3xxx Series">>,
     <<216, "QuadCoreIntelXeonProcessor3xxxSeries", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 3xxx Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 3xxx Series">>,
     <<217, "VIANanoProcessorFamily", "VIA Nano<U+2122> Processor Family", "VIA Nano<U+2122> Processor Family">>,
     <<218, "DualCoreIntelXeonProcessor5xxxSeries", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5xxx Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 5xxx Series">>,
     <<219, "QuadCoreIntelXeonProcessor5xxxSeries", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 5xxx Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 5xxx Series">>,
     <<221, "DualCoreIntelXeonProcessor7xxxSeries", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 7xxx Series", "Dual-Core Intel<U+00AE> Xeon<U+00AE> processor 7xxx Series">>,
     <<222, "QuadCoreIntelXeonProcessor7xxxSeries", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 7xxx Series", "Quad-Core Intel<U+00AE> Xeon<U+00AE> processor 7xxx Series">>,
     <<223, "MultiCoreIntelXeonProcessor7xxxSeries", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor 7xxx Series", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor 7xxx Series">>,
     <<224, "MultiCoreIntelXeonProcessor3400Series", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor 3400 Series", "Multi-Core Intel<U+00AE> Xeon<U+00AE> processor 3400 Series">>,
     <<228, "AMDOpteron3000SeriesProcessor", "AMD Opteron<U+2122> 3000 Series Processor", "AMD Opteron<U+2122> 3000 Series Processor">>,
     <<229, "AMDSempronIIProcessor", "AMD Sempron<U+2122> II Processor", "AMD Sempron<U+2122> II Processor">>,
     <<230, "EmbeddedAMDOpteronQuadCoreProcessorFamily", "Embedded AMD Opteron<U+2122> Quad-Core Processor Family", "Embedded AMD Opteron<U+2122> Quad-Core Processor Family">>,
     <<231, "AMDPhenomTripleCoreProcessorFamily", "AMD Phenom<U+2122> Triple-Core Processor Family", "AMD Phenom<U+2122> Triple-Core Processor Family">>,
     <<232, "AMDTurionUltraDualCoreMobileProcessorFamily", "AMD Turion<U+2122> Ultra Dual-Core Mobile Processor Family", "AMD Turion<U+2122> Ultra Dual-Core Mobile Processor Family">>,
     <<233, "AMDTurionDualCoreMobileProcessorFamily", "AMD Turion<U+2122> Dual-Core Mobile Processor Family", "AMD Turion<U+2122> Dual-Core Mobile Processor Family">>,
     <<234, "AMDAthlonDualCoreProcessorFamily", "AMD Athlon<U+2122> Dual-Core Processor Family", "AMD Athlon<U+2122> Dual-Core Processor Family">>,
     <<235, "AMDSempronSIProcessorFamily", "AMD Sempron<U+2122> SI Processor Family", "AMD Sempron<U+2122> SI Processor Family">>,
     <<236, "AMDPhenomIIProcessorFamily", "AMD Phenom<U+2122> II Processor Family", "AMD Phenom<U+2122> II Processor Family">>,
     <<237, "AMDAthlonIIProcessorFamily", "AMD Athlon<U+2122> II Processor Family", "AMD Athlon<U+2122> II Processor Family">>,
     <<238, "SixCoreAMDOpteronProcessorFamily", "Six-Core AMD Opteron<U+2122> Processor Family", "Six-Core AMD Opteron<U+2122> Processor Family">>,
     <<239, "AMDSempronMProcessorFamily", "AMD Sempron<U+2122> M Processor Family", "AMD Sempron<U+2122> M Processor Family">>,
     <<250, "I860", "i860", "i860">>,
     <<251, "I960", "i960", "i960">>,
     <<254, "ProcessorFamily2", "Processor Family 2 has the enumerated value", "Processor Family 2 has the enumerated value">>,
     <<256, "ARMv7", "ARMv7", "ARMv7">>,
     <<257, "ARMv8", "ARMv8", "ARMv8">>,
     <<258, "ARMv9", "ARMv9", "ARMv9">>,
     <<260, "SH3", "SH-3", "SH-3">>,
     <<261, "SH4", "SH-4", "SH-4">>,
     <<280, "ARM", "ARM", "ARM">>,
     <<281, "StrongARM", "StrongARM", "StrongARM">>,
     <<300, "Cyrix6x86", "6x86", "6x86">>,
     <<301, "MediaGX", "MediaGX", "MediaGX">>,
     <<302, "MII", "MII", "MII">>,
     <<320, "WinChip", "WinChip", "WinChip">>,
     <<350, "DSP", "DSP", "DSP">>,
     <<500, "VideoProcessor", "Video Processor", "Video Processor">>,
     <<512, "RISCVRV32", "RISC-V RV32", "RISC-V RV32">>,
     <<513, "RISCVRV64", "RISC-V RV64", "RISC-V RV64">>,
     <<514, "RISCVRV128", "RISC-V RV128", "RISC-V RV128">>,
     <<65534, "ForFutureUse", "For special use in the future", "For special use in the future">> >>)
=============================================================================
