----------------------------- MODULE FlagTables -----------------------------
(* Bit-field layouts of the standard: one entry per bit, from bit 0.        *)
(* Sig(short, long): a flag with a meaning;  Res(note): a reserved position.    *)
Sig(short, long) == <<"Significant", short, long>>
Res(note) == <<"Reserved", note, "">>
Unk == <<"Unknown", "", "">>

F_BiosCharacteristics == <<
  Sig("Reserved", "Reserved"),
  Sig("Reserved", "Reserved"),
  Sig("Unknown", "Unknown"),
  Sig("BIOS characteristics not supported", "BIOS Characteristics are not supported"),
  Sig("ISA is supported", "ISA is supported"),
  Sig("MCA is supported", "MCA is supported"),
  Sig("EISA is supported", "EISA is supported"),
  Sig("PCI is supported", "PCI is supported"),
  Sig("PC card (PCMCIA) is supported", "PC card (PCMCIA) is supported"),
  Sig("PNP is supported", "Plug and Play is supported"),
  Sig("APM is supported", "APM is supported"),
  Sig("BIOS is upgradeable", "BIOS is upgradeable (Flash)"),
  Sig("BIOS shadowing is allowed", "BIOS shadowing is allowed"),
  Sig("VLB is supported", "VL-VESA is supported"),
  Sig("ESCD support is available", "ESCD support is available"),
  Sig("Boot from CD is supported", "Boot from CD is supported"),
  Sig("Selectable boot is supported", "Selectable boot is supported"),
  Sig("BIOS ROM is socketed", "BIOS ROM is socketed (e.g. PLCC or SOP socket)"),
  Sig("Boot from PC card (PCMCIA) is supported", "Boot from PC card (PCMCIA) is supported"),
  Sig("EDD is supported", "EDD specification is supported"),
  Sig("Japanese floppy for NEC 9800 1.2 MB is supported (int 13h)", "Int 13h <U+2014> Japanese floppy for NEC 9800 1.2 MB (3.5<U+201D>, 1K bytes/sector, 360 RPM) is supported"),
  Sig("Japanese floppy for Toshiba 1.2 MB is supported (int 13h)", "Int 13h <U+2014> Japanese floppy for Toshiba 1.2 MB (3.5<U+201D>, 360 RPM) is supported"),
  Sig("5.25\"/360 kB floppy services are supported (int 13h)", "Int 13h <U+2014> 5.25<U+201D> / 360 KB floppy services are supported"),
  Sig("5.25\"/1.2 MB floppy services are supported (int 13h)", "Int 13h <U+2014> 5.25<U+201D> /1.2 MB floppy services are supported"),
  Sig("3.5\"/720 kB floppy services are supported (int 13h)", "Int 13h <U+2014> 3.5<U+201D> / 720 KB floppy services are supported"),
  Sig("3.5\"/2.88 MB floppy services are supported (int 13h)", "Int 13h <U+2014> 3.5<U+201D> / 2.88 MB floppy services are supported"),
  Sig("Print screen service is supported (int 5h)", "Int 5h, print screen Service is supported"),
  Sig("8042 keyboard services are supported (int 9h)", "Int 9h, 8042 keyboard services are supported"),
  Sig("Serial services are supported (int 14h)", "Int 14h, serial services are supported"),
  Sig("Printer services are supported (int 17h)", "Int 17h, printer services are supported"),
  Sig("CGA/mono video services are supported (int 10h)", "Int 10h, CGA/Mono Video Services are supported"),
  Sig("NEC PC-98", "NEC PC-98"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for BIOS vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor"),
  Res("Reserved for system vendor") >>

F_BiosExtension1 == <<
  Sig("ACPI is supported", "ACPI is supported"),
  Sig("USB legacy is supported", "USB Legacy is supported"),
  Sig("AGP is supported", "AGP is supported"),
  Sig("I2O boot is supported", "I2O boot is supported"),
  Sig("LS-120 SuperDisk boot is supported", "LS-120 SuperDisk boot is supported"),
  Sig("ATAPI ZIP drive boot is supported", "ATAPI ZIP drive boot is supported"),
  Sig("IEEE 1394 boot is supported", "1394 boot is supported"),
  Sig("Smart battery is supported", "Smart battery is supported") >>

F_BiosExtension2 == <<
  Sig("BIOS boot specification is supported", "BIOS Boot specification is supported"),
  Sig("Function key-initiated network boot is supported", "Function key-initiated network service boot is supported. When function key-uninitiated network service boot is not supported, a network adapter option ROM may choose to offer this functionality on its own, thus offering this capability to legacy systems. When the function is supported, the network adapter option ROM shall not offer this capability"),
  Sig("Targeted content distribution is supported", "Enable targeted content distribution. The manufacturer has ensured that the SMBIOS data is useful in identifying the computer for targeted delivery of model-specific software and firmware content through third-party content distribution services"),
  Sig("UEFI is supported", "UEFI is supported"),
  Sig("System is a virtual machine", "SMBIOS table describes a virtual machine. (If this bit is not set, no inference can be made about the virtuality of the system.)"),
  Res("Reserved for future assignment"),
  Res("Reserved for future assignment"),
  Res("Reserved for future assignment") >>

F_SlotCharacteristics1 == <<
  Sig("Characteristics unknown", "Characteristics unknown"),
  Sig("5.0 V is provided", "Provides 5.0 volts"),
  Sig("3.3 V is provided", "Provides 3.3 volts"),
  Sig("Opening is shared", "Slot<U+2019>s opening is shared with another slot (for example, PCI/EISA shared slot)"),
  Sig("PC Card-16 is supported", "PC Card slot supports PC Card-16"),
  Sig("Cardbus is supported", "PC Card slot supports CardBus"),
  Sig("Zoom Video is supported", "PC Card slot supports Zoom Video"),
  Sig("Modem ring resume is supported", "PC Card slot supports Modem Ring Resume") >>

F_SlotCharacteristics2 == <<
  Sig("PME signal is supported", "PCI slot supports Power Management Event (PME#) signal"),
  Sig("Hot-plug devices are supported", "Slot supports hot-plug devices"),
  Sig("SMBus signal is supported", "PCI slot supports SMBus signal"),
  Sig("PCIe slot bifurcation is supported", "PCIe slot supports bifurcation. This slot can partition its lanes into two or more PCIe devices plugged into the slot. Note: This field does not indicate complete details on what levels of bifurcation are supported by the slot, but only that the slot supports some level of bifurcation"),
  Sig("Async/surprise removal is supported", "Slot supports async/surprise removal (i.e., removal without prior notification to the operating system, device driver, or applications)"),
  Sig("Flexbus slot, CXL 1.0 capable", "Flexbus slot, CXL 1.0 capable"),
  Sig("Flexbus slot, CXL 2.0 capable", "Flexbus slot, CXL 2.0 capable"),
  Res("Reserved") >>

F_LogStatus == <<
  Sig("Valid", "Log area valid"),
  Sig("Full", "Log area full"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved") >>

F_PostResults == <<
  Sig("Channel 2 Timer error", "Channel 2 Timer error"),
  Sig("Primary PIC (8259 #1) error", "Primary PIC (8259 #1) error"),
  Sig("Secondary PIC (8259 #2) error", "Secondary PIC (8259 #2) error"),
  Sig("CMOS RAM Battery Failure", "CMOS RAM Battery Failure"),
  Sig("CMOS RAM System Options Not Set", "CMOS RAM System Options Not Set"),
  Sig("CMOS RAM Checksum Error", "CMOS RAM Checksum Error"),
  Sig("CMOS RAM Configuration Error", "CMOS RAM Configuration Error"),
  Sig("Mouse and Keyboard Swapped", "Mouse and Keyboard Swapped"),
  Sig("Keyboard Locked", "Keyboard Locked"),
  Sig("Keyboard Not Functional", "Keyboard Not Functional"),
  Sig("Keyboard Controller Not Functional", "Keyboard Controller Not Functional"),
  Sig("CMOS Memory Size Different", "CMOS Memory Size Different"),
  Sig("Memory Decreased in Size", "Memory Decreased in Size"),
  Sig("Cache Memory Error", "Cache Memory Error"),
  Sig("Floppy Drive 0 Error", "Floppy Drive 0 Error"),
  Sig("Floppy Drive 1 Error", "Floppy Drive 1 Error"),
  Sig("Floppy Controller Failure", "Floppy Controller Failure"),
  Sig("Number of ATA Drives Reduced Error", "Number of ATA Drives Reduced Error"),
  Sig("RTC Time Not Set", "RTC Time Not Set"),
  Sig("DDC Monitor Configuration Change", "DDC Monitor Configuration Change"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Sig("Second DWORD has valid data", "Second DWORD has valid data"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Res("Available for OEM assignment"),
  Sig("PCI Memory Conflict", "PCI Memory Conflict"),
  Sig("PCI I/O Conflict", "PCI I/O Conflict"),
  Sig("PCI IRQ Conflict", "PCI IRQ Conflict"),
  Sig("PNP Memory Conflict", "PNP Memory Conflict"),
  Sig("PNP 32 bit Memory Conflict", "PNP 32 bit Memory Conflict"),
  Sig("PNP I/O Conflict", "PNP I/O Conflict"),
  Sig("PNP IRQ Conflict", "PNP IRQ Conflict"),
  Sig("PNP DMA Conflict", "PNP DMA Conflict"),
  Sig("Bad PNP Serial ID Checksum", "Bad PNP Serial ID Checksum"),
  Sig("Bad PNP Resource Data Checksum", "Bad PNP Resource Data Checksum"),
  Sig("Static Resource Conflict", "Static Resource Conflict"),
  Sig("NVRAM Checksum Error, NVRAM Cleared", "NVRAM Checksum Error, NVRAM Cleared"),
  Sig("System Board Device Resource Conflict", "System Board Device Resource Conflict"),
  Sig("Primary Output Device Not Found", "Primary Output Device Not Found"),
  Sig("Primary Input Device Not Found", "Primary Input Device Not Found"),
  Sig("Primary Boot Device Not Found", "Primary Boot Device Not Found"),
  Sig("NVRAM Cleared By Jumper", "NVRAM Cleared By Jumper"),
  Sig("NVRAM Data Invalid, NVRAM Cleared", "NVRAM Data Invalid, NVRAM Cleared"),
  Sig("FDC Resource Conflict", "FDC Resource Conflict"),
  Sig("Primary ATA Controller Resource Conflict", "Primary ATA Controller Resource Conflict"),
  Sig("Secondary ATA Controller Resource Conflict", "Secondary ATA Controller Resource Conflict"),
  Sig("Parallel Port Resource Conflict", "Parallel Port Resource Conflict"),
  Sig("Serial Port 1 Resource Conflict", "Serial Port 1 Resource Conflict"),
  Sig("Serial Port 2 Resource Conflict", "Serial Port 2 Resource Conflict"),
  Sig("Audio Resource Conflict", "Audio Resource Conflict") >>

F_LanguageFlags == <<
  Sig("Current Language strings use the abbreviated format", "If the bit is 0, each language string is in the form <U+201C>ISO 639-1 Language Name | ISO 3166-1-alpha-2 Territory Name | Encoding Method<U+201D>.<U+000A>If the bit is 1, each language string consists of the two-character <U+201C>ISO 639-1 Language Name<U+201D> directly followed by the two-character <U+201C>ISO 3166-1-alpha-2 Territory Name<U+201D>."),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved"),
  Res("Reserved") >>
(* the flags with names of their own: flag set, flag, bits of its word *)
NamedFlags == <<
  <<"BaseBoardFlags", "HOSTING", 1>>,
  <<"BaseBoardFlags", "REQUIRES_DAUGHTER", 2>>,
  <<"BaseBoardFlags", "IS_REMOVABLE", 4>>,
  <<"BaseBoardFlags", "IS_REPLACEABLE", 8>>,
  <<"BaseBoardFlags", "IS_HOT_SWAPPABLE", 16>>,
  <<"ProcessorStatus", "CPU_SOCKET_POPULATED", 64>>,
  <<"ProcessorStatus", "CPU_ENABLED", 1>>,
  <<"ProcessorStatus", "CPU_DISABLED_BY_USER", 2>>,
  <<"ProcessorStatus", "CPU_DISABLED_BY_BIOS", 3>>,
  <<"ProcessorStatus", "CPU_IDLE", 4>>,
  <<"ProcessorStatus", "CPU_OTHER", 7>>,
  <<"ProcessorCharacteristics", "RESERVED", 1>>,
  <<"ProcessorCharacteristics", "UNKNOWN", 2>>,
  <<"ProcessorCharacteristics", "CAPABLE_64BIT", 4>>,
  <<"ProcessorCharacteristics", "MULTICORE", 8>>,
  <<"ProcessorCharacteristics", "HARDWARE_THREAD", 16>>,
  <<"ProcessorCharacteristics", "EXECUTE_PROTECTION", 32>>,
  <<"ProcessorCharacteristics", "ENHANCED_VIRTUALIZATION", 64>>,
  <<"ProcessorCharacteristics", "POWER_PERFORMANCE_CONTROL", 128>>,
  <<"ProcessorCharacteristics", "ARM64_SOC_ID", 512>>,
  <<"VoltageLegacy", "VOLTAGE_CAPABILITY_5V0", 1>>,
  <<"VoltageLegacy", "VOLTAGE_CAPABILITY_3V3", 2>>,
  <<"VoltageLegacy", "VOLTAGE_CAPABILITY_2V9", 4>>,
  <<"CacheSramType", "OTHER", 1>>,
  <<"CacheSramType", "UNKNOWN", 2>>,
  <<"CacheSramType", "NONBURST", 4>>,
  <<"CacheSramType", "BURST", 8>>,
  <<"CacheSramType", "PIPELINE_BURST", 16>>,
  <<"CacheSramType", "SYNCHRONOUS", 32>>,
  <<"CacheSramType", "ASYNCHRONOUS", 64>>,
  <<"Detail", "RESERVED", 0>>,
  <<"Detail", "OTHER", 2>>,
  <<"Detail", "UNKNOWN", 4>>,
  <<"Detail", "FAST_PAGED", 8>>,
  <<"Detail", "STATIC_COLUMN", 16>>,
  <<"Detail", "PSEUDO_STATIC", 32>>,
  <<"Detail", "RAMBUS", 64>>,
  <<"Detail", "SYNCHRONOUS", 128>>,
  <<"Detail", "CMOS", 256>>,
  <<"Detail", "EDO", 512>>,
  <<"Detail", "WINDOW_DRAM", 1024>>,
  <<"Detail", "CACHE_DRAM", 2048>>,
  <<"Detail", "NON_VOLATILE", 4096>>,
  <<"Detail", "REGISTERED", 8192>>,
  <<"Detail", "UNREGISTERED", 16384>>,
  <<"Detail", "LRDIMM", 32768>>,
  <<"OperatingModes", "RESERVED", 0>>,
  <<"OperatingModes", "OTHER", 2>>,
  <<"OperatingModes", "UNKNOWN", 4>>,
  <<"OperatingModes", "VOLATILE", 8>>,
  <<"OperatingModes", "BYTE_ACCESSIBLE_PERSISTENT", 16>>,
  <<"OperatingModes", "BLOCK_ACCESSIBLE_PERSISTENT", 32>>
>>
=============================================================================
