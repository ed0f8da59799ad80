//! Value-level conversions and whole code tables.
use crate::json::*;
use crate::obs::*;
use crate::unhex;
use dmidecode::bitfield::{BitField, FlagType, Iter};
use dmidecode::*;
use std::fmt::{Debug, Display};

/// A bit-field with a layout chosen by the case.
struct Custom<'a, T> {
    value: T,
    layout: &'a [FlagType<'a>],
}
macro_rules! custom {
    ($($t:ty),*) => { $(
        impl<'a> BitField<'a> for Custom<'a, $t> {
            type Size = $t;
            fn value(&self) -> $t { self.value }
            fn iter(&self) -> Iter<'a, $t> {
                Iter { value: self.value, index: 0, layout: self.layout }
            }
        }
    )* };
}
custom!(u8, u16, u32, u64, u128);

fn codes<E: From<u8> + Debug>() -> Vec<(T, T, T)> {
    (0..=255u8).map(|c| (dbg(&E::from(c)), T(String::new()), T(String::new()))).collect()
}
fn texts<E: From<u8> + Debug + Display>(r: &mut Rec) -> Vec<(T, T, T)> {
    (0..=255u8)
        .map(|c| {
            let e = E::from(c);
            let t = r.text("Display", &e);
            (dbg(&e), t.0, t.1)
        })
        .collect()
}
fn small<E: From<u16> + Debug + Display>(r: &mut Rec, n: u16) -> Vec<(T, T, T)> {
    (0..n)
        .map(|c| {
            let e = E::from(c);
            let t = r.text("Display", &e);
            (dbg(&e), t.0, t.1)
        })
        .collect()
}

pub fn exec(w: &[&str], r: &mut Rec, o: &mut Obj) {
    let num = |i: usize| -> u64 { w[i].parse().expect("number") };
    match w[0] {
        // all codes of an enumeration
        "X" => {
            o.put("n", T(w[1].into()));
            let v = match w[1] {
                "WakeupType" => codes::<system::WakeupType>(),
                "BoardType" => texts::<baseboard::BoardType>(r),
                "EnclosureType" => texts::<enclosure::EnclosureType>(r),
                "State" => texts::<enclosure::State>(r),
                "SecurityStatus" => texts::<enclosure::SecurityStatus>(r),
                "ContainedElementType" => texts::<enclosure::ContainedElementType>(r),
                "ProcessorType" => codes::<processor::ProcessorType>(),
                "ProcessorUpgrade" => texts::<processor::ProcessorUpgrade>(r),
                "CacheErrorCorrectionType" => texts::<cache::CacheErrorCorrectionType>(r),
                "SystemCacheType" => texts::<cache::SystemCacheType>(r),
                "CacheAssociativity" => texts::<cache::CacheAssociativity>(r),
                "CacheLevel" => small::<cache::CacheLevel>(r, 8),
                "CacheLocation" => small::<cache::CacheLocation>(r, 4),
                "CacheOperationalMode" => small::<cache::CacheOperationalMode>(r, 4),
                "ConnectorType" => texts::<port_connector::ConnectorType>(r),
                "PortType" => texts::<port_connector::PortType>(r),
                "SlotType" => texts::<system_slots::SlotType>(r),
                "SlotWidth" => texts::<system_slots::SlotWidth>(r),
                "CurrentUsage" => texts::<system_slots::CurrentUsage>(r),
                "SlotLength" => texts::<system_slots::SlotLength>(r),
                "LogHeaderFormat" => texts::<system_event_log::LogHeaderFormat>(r),
                "EventLogType" => texts::<system_event_log::EventLogType>(r),
                "MemoryArrayLocation" => texts::<physical_memory_array::MemoryArrayLocation>(r),
                "MemoryArrayUse" => texts::<physical_memory_array::MemoryArrayUse>(r),
                "MemoryArrayErrorCorrectionTypes" => {
                    texts::<physical_memory_array::MemoryArrayErrorCorrectionTypes>(r)
                }
                "MD_ErrorGranularity" => codes::<memory_device::ErrorGranularity>(),
                "MD_ErrorOperation" => codes::<memory_device::ErrorOperation>(),
                "MD_ErrorType" => codes::<memory_device::ErrorType>(),
                "FormFactor" => codes::<memory_device::FormFactor>(),
                "MemoryTechnology" => codes::<memory_device::MemoryTechnology>(),
                "MemoryType" => codes::<memory_device::Type>(),
                "ErrorType" => texts::<memory_error_32::ErrorType>(r),
                "ErrorGranularity" => texts::<memory_error_32::ErrorGranularity>(r),
                "ErrorOperation" => texts::<memory_error_32::ErrorOperation>(r),
                "PointingType" => texts::<built_in_pointing_device::Type>(r),
                "PointingInterface" => texts::<built_in_pointing_device::Interface>(r),
                "InfoType" => texts::<InfoType>(r),
                x => panic!("table {x}"),
            };
            o.put("r", v);
        }
        // processor families from..to
        "F" => {
            o.put("lo", num(1) as usize);
            let v: Vec<(T, T, T)> = (num(1)..=num(2))
                .map(|c| {
                    let f = processor::ProcessorFamily::from(c as u16);
                    let t = r.text("ProcessorFamily", &f);
                    (dbg(&f), t.0, t.1)
                })
                .collect();
            o.put("r", v);
            if num(2) < 256 {
                let v: Vec<T> = (num(1)..=num(2))
                    .map(|c| dbg(&processor::ProcessorFamily::from(c as u8)))
                    .collect();
                o.put("r8", v);
            }
        }
        // variable data formats: name, text, code converted back
        "VDF" => {
            let v: Vec<_> = (0..=255u8)
                .map(|c| {
                    let f = system_event_log::VariableDataFormatType::from(c);
                    let t = r.text("VariableDataFormatType", &f);
                    (head(&f), t, u8::from(f))
                })
                .collect();
            o.put("r", v);
        }
        "ELT" => {
            let v: Vec<_> = (0..=255u8)
                .map(|c| u8::from(system_event_log::EventLogType::from(c)))
                .collect();
            o.put("r", v);
        }
        // descriptors with this log type
        "ELD" => {
            let a = num(1) as u8;
            o.put("a", a);
            let v: Vec<_> = (0..=255u8)
                .map(|c| {
                    let d = system_event_log::EventLogTypeDescriptor::from([a, c]);
                    let raw: [u8; 2] = d.into();
                    (raw, dbg(&d.log_type), head(&d.variable_data_format_type))
                })
                .collect();
            o.put("r", v);
        }
        "DFN" => {
            let v: Vec<_> = (0..=255u8)
                .map(|c| u8::from(system_slots::DeviceAndFunctionNumber::from(c)))
                .collect();
            o.put("r", v);
        }
        "A" => {
            let m = num(1) as u8;
            let a = num(2) as u32;
            o.put("m", m);
            o.put("a", a);
            let v = r.run("AccessMethod::new", || system_event_log::AccessMethod::new(m, a));
            if let Some(v) = v {
                o.put("v", access_method(&v));
                let b = r.run("address", || v.address());
                o.put("b", b);
                let t = r.text("AccessMethod", &v);
                o.put("t", t);
            }
        }
        "M" => {
            let a = num(1) as u32;
            o.put("a", a);
            let v = system_event_log::log_record_format::SystemManagementType::from(a);
            use system_event_log::log_record_format::SystemManagementType::*;
            let pay: Vec<u8> = match v {
                OutOfRangeVoltageReserved(x) | OutOfRangeTemperatureReserved(x) | OutOfRangeFan(x) => vec![x],
                OutOfRangeSystemManagementProbe(x) => x.to_le_bytes().to_vec(),
                Reserved(x) | OemAssigned(x) => x.to_le_bytes().to_vec(),
                _ => vec![],
            };
            o.put("v", (head(&v), pay));
            let t = r.text("SystemManagementType", &v);
            o.put("t", t);
        }
        // a peer device from a slice, back to bytes, as text
        "V" => {
            let b = unhex(w[1]);
            o.put("buf", &b);
            let d = r.run("Device::from", || system_slots::Device::from(&b[..]));
            if let Some(d) = d {
                o.put("v", (device(&d), d.data_bus_width));
                let back: [u8; 5] = (&d).into();
                o.put("b", back);
                let t = r.text("Device", &d);
                o.put("t", t);
            }
        }
        "PD" => {
            let b = unhex(w[1]);
            o.put("buf", &b);
            let p = system_slots::PeerDevices::from(&b[..]);
            let v = r.items("PeerDevices", p);
            o.put("v", v.iter().map(|d| (device(d), d.data_bus_width)).collect::<Vec<_>>());
        }
        "PE" => {
            let (a, b) = (unhex(w[1]), unhex(w[2]));
            o.put("a", &a);
            o.put("b", &b);
            let x = system_slots::PeerDevices::from(&a[..]);
            let y = system_slots::PeerDevices::from(&b[..]);
            o.put("eq", x == y);
            o.put("ne", x != y);
            o.put("heq", hash(&x) == hash(&y));
        }
        "L" => {
            let b = unhex(w[1]);
            o.put("buf", &b);
            let e = r.run("ContainedElement::from", || enclosure::ContainedElement::from(&b[..]));
            if let Some(e) = e {
                let t = r.text("ContainedElement", &e);
                o.put("t", t);
            }
        }
        "Q" => {
            let basic = num(1) as u8;
            let extended = if w[2] == "-" { None } else { Some(num(2) as u16) };
            o.put("a", basic);
            o.put("b", extended);
            let v = r.run("u64::from(RomSize)", || u64::from(bios::RomSize { basic, extended }));
            o.put("v", v);
        }
        "D" => {
            use portable_battery::DesignCapacity;
            let c = if w[1] == "-" {
                o.put("a", Raw("[]".into()));
                DesignCapacity::Unknown
            } else {
                o.put("a", [(num(1) as u16, num(2) as u8)]);
                DesignCapacity::Data {
                    value: num(1) as u16,
                    multiplier: num(2) as u8,
                }
            };
            let v = r.run("u64::from(DesignCapacity)", || u64::from(c));
            o.put("v", v);
        }
        // cache sizes of the words from..to
        "CS" => {
            o.put("lo", num(1) as usize);
            let v: Vec<_> = (num(1)..=num(2))
                .map(|c| cache_size(r, &cache::CacheSize::from(c as u16)))
                .collect();
            o.put("r", v);
        }
        "CS2" => {
            o.put("a", num(1) as u32);
            let v = cache_size_2(r, &cache::CacheSize2::from(num(1) as u32));
            o.put("v", v);
        }
        "CC" => {
            o.put("lo", num(1) as usize);
            let v: Vec<_> = (num(1)..=num(2))
                .map(|c| {
                    r.run("CacheConfiguration", || {
                        cache_config(&cache::CacheConfiguration::from(c as u16))
                    })
                })
                .collect();
            o.put("r", v);
        }
        "VO" => {
            let v: Vec<_> = (0..=255u8)
                .map(|c| {
                    let v = processor::Voltage::from(c);
                    let t = r.text("Voltage", &v);
                    (voltage(&v), t)
                })
                .collect();
            o.put("r", v);
        }
        "BN" => {
            let v: Vec<(T, T, usize)> = vec![
                (T("BaseBoardFlags".into()), T("HOSTING".into()), baseboard::BaseBoardFlags::HOSTING.bits() as usize),
                (T("BaseBoardFlags".into()), T("REQUIRES_DAUGHTER".into()), baseboard::BaseBoardFlags::REQUIRES_DAUGHTER.bits() as usize),
                (T("BaseBoardFlags".into()), T("IS_REMOVABLE".into()), baseboard::BaseBoardFlags::IS_REMOVABLE.bits() as usize),
                (T("BaseBoardFlags".into()), T("IS_REPLACEABLE".into()), baseboard::BaseBoardFlags::IS_REPLACEABLE.bits() as usize),
                (T("BaseBoardFlags".into()), T("IS_HOT_SWAPPABLE".into()), baseboard::BaseBoardFlags::IS_HOT_SWAPPABLE.bits() as usize),
                (T("ProcessorStatus".into()), T("CPU_SOCKET_POPULATED".into()), processor::ProcessorStatus::CPU_SOCKET_POPULATED.bits() as usize),
                (T("ProcessorStatus".into()), T("CPU_ENABLED".into()), processor::ProcessorStatus::CPU_ENABLED.bits() as usize),
                (T("ProcessorStatus".into()), T("CPU_DISABLED_BY_USER".into()), processor::ProcessorStatus::CPU_DISABLED_BY_USER.bits() as usize),
                (T("ProcessorStatus".into()), T("CPU_DISABLED_BY_BIOS".into()), processor::ProcessorStatus::CPU_DISABLED_BY_BIOS.bits() as usize),
                (T("ProcessorStatus".into()), T("CPU_IDLE".into()), processor::ProcessorStatus::CPU_IDLE.bits() as usize),
                (T("ProcessorStatus".into()), T("CPU_OTHER".into()), processor::ProcessorStatus::CPU_OTHER.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("RESERVED".into()), processor::ProcessorCharacteristics::RESERVED.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("UNKNOWN".into()), processor::ProcessorCharacteristics::UNKNOWN.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("CAPABLE_64BIT".into()), processor::ProcessorCharacteristics::CAPABLE_64BIT.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("MULTICORE".into()), processor::ProcessorCharacteristics::MULTICORE.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("HARDWARE_THREAD".into()), processor::ProcessorCharacteristics::HARDWARE_THREAD.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("EXECUTE_PROTECTION".into()), processor::ProcessorCharacteristics::EXECUTE_PROTECTION.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("ENHANCED_VIRTUALIZATION".into()), processor::ProcessorCharacteristics::ENHANCED_VIRTUALIZATION.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("POWER_PERFORMANCE_CONTROL".into()), processor::ProcessorCharacteristics::POWER_PERFORMANCE_CONTROL.bits() as usize),
                (T("ProcessorCharacteristics".into()), T("ARM64_SOC_ID".into()), processor::ProcessorCharacteristics::ARM64_SOC_ID.bits() as usize),
                (T("VoltageLegacy".into()), T("VOLTAGE_CAPABILITY_5V0".into()), processor::VoltageLegacy::VOLTAGE_CAPABILITY_5V0.bits() as usize),
                (T("VoltageLegacy".into()), T("VOLTAGE_CAPABILITY_3V3".into()), processor::VoltageLegacy::VOLTAGE_CAPABILITY_3V3.bits() as usize),
                (T("VoltageLegacy".into()), T("VOLTAGE_CAPABILITY_2V9".into()), processor::VoltageLegacy::VOLTAGE_CAPABILITY_2V9.bits() as usize),
                (T("CacheSramType".into()), T("OTHER".into()), cache::CacheSramType::OTHER.bits() as usize),
                (T("CacheSramType".into()), T("UNKNOWN".into()), cache::CacheSramType::UNKNOWN.bits() as usize),
                (T("CacheSramType".into()), T("NONBURST".into()), cache::CacheSramType::NONBURST.bits() as usize),
                (T("CacheSramType".into()), T("BURST".into()), cache::CacheSramType::BURST.bits() as usize),
                (T("CacheSramType".into()), T("PIPELINE_BURST".into()), cache::CacheSramType::PIPELINE_BURST.bits() as usize),
                (T("CacheSramType".into()), T("SYNCHRONOUS".into()), cache::CacheSramType::SYNCHRONOUS.bits() as usize),
                (T("CacheSramType".into()), T("ASYNCHRONOUS".into()), cache::CacheSramType::ASYNCHRONOUS.bits() as usize),
                (T("Detail".into()), T("RESERVED".into()), memory_device::Detail::RESERVED.bits() as usize),
                (T("Detail".into()), T("OTHER".into()), memory_device::Detail::OTHER.bits() as usize),
                (T("Detail".into()), T("UNKNOWN".into()), memory_device::Detail::UNKNOWN.bits() as usize),
                (T("Detail".into()), T("FAST_PAGED".into()), memory_device::Detail::FAST_PAGED.bits() as usize),
                (T("Detail".into()), T("STATIC_COLUMN".into()), memory_device::Detail::STATIC_COLUMN.bits() as usize),
                (T("Detail".into()), T("PSEUDO_STATIC".into()), memory_device::Detail::PSEUDO_STATIC.bits() as usize),
                (T("Detail".into()), T("RAMBUS".into()), memory_device::Detail::RAMBUS.bits() as usize),
                (T("Detail".into()), T("SYNCHRONOUS".into()), memory_device::Detail::SYNCHRONOUS.bits() as usize),
                (T("Detail".into()), T("CMOS".into()), memory_device::Detail::CMOS.bits() as usize),
                (T("Detail".into()), T("EDO".into()), memory_device::Detail::EDO.bits() as usize),
                (T("Detail".into()), T("WINDOW_DRAM".into()), memory_device::Detail::WINDOW_DRAM.bits() as usize),
                (T("Detail".into()), T("CACHE_DRAM".into()), memory_device::Detail::CACHE_DRAM.bits() as usize),
                (T("Detail".into()), T("NON_VOLATILE".into()), memory_device::Detail::NON_VOLATILE.bits() as usize),
                (T("Detail".into()), T("REGISTERED".into()), memory_device::Detail::REGISTERED.bits() as usize),
                (T("Detail".into()), T("UNREGISTERED".into()), memory_device::Detail::UNREGISTERED.bits() as usize),
                (T("Detail".into()), T("LRDIMM".into()), memory_device::Detail::LRDIMM.bits() as usize),
                (T("OperatingModes".into()), T("RESERVED".into()), memory_device::OperatingModes::RESERVED.bits() as usize),
                (T("OperatingModes".into()), T("OTHER".into()), memory_device::OperatingModes::OTHER.bits() as usize),
                (T("OperatingModes".into()), T("UNKNOWN".into()), memory_device::OperatingModes::UNKNOWN.bits() as usize),
                (T("OperatingModes".into()), T("VOLATILE".into()), memory_device::OperatingModes::VOLATILE.bits() as usize),
                (T("OperatingModes".into()), T("BYTE_ACCESSIBLE_PERSISTENT".into()), memory_device::OperatingModes::BYTE_ACCESSIBLE_PERSISTENT.bits() as usize),
                (T("OperatingModes".into()), T("BLOCK_ACCESSIBLE_PERSISTENT".into()), memory_device::OperatingModes::BLOCK_ACCESSIBLE_PERSISTENT.bits() as usize),
            ];
            o.put("r", v);
        }
        "SP" => {
            o.put("lo", num(1) as usize);
            let v: Vec<_> = (num(1)..=num(2))
                .map(|c| {
                    let p = system_slots::SlotPitch::from(c as u16);
                    r.text("SlotPitch", &p).0
                })
                .collect();
            o.put("r", v);
        }
        "RV" => {
            let (major, minor) = (num(1) as u8, num(2) as u8);
            o.put("a", [major, minor]);
            let a = r.text("BiosRevision", &bios::BiosRevision { major, minor });
            let b = r.text("FirmwareRevision", &bios::FirmwareRevision { major, minor });
            o.put("v", (a, b));
        }
        // errors by value: kind, type, handle, number, offset, text
        "ME" => {
            let (i, h, x, off) = (InfoType::from(num(2) as u8), num(3) as u16, num(4) as u8, num(5) as u32);
            let e = match num(1) {
                0 => MalformedStructureError::BadSize(off, x),
                1 => MalformedStructureError::UnterminatedStrings(off),
                2 => MalformedStructureError::InvalidStringIndex(i, h, x),
                3 => MalformedStructureError::InvalidSlice(<[u8; 2]>::try_from(&[0u8, 1, 2][..x as usize % 2]).unwrap_err()),
                _ => {
                    let q = ["", "minimum of ", "at least ", "17h+(x*y) = "][num(6) as usize];
                    MalformedStructureError::InvalidFormattedSectionLength(i, h, q, x)
                }
            };
            let v = error(r, &e);
            o.put("e", v);
        }
        "MS" => {
            let x = num(2) as u8;
            let e = match num(1) {
                0 => InvalidEntryPointError::NotFound,
                1 => InvalidEntryPointError::TooOldVersion(x),
                2 => InvalidEntryPointError::BadSize(x),
                _ => InvalidEntryPointError::BadChecksum(x),
            };
            let v = crate::refusal(r, &e);
            o.put("e", v);
        }
        // order of versions
        "Y" => {
            let a = SmbiosVersion::from((num(1) as usize, num(2) as usize));
            let b = SmbiosVersion::from((num(3) as usize, num(4) as usize));
            o.put("a", [a.major, a.minor]);
            o.put("b", [b.major, b.minor]);
            o.put("v", [a < b, a == b, a > b, a <= b, a >= b]);
        }
        // bit-fields by value
        "B" => {
            let b = unhex(w[2]);
            o.put("n", T(w[1].into()));
            o.put("val", &b);
            let v = match w[1] {
                "slot1" => bitfield(r, &system_slots::SlotCharacteristics1::from(b[0])),
                "slot2" => bitfield(r, &system_slots::SlotCharacteristics2::from(b[0])),
                "status" => bitfield(r, &system_event_log::LogStatus::from(b[0])),
                "post" => {
                    let q = u64::from_le_bytes(b[..8].try_into().unwrap());
                    bitfield(r, &system_event_log::log_record_format::PostResults::from(q))
                }
                x => panic!("bit-field {x}"),
            };
            o.put("w", v);
        }
        // a bit-field with the layout of the case: u = unknown, s = significant, others = reserved
        // a bit-field with a layout of the user's; with operations: its views under them
        "C" | "J" => {
            let mut v = unhex(w[2]);
            let n = v.len();
            let lay = w[1].trim_start_matches('-');
            o.put("lay", lay.chars().map(|c| T(c.to_string())).collect::<Vec<_>>());
            o.put("val", &v);
            v.resize(16, 0);
            let q = u128::from_le_bytes(v[..16].try_into().unwrap());
            let names: Vec<(String, String)> = lay
                .chars()
                .enumerate()
                .map(|(i, c)| match c {
                    's' => (format!("s{i}"), format!("S{i}")),
                    c => (format!("{c}"), String::new()),
                })
                .collect();
            let layout: Vec<FlagType> = lay
                .chars()
                .zip(names.iter())
                .map(|(c, nm)| match c {
                    'u' => FlagType::Unknown,
                    's' => FlagType::Significant(&nm.0, &nm.1),
                    _ => FlagType::Reserved(&nm.0),
                })
                .collect();
            macro_rules! view {
                ($v:expr) => {{
                    let c = Custom { value: $v, layout: &layout };
                    if w[0] == "C" {
                        let x = bitfield(r, &c);
                        o.put("w", x);
                    } else {
                        let x = crate::seqs::of_bits(r, &c, &w[3..]);
                        o.put("seqs", x);
                    }
                }};
            }
            match n {
                1 => view!(q as u8),
                2 => view!(q as u16),
                4 => view!(q as u32),
                8 => view!(q as u64),
                _ => view!(q),
            }
        }
        x => panic!("case {x}"),
    }
    o.put("p", r.panics.iter().map(|p| T(p.clone())).collect::<Vec<_>>());
}
