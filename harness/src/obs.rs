//! Observation of what the library returns, through its public interface only.
use crate::json::*;
use dmidecode::bitfield::{BitField, FlagType, Position};
use dmidecode::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// No sequence handed out by the library may be longer than this.
pub const CAP: usize = 70_000;

#[derive(Default)]
pub struct Rec {
    /// which groups to observe
    pub want: String,
    pub panics: Vec<String>,
}
impl Rec {
    pub fn new(want: &str) -> Rec {
        Rec {
            want: want.into(),
            panics: vec![],
        }
    }
    pub fn on(&self, g: char) -> bool {
        self.want.contains(g)
    }
    pub fn run<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                self.panics.push(what.into());
                None
            }
        }
    }
    /// All items of a sequence, in order.
    pub fn items<I: Iterator>(&mut self, what: &str, it: I) -> Vec<I::Item> {
        let mut out = vec![];
        let mut it = it;
        loop {
            match self.run(what, || it.next()) {
                None => return out,
                Some(None) => return out,
                Some(Some(v)) => out.push(v),
            }
            if out.len() > CAP {
                self.panics.push(format!("endless {what}"));
                return out;
            }
        }
    }
    /// Normal and alternate text.
    pub fn text<D: Display>(&mut self, what: &str, d: &D) -> (T, T) {
        let a = self.run(what, || format!("{}", d)).unwrap_or("<PANIC>".into());
        let b = self.run(what, || format!("{:#}", d)).unwrap_or("<PANIC>".into());
        (T(a), T(b))
    }
    /// Normal text of something that may contain text of the firmware: as string and as bytes.
    pub fn btext<D: Display>(&mut self, what: &str, d: &D) -> (T, Vec<u8>) {
        let a = self.run(what, || format!("{}", d)).unwrap_or("<PANIC>".into());
        (T(a.clone()), a.into_bytes())
    }
}
pub fn dbg<D: Debug>(d: &D) -> T {
    T(format!("{:?}", d))
}
fn odbg<D: Debug>(d: &Option<D>) -> Option<T> {
    d.as_ref().map(dbg)
}
/// Variant name without its payload.
pub fn head<D: Debug>(d: &D) -> T {
    T(format!("{:?}", d).chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())
}
pub fn hash<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

/// The parts of a cache configuration: the struct has no accessors, its debug form is all a user sees.
/// Parts are found by name and, failing that, by position.
pub fn cache_config(c: &cache::CacheConfiguration) -> Raw {
    let s = format!("{:?}", c);
    let body = s.split_once('{').map(|x| x.1).unwrap_or(&s).trim_end_matches('}').to_string();
    let parts: Vec<(String, String)> = body
        .split(',')
        .filter(|p| !p.trim().is_empty())
        .map(|p| match p.split_once(':') {
            Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
            None => (String::new(), p.trim().to_string()),
        })
        .collect();
    let names = ["level", "socketed", "location", "enabled_at_boot_time", "operational_mode"];
    let mut out = vec![];
    for (i, n) in names.iter().enumerate() {
        let v = parts
            .iter()
            .find(|p| p.0 == *n)
            .or_else(|| parts.get(i))
            .map(|p| p.1.clone())
            .unwrap_or("?".into());
        out.push(T(v));
    }
    Raw(js(out))
}
pub fn cache_size(r: &mut Rec, c: &cache::CacheSize) -> Raw {
    let b = r.run("CacheSize::bytes", || c.bytes());
    Raw(match c {
        cache::CacheSize::Granularity1K(v) => js((1u8, *v as u32, b)),
        cache::CacheSize::Granularity64K(v) => js((64u8, *v as u32, b)),
    })
}
pub fn cache_size_2(r: &mut Rec, c: &cache::CacheSize2) -> Raw {
    let b = r.run("CacheSize2::bytes", || c.bytes());
    Raw(match c {
        cache::CacheSize2::Granularity1K(v) => js((1u8, *v, b)),
        cache::CacheSize2::Granularity64K(v) => js((64u8, *v, b)),
    })
}
pub fn voltage(v: &processor::Voltage) -> Raw {
    Raw(match v {
        processor::Voltage::Legacy(l) => js((T("Legacy".into()), l.bits())),
        processor::Voltage::Current(b) => js((T("Current".into()), *b)),
        processor::Voltage::Undefined(b) => js((T("Undefined".into()), *b)),
    })
}
pub fn access_method(a: &system_event_log::AccessMethod) -> Raw {
    use system_event_log::AccessMethod::*;
    let h = head(a);
    Raw(match *a {
        IndexedIoOne8bitIndexOne8bitData { index, data } => js((h, [index, data])),
        IndexedIoTwo8bitIndexOne8bitData { index, data } => js((h, [index[0], index[1], data])),
        IndexedIoOne16bitIndexOne8bitData { index, data } => {
            let i = index.to_le_bytes();
            js((h, [i[0], i[1], data]))
        }
        MemoryMappedPhysicaAddress { physical_address } => js((h, physical_address)),
        GeneralPurposeNonVolatileData { gpnv_handle } => js((h, gpnv_handle.to_le_bytes())),
        Available { method, address } | OemSpecific { method, address } => {
            let a = address.to_le_bytes();
            js((h, [method, a[0], a[1], a[2], a[3]]))
        }
    })
}
pub fn slot_pitch(p: &system_slots::SlotPitch) -> u16 {
    let digits: String = format!("{:?}", p).chars().filter(|c| c.is_ascii_digit()).collect();
    if let Ok(n) = digits.parse::<u16>() {
        if system_slots::SlotPitch::from(n) == *p {
            return n;
        }
    }
    (0..=0xFFFF).find(|n| system_slots::SlotPitch::from(*n) == *p).unwrap_or(0)
}
pub fn device(d: &system_slots::Device) -> (u16, u8, u8) {
    (d.segment_group_number, d.bus_number, d.device_and_function_number.into())
}

/// Everything a bit-field view reports.
pub fn bitfield<'a, B: BitField<'a>>(r: &mut Rec, b: &B) -> Raw
where
    B::Size: Into<u128>,
{
    let mut o = Obj::default();
    let w = std::mem::size_of::<B::Size>();
    let v: u128 = b.value().into();
    o.put("val", v.to_le_bytes()[..w].to_vec());
    let flag = |r: &mut Rec, f: &bitfield::Flag| -> Raw {
        let (kind, s, l) = match f.type_ {
            FlagType::Unknown => ("Unknown", String::new(), String::new()),
            FlagType::Significant(s, l) => ("Significant", s.to_string(), l.to_string()),
            FlagType::Reserved(s) => ("Reserved", s.to_string(), String::new()),
        };
        let t = r.text("Flag", f);
        r.run("Flag", || format!("{:?}", f).len());
        let mut o = Obj::default();
        o.put("p", f.position.0);
        o.put("s", f.is_set);
        o.put("k", T(kind.into()));
        o.put("a", T(s));
        o.put("b", T(l));
        o.put("t", t);
        o.end()
    };
    let all = r.items("Iter", b.iter());
    let fl: Vec<Raw> = all.iter().map(|f| flag(r, f)).collect();
    o.put("all", fl);
    let sig = r.items("Significants", b.significants());
    let sf: Vec<Raw> = sig.iter().map(|f| flag(r, f)).collect();
    o.put("sig", sf);
    let res = r.items("Reserved", b.reserved());
    o.put(
        "res",
        res.iter()
            .map(|x| (*x.range.start(), *x.range.end(), T(x.description.to_string())))
            .collect::<Vec<_>>(),
    );
    // positions of the set flags, collected back into every type that is wide enough
    let set: Vec<Position> = all.iter().filter(|f| f.is_set).map(|f| f.position).collect();
    let mut back: Vec<Vec<u8>> = vec![];
    macro_rules! col {
        ($t:ty) => {
            if w <= std::mem::size_of::<$t>() {
                if let Some(v) = r.run("FromIterator<Position>", || set.iter().copied().collect::<$t>()) {
                    back.push((v as u128).to_le_bytes().to_vec())
                }
                if let Some(v) = r.run("FromIterator<&Position>", || set.iter().collect::<$t>()) {
                    back.push((v as u128).to_le_bytes().to_vec())
                }
                // in another order, some of them more than once
                let many = || set.iter().rev().chain(set.iter().step_by(2)).chain(set.iter().take(3));
                if let Some(v) = r.run("FromIterator<Position>", || many().copied().collect::<$t>()) {
                    back.push((v as u128).to_le_bytes().to_vec())
                }
                if let Some(v) = r.run("FromIterator<&Position>", || many().collect::<$t>()) {
                    back.push((v as u128).to_le_bytes().to_vec())
                }
            }
        };
    }
    col!(u8);
    col!(u16);
    col!(u32);
    col!(u64);
    col!(u128);
    col!(usize);
    back.dedup();
    o.put("back", back);
    o.end()
}
pub fn bits_only<'a, B: BitField<'a>>(b: &B) -> Vec<u8> {
    let w = std::mem::size_of::<B::Size>();
    let v: u128 = b.value().into();
    v.to_le_bytes()[..w].to_vec()
}

#[derive(Default)]
struct G {
    n: Obj,
    s: Obj,
    e: Obj,
    b: Obj,
    g: Obj,
    l: Obj,
    d: Obj,
    t: Obj,
}

pub fn structure(r: &mut Rec, s: &Structure) -> (String, Raw) {
    let mut g = G::default();
    let kind = match s {
        Structure::Bios(x) => {
            g.n.put("handle", x.handle);
            g.s.put("vendor", x.vendor);
            g.s.put("bios_version", x.bios_version);
            g.n.put("bios_starting_address_segment", x.bios_starting_address_segment);
            g.s.put("bios_release_date", x.bios_release_date);
            g.n.put("rom_size_basic", x.rom_size.basic);
            g.n.put("rom_size_extended", x.rom_size.extended);
            g.n.put("bios_revision", x.bios_revision.map(|v| [v.major, v.minor]));
            g.n.put("firmware_revision", x.firmware_revision.map(|v| [v.major, v.minor]));
            g.b.put("bios_characteristics", bits_only(&x.bios_characteristics));
            g.b.put(
                "bios_characteristics_exttension_1",
                x.bios_characteristics_exttension_1.as_ref().map(bits_only),
            );
            g.b.put(
                "bios_characteristics_exttension_2",
                x.bios_characteristics_exttension_2.as_ref().map(bits_only),
            );
            if r.on('d') {
                let v = r.run("u64::from(RomSize)", || u64::from(x.rom_size));
                g.d.put("rom_size", v);
            }
            if r.on('t') {
                let v = x.bios_revision.map(|v| r.text("BiosRevision", &v));
                g.t.put("bios_revision", v);
                let v = x.firmware_revision.map(|v| r.text("FirmwareRevision", &v));
                g.t.put("firmware_revision", v);
            }
            "Bios"
        }
        Structure::System(x) => {
            g.n.put("handle", x.handle);
            g.s.put("manufacturer", x.manufacturer);
            g.s.put("product", x.product);
            g.s.put("version", x.version);
            g.s.put("serial", x.serial);
            g.n.put("uuid", x.uuid.map(|u| u.as_bytes().to_vec()));
            g.e.put("wakeup", odbg(&x.wakeup));
            g.s.put("sku", x.sku);
            g.s.put("family", x.family);
            "System"
        }
        Structure::BaseBoard(x) => {
            g.n.put("handle", x.handle);
            g.s.put("manufacturer", x.manufacturer);
            g.s.put("product", x.product);
            g.s.put("version", x.version);
            g.s.put("serial", x.serial);
            g.s.put("asset", x.asset);
            g.g.put("feature_flags", x.feature_flags.as_ref().map(|f| f.bits()));
            g.s.put("location_in_chassis", x.location_in_chassis);
            g.n.put("chassis_handle", x.chassis_handle);
            g.e.put("board_type", odbg(&x.board_type));
            if r.on('t') {
                let v = x.board_type.map(|v| r.text("BoardType", &v));
                g.t.put("board_type", v);
            }
            "BaseBoard"
        }
        Structure::Enclosure(x) => {
            g.n.put("handle", x.handle);
            g.s.put("manufacturer", x.manufacturer);
            g.n.put("chassis_lock", x.chassis_lock);
            g.e.put("enclosure_type", dbg(&x.enclosure_type));
            g.s.put("version", x.version);
            g.s.put("serial_number", x.serial_number);
            g.s.put("asset_tag_number", x.asset_tag_number);
            g.e.put("boot_up_state", odbg(&x.boot_up_state));
            g.e.put("power_supply_state", odbg(&x.power_supply_state));
            g.e.put("thermal_state", odbg(&x.thermal_state));
            g.e.put("security_status", odbg(&x.security_status));
            g.n.put("oem_defined", x.oem_defined);
            g.n.put("height", x.height);
            g.n.put("power_cords_number", x.power_cords_number);
            g.s.put("sku_number", x.sku_number);
            if r.on('l') {
                let v = x.contained_elements.as_ref().map(|c| {
                    let items = r.items("ContainedElements", c.clone());
                    let items: Vec<T> = items.iter().map(|i| r.text("ContainedElement", i).0).collect();
                    (c.count(), items)
                });
                g.l.put("contained_elements", v);
            }
            if r.on('t') {
                let v = r.text("EnclosureType", &x.enclosure_type);
                g.t.put("enclosure_type", v);
                let v = x.boot_up_state.map(|v| r.text("State", &v));
                g.t.put("boot_up_state", v);
                let v = x.power_supply_state.map(|v| r.text("State", &v));
                g.t.put("power_supply_state", v);
                let v = x.thermal_state.map(|v| r.text("State", &v));
                g.t.put("thermal_state", v);
                let v = x.security_status.map(|v| r.text("SecurityStatus", &v));
                g.t.put("security_status", v);
            }
            "Enclosure"
        }
        Structure::Processor(x) => {
            g.n.put("handle", x.handle);
            g.s.put("socket_designation", x.socket_designation);
            g.e.put("processor_type", dbg(&x.processor_type));
            g.e.put("processor_family", dbg(&x.processor_family));
            g.s.put("processor_manufacturer", x.processor_manufacturer);
            g.n.put("processor_id", x.processor_id);
            g.s.put("processor_version", x.processor_version);
            g.n.put("external_clock", x.external_clock);
            g.n.put("max_speed", x.max_speed);
            g.n.put("current_speed", x.current_speed);
            g.g.put("status", x.status.bits());
            g.e.put("processor_upgrade", dbg(&x.processor_upgrade));
            g.n.put("l1_cache_handle", x.l1_cache_handle);
            g.n.put("l2_cache_handle", x.l2_cache_handle);
            g.n.put("l3_cache_handle", x.l3_cache_handle);
            g.s.put("serial_number", x.serial_number);
            g.s.put("asset_tag", x.asset_tag);
            g.s.put("part_number", x.part_number);
            g.n.put("core_count", x.core_count);
            g.n.put("core_enabled", x.core_enabled);
            g.n.put("thread_count", x.thread_count);
            g.g.put(
                "processor_characteristics",
                x.processor_characteristics.as_ref().map(|f| f.bits()),
            );
            g.d.put("voltage", voltage(&x.voltage));
            if r.on('t') {
                let v = r.text("ProcessorFamily", &x.processor_family);
                g.t.put("processor_family", v);
                let v = r.text("Voltage", &x.voltage);
                g.t.put("voltage", v);
                let v = r.text("ProcessorUpgrade", &x.processor_upgrade);
                g.t.put("processor_upgrade", v);
            }
            "Processor"
        }
        Structure::Cache(x) => {
            g.n.put("handle", x.handle);
            g.s.put("socket_designation", x.socket_designation);
            g.d.put("cache_configuration", cache_config(&x.cache_configuration));
            if r.on('d') {
                let v = cache_size(r, &x.maximum_cache_size);
                g.d.put("maximum_cache_size", v);
                let v = cache_size(r, &x.installed_size);
                g.d.put("installed_size", v);
                let v = x.maximum_cache_size_2.map(|v| cache_size_2(r, &v));
                g.d.put("maximum_cache_size_2", v);
                let v = x.installed_size_2.map(|v| cache_size_2(r, &v));
                g.d.put("installed_size_2", v);
            }
            g.g.put("supported_sram_type", x.supported_sram_type.bits());
            g.g.put("current_sram_type", x.current_sram_type.bits());
            g.n.put("cache_speed", x.cache_speed);
            g.e.put("error_correction_type", odbg(&x.error_correction_type));
            g.e.put("system_cache_type", odbg(&x.system_cache_type));
            g.e.put("associativity", odbg(&x.associativity));
            if r.on('t') {
                let v = x.error_correction_type.map(|v| r.text("CacheErrorCorrectionType", &v));
                g.t.put("error_correction_type", v);
                let v = x.system_cache_type.map(|v| r.text("SystemCacheType", &v));
                g.t.put("system_cache_type", v);
                let v = x.associativity.map(|v| r.text("CacheAssociativity", &v));
                g.t.put("associativity", v);
            }
            "Cache"
        }
        Structure::PortConnector(x) => {
            g.n.put("handle", x.handle);
            g.s.put("internal_reference_designator", x.internal_reference_designator);
            g.e.put("internal_connector_type", dbg(&x.internal_connector_type));
            g.s.put("external_reference_designator", x.external_reference_designator);
            g.e.put("external_connector_type", dbg(&x.external_connector_type));
            g.e.put("port_type", dbg(&x.port_type));
            if r.on('t') {
                let v = r.text("ConnectorType", &x.internal_connector_type);
                g.t.put("internal_connector_type", v);
                let v = r.text("ConnectorType", &x.external_connector_type);
                g.t.put("external_connector_type", v);
                let v = r.text("PortType", &x.port_type);
                g.t.put("port_type", v);
            }
            "PortConnector"
        }
        Structure::SystemSlots(x) => {
            g.n.put("handle", x.handle);
            g.s.put("slot_designation", x.slot_designation);
            g.e.put("slot_type", dbg(&x.slot_type));
            g.e.put("slot_data_bus_width", dbg(&x.slot_data_bus_width));
            g.e.put("current_usage", dbg(&x.current_usage));
            g.e.put("slot_length", dbg(&x.slot_length));
            g.n.put("slot_id", x.slot_id);
            g.b.put("slot_characteristics_1", bits_only(&x.slot_characteristics_1));
            g.b.put("slot_characteristics_2", x.slot_characteristics_2.as_ref().map(bits_only));
            g.n.put("segment_group_number", x.segment_group_number);
            g.n.put("bus_number", x.bus_number);
            g.n.put("device_and_function_number", x.device_and_function_number.map(u8::from));
            g.n.put("data_bus_width", x.data_bus_width);
            g.n.put("slot_information", x.slot_information);
            g.e.put("slot_physical_width", odbg(&x.slot_physical_width));
            g.n.put("slot_pitch", x.slot_pitch.as_ref().map(slot_pitch));
            if r.on('l') {
                let v = x.peer_devices.as_ref().map(|p| {
                    let items = r.items("PeerDevices", p.clone());
                    items.iter().map(|d| (device(d), d.data_bus_width)).collect::<Vec<_>>()
                });
                g.l.put("peer_devices", v);
            }
            if r.on('t') {
                let v = r.text("SlotType", &x.slot_type);
                g.t.put("slot_type", v);
                let v = r.text("SlotWidth", &x.slot_data_bus_width);
                g.t.put("slot_data_bus_width", v);
                let v = r.text("CurrentUsage", &x.current_usage);
                g.t.put("current_usage", v);
                let v = r.text("SlotLength", &x.slot_length);
                g.t.put("slot_length", v);
                let v = x.slot_physical_width.map(|v| r.text("SlotWidth", &v));
                g.t.put("slot_physical_width", v);
                let v = x.slot_pitch.map(|v| r.text("SlotPitch", &v));
                g.t.put("slot_pitch", v);
                let v = x.peer_devices.as_ref().map(|p| {
                    let items = r.items("PeerDevices", p.clone());
                    items.iter().map(|d| r.text("Device", d).0).collect::<Vec<_>>()
                });
                g.t.put("peer_devices", v);
            }
            "SystemSlots"
        }
        Structure::OemStrings(x) => {
            g.n.put("handle", x.handle);
            if r.on('l') {
                let v = r.items("StructureStrings", x.strings);
                g.l.put("strings", v);
            }
            "OemStrings"
        }
        Structure::SystemConfigurationOptions(x) => {
            g.n.put("handle", x.handle);
            if r.on('l') {
                let v = r.items("StructureStrings", x.strings);
                g.l.put("strings", v);
            }
            "SystemConfigurationOptions"
        }
        Structure::BiosLanguage(x) => {
            g.n.put("handle", x.handle);
            g.b.put("flags", x.flags.as_ref().map(bits_only));
            g.n.put("current_language", x.current_language);
            if r.on('l') {
                let v = r.items("InstallableLanguages", x.installable_languages.clone());
                g.l.put("strings", v);
            }
            "BiosLanguage"
        }
        Structure::GroupAssociations(x) => {
            g.n.put("handle", x.handle);
            g.s.put("group_name", x.group_name);
            if r.on('l') {
                let v = r.items("GroupItems", x.items);
                g.l.put("items", v.iter().map(|i| (i.type_, i.handle)).collect::<Vec<_>>());
            }
            "GroupAssociations"
        }
        Structure::SystemEventLog(x) => {
            g.n.put("handle", x.handle);
            g.n.put("log_area_length", x.log_area_length);
            g.n.put("log_header_start_offset", x.log_header_start_offset);
            g.n.put("log_data_start_offset", x.log_data_start_offset);
            g.n.put("access_method", access_method(&x.access_method));
            g.b.put("log_status", bits_only(&x.log_status));
            g.n.put("log_change_token", x.log_change_token);
            g.e.put("log_header_format", odbg(&x.log_header_format));
            if r.on('l') {
                let v = x.supported_event_log_type_descriptors.as_ref().map(|p| {
                    let items = r.items("SupportedEventLogTypeDescriptors", p.clone());
                    items
                        .iter()
                        .map(|d| {
                            let raw: [u8; 2] = (*d).into();
                            (raw, dbg(&d.log_type), head(&d.variable_data_format_type))
                        })
                        .collect::<Vec<_>>()
                });
                g.l.put("descriptors", v);
            }
            if r.on('t') {
                let v = r.text("AccessMethod", &x.access_method);
                g.t.put("access_method", v);
                let v = x.log_header_format.map(|v| r.text("LogHeaderFormat", &v));
                g.t.put("log_header_format", v);
                let v = x.supported_event_log_type_descriptors.as_ref().map(|p| {
                    let items = r.items("SupportedEventLogTypeDescriptors", p.clone());
                    items
                        .iter()
                        .map(|d| {
                            (
                                r.text("EventLogType", &d.log_type),
                                r.text("VariableDataFormatType", &d.variable_data_format_type),
                            )
                        })
                        .collect::<Vec<_>>()
                });
                g.t.put("descriptors", v);
            }
            "SystemEventLog"
        }
        Structure::PhysicalMemoryArray(x) => {
            g.n.put("handle", x.handle);
            g.e.put("location", dbg(&x.location));
            g.e.put("use", dbg(&x.r#use));
            g.e.put("memory_error_correction", dbg(&x.memory_error_correction));
            g.n.put("maximum_capacity", x.maximum_capacity);
            g.n.put("memory_error_information_handle", x.memory_error_information_handle);
            g.n.put("number_of_memory_devices", x.number_of_memory_devices);
            g.n.put("extended_maximum_capacity", x.extended_maximum_capacity);
            if r.on('t') {
                let v = r.text("MemoryArrayLocation", &x.location);
                g.t.put("location", v);
                let v = r.text("MemoryArrayUse", &x.r#use);
                g.t.put("use", v);
                let v = r.text("MemoryArrayErrorCorrectionTypes", &x.memory_error_correction);
                g.t.put("memory_error_correction", v);
            }
            "PhysicalMemoryArray"
        }
        Structure::MemoryDevice(x) => {
            g.n.put("handle", x.handle);
            g.n.put("physical_memory_handle", x.physical_memory_handle);
            g.n.put("memory_error_handle", x.memory_error_handle);
            g.n.put("total_width", x.total_width);
            g.n.put("data_width", x.data_width);
            g.n.put("size", x.size);
            g.e.put("form_factor", dbg(&x.form_factor));
            g.n.put("device_set", x.device_set);
            g.s.put("device_locator", x.device_locator);
            g.s.put("bank_locator", x.bank_locator);
            g.e.put("memory_type", dbg(&x.memory_type));
            g.g.put("type_detail", x.type_detail.bits());
            g.n.put("speed", x.speed);
            g.s.put("manufacturer", x.manufacturer);
            g.s.put("serial", x.serial);
            g.s.put("asset_tag", x.asset_tag);
            g.s.put("part_number", x.part_number);
            g.n.put("attributes", x.attributes);
            g.n.put("extended_size", x.extended_size);
            g.n.put("configured_memory_speed", x.configured_memory_speed);
            g.n.put("minimum_voltage", x.minimum_voltage);
            g.n.put("maximum_voltage", x.maximum_voltage);
            g.n.put("configured_voltage", x.configured_voltage);
            g.e.put("memory_technology", odbg(&x.memory_technology));
            g.g.put(
                "operating_mode_capability",
                x.operating_mode_capability.as_ref().map(|f| f.bits()),
            );
            g.s.put("firmware_version", x.firmware_version);
            g.n.put("module_manufacturer", x.module_manufacturer);
            g.n.put("module_product_id", x.module_product_id);
            g.n.put(
                "memory_subsystem_controller_manufacturer_id",
                x.memory_subsystem_controller_manufacturer_id,
            );
            g.n.put(
                "memory_subsystem_controller_product_id",
                x.memory_subsystem_controller_product_id,
            );
            g.n.put("non_volatile_size", x.non_volatile_size);
            g.n.put("volatile_size", x.volatile_size);
            g.n.put("cache_size", x.cache_size);
            g.n.put("logical_size", x.logical_size);
            g.n.put("extended_speed", x.extended_speed);
            g.n.put("extended_configured_memory_speed", x.extended_configured_memory_speed);
            "MemoryDevice"
        }
        Structure::MemoryError32(x) => {
            g.n.put("handle", x.handle);
            g.e.put("error_type", dbg(&x.error_type));
            g.e.put("error_granularity", dbg(&x.error_granularity));
            g.e.put("error_operation", dbg(&x.error_operation));
            g.n.put("vendor_syndrome", x.vendor_syndrome);
            g.n.put("memory_array_error_address", x.memory_array_error_address);
            g.n.put("device_error_address", x.device_error_address);
            g.n.put("error_resolution", x.error_resolution);
            if r.on('t') {
                let v = r.text("ErrorType", &x.error_type);
                g.t.put("error_type", v);
                let v = r.text("ErrorGranularity", &x.error_granularity);
                g.t.put("error_granularity", v);
                let v = r.text("ErrorOperation", &x.error_operation);
                g.t.put("error_operation", v);
            }
            "MemoryError32"
        }
        Structure::MemoryArrayMappedAddress(x) => {
            g.n.put("handle", x.handle);
            g.n.put("starting_address", x.starting_address);
            g.n.put("ending_address", x.ending_address);
            g.n.put("memory_array_handle", x.memory_array_handle);
            g.n.put("partition_width", x.partition_width);
            g.n.put("extended_starting_address", x.extended_starting_address);
            g.n.put("extended_ending_address", x.extended_ending_address);
            "MemoryArrayMappedAddress"
        }
        Structure::MemoryDeviceMappedAddress(x) => {
            g.n.put("handle", x.handle);
            g.n.put("starting_address", x.starting_address);
            g.n.put("ending_address", x.ending_address);
            g.n.put("memory_device_handle", x.memory_device_handle);
            g.n.put("memory_array_mapped_address_handle", x.memory_array_mapped_address_handle);
            g.n.put("partition_row_position", x.partition_row_position);
            g.n.put("interleave_position", x.interleave_position);
            g.n.put("interleaved_data_depth", x.interleaved_data_depth);
            g.n.put("extended_starting_address", x.extended_starting_address);
            g.n.put("extended_ending_address", x.extended_ending_address);
            "MemoryDeviceMappedAddress"
        }
        Structure::BuiltInPointingDevice(x) => {
            g.n.put("handle", x.handle);
            g.e.put("type", dbg(&x.type_));
            g.e.put("interface", dbg(&x.interface));
            g.n.put("number_of_buttons", x.number_of_buttons);
            if r.on('t') {
                let v = r.text("pointing::Type", &x.type_);
                g.t.put("type", v);
                let v = r.text("Interface", &x.interface);
                g.t.put("interface", v);
            }
            "BuiltInPointingDevice"
        }
        Structure::PortableBattery(x) => {
            use portable_battery::*;
            g.n.put("handle", x.handle);
            g.s.put("location", x.location);
            g.s.put("manufacturer", x.manufacturer);
            g.s.put("device_name", x.device_name);
            g.n.put("design_voltage", x.design_voltage);
            g.s.put("sbds_version_number", x.sbds_version_number);
            g.n.put("maximum_error_in_battery_data", x.maximum_error_in_battery_data);
            g.n.put("oem_specific", x.oem_specific);
            g.d.put(
                "manufacture_date",
                Raw(match x.manufacture_date {
                    ManufactureDate::None => js((T("None".into()), [0u8; 0])),
                    ManufactureDate::Basic(s) => js((T("Basic".into()), s)),
                    ManufactureDate::SmartBatteryDataSpecification { year, month, date } => {
                        js((T("Sbds".into()), (year, month, date)))
                    }
                }),
            );
            g.d.put(
                "serial_number",
                Raw(match x.serial_number {
                    SerialNumber::None => js((T("None".into()), [0u8; 0])),
                    SerialNumber::Basic(s) => js((T("Basic".into()), s)),
                    SerialNumber::SmartBatteryDataSpecification(w) => js((T("Sbds".into()), [w])),
                }),
            );
            g.e.put(
                "device_chemistry",
                Raw(match x.device_chemistry {
                    DeviceChemistry::SmartBatteryDataSpecification(s) => js((T("Sbds".into()), s)),
                    c => js((dbg(&c), [0u8; 0])),
                }),
            );
            if r.on('d') {
                let v = r.run("u64::from(DesignCapacity)", || u64::from(x.design_capacity));
                g.d.put(
                    "design_capacity",
                    Raw(match x.design_capacity {
                        DesignCapacity::Unknown => js((T("Unknown".into()), [0u8; 0], v)),
                        DesignCapacity::Data { value, multiplier } => {
                            js((T("Data".into()), (value, multiplier), v))
                        }
                    }),
                );
            }
            if r.on('t') {
                let v = r.btext("ManufactureDate", &x.manufacture_date);
                g.t.put("manufacture_date", v);
                let v = r.btext("SerialNumber", &x.serial_number);
                g.t.put("serial_number", v);
                let v = r.btext("DeviceChemistry", &x.device_chemistry);
                g.t.put("device_chemistry", v);
            }
            "PortableBattery"
        }
        Structure::Other(x) => {
            g.n.put("version", [x.version.major, x.version.minor]);
            g.n.put("length", x.length);
            g.n.put("handle", x.handle);
            g.n.put("data", x.data);
            g.e.put("info", dbg(&x.info));
            if r.on('t') {
                let v = r.text("InfoType", &x.info);
                g.t.put("info", v);
            }
            "Other"
        }
    };
    let mut o = Obj::default();
    for (c, v) in [
        ('n', g.n),
        ('s', g.s),
        ('e', g.e),
        ('b', g.b),
        ('g', g.g),
        ('l', g.l),
        ('d', g.d),
        ('t', g.t),
    ] {
        if r.on(c) {
            o.put(&c.to_string(), v.end());
        }
    }
    (kind.into(), o.end())
}

/// Bit-field views of a decoded structure, by field name.
pub fn views(r: &mut Rec, s: &Structure) -> Raw {
    let mut o = Obj::default();
    match s {
        Structure::Bios(x) => {
            let v = bitfield(r, &x.bios_characteristics);
            o.put("bios_characteristics", v);
            if let Some(c) = x.bios_characteristics_exttension_1 {
                let v = bitfield(r, &c);
                o.put("bios_characteristics_exttension_1", v);
            }
            if let Some(c) = x.bios_characteristics_exttension_2 {
                let v = bitfield(r, &c);
                o.put("bios_characteristics_exttension_2", v);
            }
        }
        Structure::SystemSlots(x) => {
            let v = bitfield(r, &x.slot_characteristics_1);
            o.put("slot_characteristics_1", v);
            if let Some(c) = x.slot_characteristics_2 {
                let v = bitfield(r, &c);
                o.put("slot_characteristics_2", v);
            }
        }
        Structure::BiosLanguage(x) => {
            if let Some(c) = x.flags {
                let v = bitfield(r, &c);
                o.put("flags", v);
            }
        }
        Structure::SystemEventLog(x) => {
            let v = bitfield(r, &x.log_status);
            o.put("log_status", v);
        }
        _ => {}
    }
    o.end()
}

pub fn error(r: &mut Rec, e: &MalformedStructureError) -> Raw {
    let mut o = Obj::default();
    o.put("t", T("err".into()));
    match e {
        MalformedStructureError::BadSize(off, len) => {
            o.put("k", T("BadSize".into()));
            o.put("o", *off);
            o.put("x", *len);
        }
        MalformedStructureError::UnterminatedStrings(off) => {
            o.put("k", T("UnterminatedStrings".into()));
            o.put("o", *off);
        }
        MalformedStructureError::InvalidStringIndex(i, h, x) => {
            o.put("k", T("InvalidStringIndex".into()));
            o.put("i", dbg(i));
            o.put("h", *h);
            o.put("x", *x);
        }
        MalformedStructureError::InvalidSlice(_) => {
            o.put("k", T("InvalidSlice".into()));
        }
        MalformedStructureError::InvalidFormattedSectionLength(i, h, spec, x) => {
            o.put("k", T("InvalidFormattedSectionLength".into()));
            o.put("i", dbg(i));
            o.put("h", *h);
            o.put("q", T(spec.to_string()));
            o.put("x", *x);
        }
    }
    let t = r.text("MalformedStructureError", e);
    o.put("m", t.0);
    #[cfg(feature = "std")]
    if r.on('c') {
        use std::error::Error;
        let cause = e.source().map(|c| T(format!("{}", c)));
        o.put("c", cause);
    }
    o.end()
}
