//! Other ways of going through the sequences of the library than `next` alone.
use crate::json::*;
use crate::obs::*;
use dmidecode::bitfield::BitField;
use dmidecode::*;
use std::fmt::Debug;

/// A short name for an item: its debug form, shortened by hashing when long.
fn mark<D: Debug>(d: &D) -> T {
    let s = format!("{:?}", d);
    if s.len() <= 24 && s.is_ascii() {
        T(s)
    } else {
        T(format!("{:016x}", hash(&s)))
    }
}
fn marks<D: Debug, I: Iterator<Item = D>>(it: I) -> Vec<T> {
    it.take(CAP).map(|x| mark(&x)).collect()
}

/// One sequence under a program of operations.
pub fn sequence<I>(r: &mut Rec, name: &str, it: I, ops: &[&str], fused: bool) -> Raw
where
    I: Iterator + Clone,
    I::Item: Debug,
{
    let mut o = Obj::default();
    o.put("n", T(name.into()));
    let all = r.items("next", it.clone());
    let base: Vec<T> = all.iter().map(mark).collect();
    o.put("base", base);
    let mut it = it;
    let mut out = vec![];
    for op in ops {
        let (name, k) = op.split_once(':').unwrap_or((op, "0"));
        let k: usize = k.parse().unwrap();
        let mut x = Obj::default();
        x.put("o", T(name.into()));
        x.put("k", k.min(1_000_000));
        let mut ended = false;
        let v: Option<String> = match name {
            "next" => r.run("next", || it.next()).map(|v| {
                ended = v.is_none();
                js(v.iter().map(mark).collect::<Vec<_>>())
            }),
            "nth" => r.run("nth", || it.nth(k)).map(|v| {
                ended = v.is_none();
                js(v.iter().map(mark).collect::<Vec<_>>())
            }),
            "take" => r.run("take", || marks(it.by_ref().take(k))).map(|v| {
                ended = v.len() < k;
                js(v)
            }),
            "count" => r.run("count", || it.clone().count()).map(|v| js([v])),
            "last" => r.run("last", || it.clone().last()).map(|v| js(v.iter().map(mark).collect::<Vec<_>>())),
            "fold" => r
                .run("fold", || {
                    it.clone().fold(vec![], |mut a, x| {
                        a.push(mark(&x));
                        a
                    })
                })
                .map(js),
            "each" => r
                .run("for_each", || {
                    let mut a = vec![];
                    it.clone().for_each(|x| a.push(mark(&x)));
                    a
                })
                .map(js),
            "collect" => r
                .run("collect", || it.clone().collect::<Vec<_>>().iter().map(mark).collect::<Vec<_>>())
                .map(js),
            "skip" => r.run("skip", || marks(it.clone().skip(k))).map(js),
            "step" => r.run("step_by", || marks(it.clone().step_by(k.max(1)))).map(js),
            "hint" => r.run("size_hint", || it.size_hint()).map(|(lo, hi)| {
                let cut = |n: usize| n.min(1 << 30);
                match hi {
                    Some(hi) => js([cut(lo), cut(hi)]),
                    None => js([cut(lo)]),
                }
            }),
            x => panic!("operation {x}"),
        };
        match v {
            Some(v) => {
                x.put("t", T("ok".into()));
                x.put("v", Raw(v))
            }
            None => x.put("t", T("panic".into())),
        }
        out.push(x.end());
        if ended && !fused {
            break;
        }
    }
    o.put("ops", out);
    o.end()
}

/// The views of any bit-field.
pub fn of_bits<'a, B: BitField<'a>>(r: &mut Rec, b: &B, ops: &[&str]) -> Vec<Raw>
where
    B::Size: Into<u128>,
{
    vec![
        sequence(r, "iter", b.iter(), ops, false),
        sequence(r, "significants", b.significants(), ops, false),
        sequence(r, "reserved", b.reserved(), ops, false),
    ]
}

/// The sequences a structure holds.
pub fn of_structure(r: &mut Rec, s: &Structure, ops: &[&str]) -> Vec<Raw> {
    let mut out = vec![];
    macro_rules! seq {
        ($n:expr, $it:expr) => {
            out.push(sequence(r, $n, $it, ops, false))
        };
    }
    macro_rules! bits {
        ($n:expr, $b:expr) => {{
            let b = $b;
            seq!(concat!($n, ".iter"), b.iter());
            seq!(concat!($n, ".significants"), b.significants());
            seq!(concat!($n, ".reserved"), b.reserved());
        }};
    }
    match s {
        Structure::Bios(x) => {
            bits!("characteristics", x.bios_characteristics);
            if let Some(c) = x.bios_characteristics_exttension_1 {
                bits!("extension_1", c);
            }
            if let Some(c) = x.bios_characteristics_exttension_2 {
                bits!("extension_2", c);
            }
        }
        Structure::Enclosure(x) => {
            if let Some(c) = x.contained_elements.clone() {
                seq!("contained_elements", c)
            }
        }
        Structure::SystemSlots(x) => {
            if let Some(c) = x.peer_devices.clone() {
                seq!("peer_devices", c)
            }
            bits!("characteristics_1", x.slot_characteristics_1);
            if let Some(c) = x.slot_characteristics_2 {
                bits!("characteristics_2", c);
            }
        }
        Structure::OemStrings(x) => seq!("strings", x.strings),
        Structure::SystemConfigurationOptions(x) => seq!("strings", x.strings),
        Structure::BiosLanguage(x) => {
            seq!("languages", x.installable_languages.clone());
            if let Some(c) = x.flags {
                bits!("flags", c);
            }
        }
        Structure::GroupAssociations(x) => seq!("items", x.items),
        Structure::SystemEventLog(x) => {
            if let Some(c) = x.supported_event_log_type_descriptors.clone() {
                seq!("descriptors", c)
            }
            bits!("status", x.log_status);
        }
        _ => {}
    }
    out
}
