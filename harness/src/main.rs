//! Executes case lines (stdin) against the library and writes one observation (JSON object) per line.
//! The harness decides nothing: what is right is decided by the TLA+ specification that reads its output.
mod json;
mod mem;
mod obs;
mod seqs;
mod tables;

use dmidecode::*;
use json::*;
use mem::{Arena, Place};
use obs::*;
use std::io::{BufRead, Write};

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

fn places(bytes: &[u8]) -> [Place; 7] {
    [
        Place::Left,
        Place::Fill(0x00, 1),
        Place::Fill(0xFF, 2),
        Place::Fill(0x41, 3),
        Place::Fill(0x04, 5),
        // every distance from a page
        Place::Fill(0x5F, 8 + salt(bytes) as usize % 4096),
        Place::Echo,
    ]
}

struct Opt {
    want: String,
    places: bool,
}

/// An entry point for a table; what it says besides version and length differs from case to case (salt).
fn entry(major: u8, minor: u8, decl: u32, fmt: u8, salt: usize) -> Option<EntryPoint> {
    let pick = |n: usize| [0u16, 1, 2, 4, 0x21, 0xFF, 0x7FFF, 0xFFFF][(salt >> (3 * n)) % 8];
    if fmt == 2 {
        Some(EntryPoint::V2(EntryPointV2 {
            signature: u32::from_le_bytes(*b"_SM_"),
            checksum: 0,
            len: 31,
            major,
            minor,
            struct_max: pick(1),
            revision: pick(2) as u8,
            formatted: [pick(2) as u8; 5],
            dmi_signature: *b"_DMI_",
            dmi_checksum: 0,
            smbios_len: decl as u16,
            smbios_address: pick(3) as u32 * 0x10001,
            smbios_count: pick(0),
            bcd_revision: pick(4) as u8,
        }))
    } else {
        let mut b = vec![0u8; 24];
        b[..5].copy_from_slice(b"_SM3_");
        b[6] = 24;
        b[7] = major;
        b[8] = minor;
        b[9] = pick(0) as u8;
        b[10] = pick(1) as u8;
        b[11] = pick(2) as u8;
        b[16..18].copy_from_slice(&pick(3).to_le_bytes());
        b[12..16].copy_from_slice(&decl.to_le_bytes());
        let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
        b[5] = 0u8.wrapping_sub(sum);
        EntryPoint::search(&b).ok()
    }
}

fn salt(bytes: &[u8]) -> usize {
    bytes.iter().fold(bytes.len(), |a, b| (a.wrapping_mul(31)).wrapping_add(*b as usize)) & 0xFFFF_FFFF
}

pub fn refusal(r: &mut Rec, e: &InvalidEntryPointError) -> Raw {
    let mut o = Obj::default();
    o.put("t", T("err".into()));
    let (k, x) = match e {
        InvalidEntryPointError::NotFound => ("NotFound", 0),
        InvalidEntryPointError::TooOldVersion(x) => ("TooOldVersion", *x),
        InvalidEntryPointError::BadSize(x) => ("BadSize", *x),
        InvalidEntryPointError::BadChecksum(x) => ("BadChecksum", *x),
    };
    o.put("k", T(k.into()));
    o.put("x", x);
    let t = r.text("InvalidEntryPointError", e);
    o.put("m", t.0);
    #[cfg(feature = "std")]
    if r.on('c') {
        use std::error::Error;
        o.put("c", e.source().map(|c| T(format!("{}", c))));
    }
    o.end()
}

fn search(r: &mut Rec, buf: &[u8]) -> Raw {
    let res = r.run("search", || EntryPoint::search(buf));
    let mut o = Obj::default();
    match res {
        None => o.put("t", T("panic".into())),
        Some(Err(e)) => return refusal(r, &e),
        Some(Ok(ep)) => {
            o.put("t", T("ok".into()));
            let mut a = Obj::default();
            a.put("len", ep.len());
            a.put("major", ep.major());
            a.put("minor", ep.minor());
            a.put("revision", ep.revision());
            a.put("smbios_address", ep.smbios_address());
            a.put("smbios_len", ep.smbios_len());
            let v = ep.to_version();
            a.put("version", [v.major, v.minor]);
            o.put("a", a.end());
            let mut f = Obj::default();
            match ep {
                EntryPoint::V2(e) => {
                    o.put("k", T("V2".into()));
                    f.put("signature", { e.signature });
                    f.put("checksum", e.checksum);
                    f.put("len", e.len);
                    f.put("major", e.major);
                    f.put("minor", e.minor);
                    f.put("struct_max", { e.struct_max });
                    f.put("revision", e.revision);
                    f.put("formatted", { e.formatted });
                    f.put("dmi_signature", { e.dmi_signature });
                    f.put("dmi_checksum", e.dmi_checksum);
                    f.put("smbios_len", { e.smbios_len });
                    f.put("smbios_address", { e.smbios_address });
                    f.put("smbios_count", { e.smbios_count });
                    f.put("bcd_revision", e.bcd_revision);
                }
                EntryPoint::V3(e) => {
                    o.put("k", T("V3".into()));
                    f.put("signature", { e.signature });
                    f.put("checksum", e.checksum);
                    f.put("len", e.len);
                    f.put("major", e.major);
                    f.put("minor", e.minor);
                    f.put("docrev", e.docrev);
                    f.put("revision", e.revision);
                    f.put("smbios_len_max", { e.smbios_len_max });
                    f.put("smbios_address", { e.smbios_address });
                }
            }
            o.put("f", f.end());
        }
    }
    o.end()
}

/// One result of an iteration step.
fn step(r: &mut Rec, item: Option<Option<Result<Structure, MalformedStructureError>>>) -> Raw {
    let mut o = Obj::default();
    match item {
        None => o.put("t", T("panic".into())),
        Some(None) => o.put("t", T("none".into())),
        Some(Some(Err(e))) => return error(r, &e),
        Some(Some(Ok(s))) => {
            r.panics.clear();
            let (kind, groups) = structure(r, &s);
            o.put("t", T("ok".into()));
            o.put("k", T(kind));
            // q: everything is exercised, nothing but the panics is reported
            if !r.on('q') {
                o.put("g", groups);
            }
            if r.on('w') {
                let w = views(r, &s);
                if !r.on('q') {
                    o.put("w", w);
                }
            }
            if r.on('p') {
                // the debug form of everything, for totality only
                r.run("Debug", || format!("{:?} {:#?}", s, s).len());
                r.run("Hash", || hash(&s));
                r.run("Clone", || s.clone() == s);
                o.put("p", r.panics.iter().map(|p| T(p.clone())).collect::<Vec<_>>());
            }
        }
    }
    o.end()
}

fn drive<'b>(r: &mut Rec, it: &mut Structures<'b>, cap: usize, extra: usize) -> Vec<Raw> {
    let mut ev = vec![];
    let mut after = 0;
    loop {
        let item = r.run("next", || it.next());
        let stop = item.is_none();
        let end = matches!(item, Some(None));
        ev.push(step(r, item));
        if stop {
            return ev;
        }
        if end {
            after += 1;
            if after > extra {
                return ev;
            }
        }
        if ev.len() > cap + extra {
            ev.push(Raw("{\"t\":\"endless\"}".into()));
            return ev;
        }
    }
}

fn table(r: &mut Rec, ep: &EntryPoint, buf: &[u8], extra: usize) -> String {
    let mut it = ep.structures(buf);
    js(drive(r, &mut it, buf.len() / 4 + 8, extra))
}

/// Other bytes that were at the same place just before.
fn predecessors(bytes: &[u8], search: bool) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if bytes.is_empty() {
        return out;
    }
    out.push(vec![0; bytes.len()]);
    if search {
        let at = (0..bytes.len()).step_by(16).find(|&i| bytes[i..].starts_with(b"_SM_") || bytes[i..].starts_with(b"_SM3_"));
        if let Some(at) = at {
            let v3 = bytes[at..].starts_with(b"_SM3_");
            let (len_at, min) = if v3 { (6, 24) } else { (5, 31) };
            // accepted, with the declared length if that is possible
            let mut good = bytes.to_vec();
            if good.len() >= at + min {
                let len = good[at + len_at] as usize;
                if len < min || at + len > good.len() {
                    good[at + len_at] = min as u8;
                }
                let len = good[at + len_at] as usize;
                good[at + len_at + 1] = good[at + len_at + 1].max(2);
                let sum = good[at..at + len].iter().fold(0u8, |a, x| a.wrapping_add(*x));
                good[at + len_at - 1] = good[at + len_at - 1].wrapping_sub(sum);
                // other contents with the same sum
                let mut other = good.clone();
                other[at + min - 1] = other[at + min - 1].wrapping_add(1);
                other[at + min - 3] = other[at + min - 3].wrapping_sub(1);
                let mut bad = good.clone();
                bad[at + min - 1] ^= 0x10;
                out.extend([good, other, bad]);
            }
        }
    } else {
        let len = bytes.get(1).map(|l| *l as usize).unwrap_or(0).min(bytes.len());
        // strings that begin and end elsewhere
        let mut x = bytes.to_vec();
        for i in len.max(1)..bytes.len().saturating_sub(1) {
            if x[i] == 0 && x[i - 1] != 0 && x[i + 1] != 0 && (i < 2 || x[i - 2] != 0) {
                x.swap(i - 1, i);
            }
        }
        out.push(x);
        for (lo, hi) in [(0, 1), (2, 4), (4, len), (len, bytes.len())] {
            let mut x = bytes.to_vec();
            for b in x.iter_mut().take(hi).skip(lo) {
                *b = if *b == 0 { 0 } else { (*b ^ 1).max(1) };
            }
            out.push(x);
        }
        // all strings and lengths as they are, everything else zero
        let mut x = bytes.to_vec();
        x[(4.min(bytes.len()))..len.max(4.min(bytes.len()))].fill(0);
        out.push(x);
    }
    out.retain(|x| x != bytes);
    out
}

/// The same bytes after, beside and in the midst of work on other bytes.
fn table_histories(r: &mut Rec, ep: &EntryPoint, bytes: &[u8], extra: usize, ar: &mut Arena, ar2: &mut Arena) -> Vec<String> {
    let mut out = vec![];
    for d in predecessors(bytes, false) {
        table(r, ep, ar.place(&d, Place::Left), extra);
        out.push(table(r, ep, ar.place(bytes, Place::Left), extra));
        // in turns with another table
        let (a, b) = (ar.place(bytes, Place::Left), ar2.place(&d, Place::Left));
        let (mut x, mut y) = (ep.structures(a), ep.structures(b));
        let mut ev = vec![];
        let mut after = 0;
        while ev.len() <= bytes.len() / 4 + 8 + extra {
            r.run("next", || y.next());
            let item = r.run("next", || x.next());
            let end = matches!(item, Some(None));
            let stop = item.is_none();
            // what was returned is looked at after the other table went on
            r.run("next", || y.next());
            ev.push(step(r, item));
            after += end as usize;
            if stop || after > extra {
                break;
            }
        }
        out.push(js(ev));
    }
    let b = ar.place(bytes, Place::Left);
    let want = r.want.clone();
    let t = std::thread::scope(|s| s.spawn(move || table(&mut Rec::new(&want), ep, b, extra)).join());
    out.extend(t.ok());
    out
}
fn search_histories(r: &mut Rec, bytes: &[u8], ar: &mut Arena) -> Vec<String> {
    let mut out = vec![];
    for d in predecessors(bytes, true) {
        search(r, ar.place(&d, Place::Left));
        out.push(search(r, ar.place(bytes, Place::Left)).0);
        out.push(search(r, ar.place(bytes, Place::Left)).0);
    }
    let b = ar.place(bytes, Place::Left);
    let want = r.want.clone();
    let t = std::thread::scope(|s| s.spawn(move || search(&mut Rec::new(&want), b).0).join());
    out.extend(t.ok());
    out
}

fn first<'a>(ep: &EntryPoint, buf: &'a [u8]) -> Option<Result<Structure<'a>, MalformedStructureError>> {
    ep.structures(buf).next()
}

/// A copy of a sequence taken after any of the first steps continues like the original.
fn forks<I: Iterator + Clone>(it: I) -> bool
where
    I::Item: PartialEq,
{
    let mut a = it;
    // copies that go on at once, copies that go on after the original, and what the original gives
    let (mut early, mut late, mut own) = (vec![], vec![], vec![]);
    let mut steps = 0;
    loop {
        if steps < 5 {
            early.push(a.clone().take(CAP).collect::<Vec<_>>());
            late.push(a.clone());
        }
        steps += 1;
        // up to the first end: a list may go on behind a string that is not text
        match a.next() {
            Some(x) if steps < CAP => own.push(x),
            _ => break,
        }
    }
    let late: Vec<Vec<_>> = late.into_iter().map(|c| c.take(CAP).collect()).collect();
    let same = |(k, x): (usize, &Vec<I::Item>)| x.iter().take(CAP / 2).eq(own[k.min(own.len())..].iter().take(CAP / 2));
    early.iter().enumerate().all(same) && late.iter().enumerate().all(same)
}
fn nested_forks(s: &Structure) -> bool {
    match s {
        Structure::Enclosure(x) => x.contained_elements.clone().map(forks).unwrap_or(true),
        Structure::SystemSlots(x) => x.peer_devices.clone().map(forks).unwrap_or(true),
        Structure::OemStrings(x) => forks(x.strings),
        Structure::SystemConfigurationOptions(x) => forks(x.strings),
        Structure::BiosLanguage(x) => forks(x.installable_languages.clone()),
        Structure::GroupAssociations(x) => forks(x.items),
        Structure::SystemEventLog(x) => x
            .supported_event_log_type_descriptors
            .clone()
            .map(forks)
            .unwrap_or(true),
        _ => true,
    }
}

fn le64(n: u64) -> Vec<u8> {
    n.to_le_bytes().to_vec()
}

fn raw_ops(r: &mut Rec, s: &RawStructure, ops: &[&str]) -> Vec<Raw> {
    let mut out = vec![];
    for op in ops {
        let p: Vec<&str> = op.split(':').collect();
        let a: u64 = p[1].parse().unwrap();
        let off = a as usize;
        let mut o = Obj::default();
        o.put("o", T(p[0].into()));
        o.put("a", le64(a));
        macro_rules! get {
            ($t:ty) => {{
                match r.run("get", || s.get::<$t>(off)) {
                    None => o.put("t", T("panic".into())),
                    Some(Ok(v)) => {
                        o.put("t", T("ok".into()));
                        o.put("v", v.to_le_bytes())
                    }
                    Some(Err(e)) => {
                        let e = error(r, &e);
                        o.put("t", T("err".into()));
                        o.put("v", e)
                    }
                }
            }};
        }
        // a number from `b` bytes of the data, whatever its own width is
        macro_rules! slice_to {
            ($t:ty) => {{
                let b: u64 = p[2].parse().unwrap();
                o.put("b", le64(b));
                let bytes = s.data.get(off..off + b as usize).unwrap_or(&[]);
                match r.run("try_from_bytes", || <$t as dmidecode::TryFromBytes<$t>>::try_from_bytes(bytes)) {
                    None => o.put("t", T("panic".into())),
                    Some(Ok(v)) => {
                        o.put("t", T("ok".into()));
                        o.put("v", v.to_le_bytes())
                    }
                    Some(Err(_)) => o.put("t", T("none".into())),
                }
            }};
        }
        match p[0] {
            "g1" => get!(u8),
            "g2" => get!(u16),
            "g4" => get!(u32),
            "g8" => get!(u64),
            "g16" => get!(u128),
            "c1" => slice_to!(u8),
            "c2" => slice_to!(u16),
            "c4" => slice_to!(u32),
            "c8" => slice_to!(u64),
            "c16" => slice_to!(u128),
            "s" => {
                let b: u64 = p[2].parse().unwrap();
                o.put("b", le64(b));
                match r.run("get_slice", || s.get_slice(off, b as usize).map(|s| s.to_vec())) {
                    None => o.put("t", T("panic".into())),
                    Some(Some(v)) => {
                        o.put("t", T("ok".into()));
                        o.put("v", v)
                    }
                    Some(None) => o.put("t", T("none".into())),
                }
            }
            "t" | "f" => {
                let x = r.run("get_string", || {
                    if p[0] == "t" {
                        s.get_string(off)
                    } else {
                        s.find_string(a as u8)
                    }
                });
                match x {
                    None => o.put("t", T("panic".into())),
                    Some(Ok(v)) => {
                        o.put("t", T("ok".into()));
                        o.put("v", v)
                    }
                    Some(Err(e)) => {
                        let e = error(r, &e);
                        o.put("t", T("err".into()));
                        o.put("v", e)
                    }
                }
            }
            x => panic!("op {x}"),
        }
        out.push(o.end());
    }
    out
}

/// An offset in two digits.
fn two(n: usize) -> [usize; 2] {
    [n >> 16, n & 0xFFFF]
}
/// A buffer of gigabytes, and what it is made of.
fn giant(size: usize, words: &[&str]) -> (mem::Giant, Raw) {
    let mut big = mem::Giant::new(size, 0x78);
    let mut parts = vec![];
    for p in words {
        let (at, hex) = p.split_once(':').unwrap();
        let (at, bytes) = (at.parse::<usize>().unwrap(), unhex(hex));
        big.bytes()[at..at + bytes.len()].copy_from_slice(&bytes);
        let mut part = Obj::default();
        part.put("at", two(at));
        part.put("b", &bytes);
        parts.push(part.end());
    }
    let mut b = Obj::default();
    b.put("size", two(size));
    b.put("parts", parts);
    (big, b.end())
}
fn exec(line: &str, opt: &Opt, ar: &mut Arena, ar2: &mut Arena) -> String {
    let w: Vec<&str> = line.split_whitespace().collect();
    let mut r = Rec::new(&opt.want);
    let mut o = Obj::default();
    let num = |i: usize| -> u64 { w[i].parse().expect("number") };
    o.put("op", T(w[0].into()));
    match w[0] {
        "S" => {
            let bytes = unhex(w[1]);
            o.put("buf", &bytes);
            let res = search(&mut r, ar.place(&bytes, Place::Right)).0;
            let mut alt = vec![];
            if opt.places {
                for p in places(&bytes) {
                    let x = search(&mut r, ar.place(&bytes, p)).0;
                    if x != res {
                        alt.push(Raw(x))
                    }
                }
                alt.extend(search_histories(&mut r, &bytes, ar).into_iter().filter(|x| *x != res).map(Raw));
            }
            o.put("res", Raw(res));
            o.put("alt", alt);
        }
        "T" => {
            let (major, minor, decl, fmt, extra) = (num(1) as u8, num(2) as u8, num(3) as u32, num(4) as u8, num(5));
            let bytes = unhex(w[6]);
            o.put("v", [major, minor]);
            o.put("dl", decl);
            o.put("fmt", fmt);
            o.put("buf", &bytes);
            match entry(major, minor, decl, fmt, salt(&bytes)) {
                None => {
                    o.put("ev", Raw("[{\"t\":\"noentry\"}]".into()));
                    o.put("alt", Raw("[]".into()));
                }
                Some(ep) => {
                    let ev = table(&mut r, &ep, ar.place(&bytes, Place::Right), extra as usize);
                    let mut alt = vec![];
                    if opt.places {
                        for p in places(&bytes) {
                            let x = table(&mut r, &ep, ar.place(&bytes, p), extra as usize);
                            if x != ev {
                                alt.push(Raw(x))
                            }
                        }
                        alt.extend(
                            table_histories(&mut r, &ep, &bytes, extra as usize, ar, ar2)
                                .into_iter()
                                .filter(|x| *x != ev)
                                .map(Raw),
                        );
                    }
                    o.put("ev", Raw(ev));
                    o.put("alt", alt);
                }
            }
        }
        "R" => {
            let (major, minor) = (num(1) as u8, num(2) as u8);
            let bytes = unhex(w[3]);
            o.put("v", [major, minor]);
            o.put("buf", &bytes);
            let ep = entry(major, minor, bytes.len() as u32, 2, salt(&bytes)).unwrap();
            let b = ar.place(&bytes, Place::Right);
            match r.run("next", || first(&ep, b)) {
                Some(Some(Ok(Structure::Other(s)))) => {
                    let ops = raw_ops(&mut r, &s, &w[4..]);
                    o.put("t", T("ok".into()));
                    o.put("ops", ops);
                }
                _ => o.put("t", T("noraw".into())),
            }
        }
        "E" => {
            let (major, minor) = (num(1) as u8, num(2) as u8);
            let (a, b) = (unhex(w[3]), unhex(w[4]));
            o.put("v", [major, minor]);
            o.put("a", &a);
            o.put("b", &b);
            let (major2, minor2) = if w.len() > 6 { (num(5) as u8, num(6) as u8) } else { (major, minor) };
            o.put("v2", [major2, minor2]);
            let epa = entry(major, minor, a.len() as u32, 2, salt(&a)).unwrap();
            let epb = entry(major2, minor2, b.len() as u32, 2, salt(&b) >> 7).unwrap();
            let x = r.run("next", || first(&epa, ar.place(&a, Place::Right)));
            // the same bytes somewhere else
            let y = r.run("next", || first(&epb, ar2.place(&b, Place::Fill(0x5A, 7))));
            match (x, y) {
                (Some(Some(Ok(x))), Some(Some(Ok(y)))) => {
                    o.put("t", T("ok".into()));
                    let eq = r.run("eq", || x == y);
                    o.put("eq", eq);
                    let ne = r.run("ne", || x != y);
                    o.put("ne", ne);
                    let h = r.run("hash", || hash(&x) == hash(&y));
                    o.put("heq", h);
                    let c = r.run("clone", || x.clone() == x && hash(&x.clone()) == hash(&x));
                    o.put("ceq", c);
                }
                _ => o.put("t", T("other".into())),
            }
        }
        "EE" => {
            // two entry points
            let (a, b) = (unhex(w[1]), unhex(w[2]));
            o.put("a", &a);
            o.put("b", &b);
            let x = r.run("search", || EntryPoint::search(ar.place(&a, Place::Right)));
            let y = r.run("search", || EntryPoint::search(ar2.place(&b, Place::Fill(0x5A, 7))));
            match (x, y) {
                (Some(Ok(x)), Some(Ok(y))) => {
                    o.put("t", T("ok".into()));
                    o.put("eq", x == y);
                    o.put("ne", x != y);
                    o.put("heq", hash(&x) == hash(&y));
                    let c = x;
                    #[allow(clippy::clone_on_copy)]
                    let d = x.clone();
                    o.put("ceq", c == x && d == x && hash(&c) == hash(&x));
                }
                _ => o.put("t", T("other".into())),
            }
        }
        // a buffer of gigabytes to search: filler with parts written over it
        "H" => {
            let (mut big, buf) = giant(num(1) as usize, &w[2..]);
            o.put("buf", buf);
            unsafe { mem::alarm(300) };
            let res = search(&mut r, big.bytes()).0;
            o.put("res", Raw(res));
            o.put("alt", Raw("[]".into()));
        }
        // a table of gigabytes: filler with parts written over it
        "G" => {
            let (major, minor, decl, size) = (num(1) as u8, num(2) as u8, num(3) as u32, num(4) as usize);
            o.put("v", [major, minor]);
            o.put("dw", two(decl as usize));
            let (mut big, buf) = giant(size, &w[5..]);
            o.put("buf", buf);
            unsafe { mem::alarm(300) };
            let ep = entry(major, minor, decl, 3, 0).unwrap();
            let mut r = Rec::new("ne");
            let mut it = ep.structures(big.bytes());
            let ev = drive(&mut r, &mut it, w.len() + 64, 1);
            o.put("ev", ev);
        }
        "K" => {
            let (major, minor, decl, steps) = (num(1) as u8, num(2) as u8, num(3) as u32, num(4) as usize);
            let bytes = unhex(w[5]);
            o.put("v", [major, minor]);
            o.put("dl", decl);
            o.put("fmt", 2u8);
            o.put("buf", &bytes);
            o.put("k", steps);
            let ep = entry(major, minor, decl, 2, salt(&bytes)).unwrap();
            let b = ar.place(&bytes, Place::Right);
            let cap = b.len() / 4 + 8;
            let mut it = ep.structures(b);
            let mut nested = true;
            let mut pre = vec![];
            for _ in 0..steps {
                let x = r.run("next", || it.next());
                if let Some(Some(Ok(s))) = &x {
                    nested &= r.run("nested", || nested_forks(s)).unwrap_or(false);
                }
                pre.push(step(&mut r, x));
            }
            let mut copy = it.clone();
            let eq = it == copy && hash(&it) == hash(&copy);
            let rest_copy = drive(&mut r, &mut copy, cap, 0);
            let rest = drive(&mut r, &mut it, cap, 0);
            o.put("ieq", eq);
            o.put("nest", nested);
            o.put("ev", pre.into_iter().chain(rest).collect::<Vec<_>>());
            o.put("copy", rest_copy);
        }
        "I" => {
            let (major, minor, decl) = (num(1) as u8, num(2) as u8, num(3) as u32);
            let bytes = unhex(w[4]);
            o.put("v", [major, minor]);
            o.put("dl", decl);
            o.put("buf", &bytes);
            let ep = entry(major, minor, decl, 2, salt(&bytes)).unwrap();
            let b = ar.place(&bytes, Place::Right);
            let mut out = vec![seqs::sequence(&mut r, "structures", ep.structures(b), &w[5..], true)];
            let mut it = ep.structures(b);
            for _ in 0..4 {
                match r.run("next", || it.next()) {
                    Some(Some(Ok(s))) => out.extend(seqs::of_structure(&mut r, &s, &w[5..])),
                    Some(Some(Err(_))) => {}
                    _ => break,
                }
            }
            o.put("seqs", out);
            o.put("p", r.panics.iter().map(|p| T(p.clone())).collect::<Vec<_>>());
        }
        _ => tables::exec(&w, &mut r, &mut o),
    }
    // results of other runs of the same case that differ (filled in by the driver)
    o.put("again", Raw("[]".into()));
    o.end().0
}

fn main() {
    let mut opt = Opt {
        want: "nsebgldt".into(),
        places: false,
    };
    let args: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--want" => {
                opt.want = args[i + 1].clone();
                i += 1
            }
            "--places" => opt.places = true,
            a => panic!("argument {a}"),
        }
        i += 1
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut a = Arena::new();
    let mut b = Arena::new();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        unsafe { mem::alarm(20) };
        let mut res = exec(&line, &opt, &mut a, &mut b);
        res.push('\n');
        out.write_all(res.as_bytes()).unwrap();
    }
    out.flush().unwrap();
}
