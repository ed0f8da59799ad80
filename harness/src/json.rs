//! Hand-written JSON encoding of observed values (no dependencies).
//!
//! u8/u16/bool -> integer; wider integers -> little-endian byte list (TLC integers are 32 bits wide);
//! text of the firmware -> byte list; Option -> [] or [v]; library text -> ASCII string in which every
//! character outside printable ASCII is written <U+XXXX>.
use std::fmt::Write;

pub trait J {
    fn j(&self, o: &mut String);
}
macro_rules! small {
    ($($t:ty),*) => { $(impl J for $t { fn j(&self, o: &mut String) { let _ = write!(o, "{}", self); } })* };
}
small!(u8, u16, usize, i32);
macro_rules! wide {
    ($($t:ty),*) => { $(impl J for $t { fn j(&self, o: &mut String) { self.to_le_bytes()[..].j(o) } })* };
}
wide!(u32, u64, u128);
impl J for bool {
    fn j(&self, o: &mut String) {
        o.push(if *self { '1' } else { '0' })
    }
}
impl J for str {
    fn j(&self, o: &mut String) {
        self.as_bytes().j(o)
    }
}
impl<T: J> J for [T] {
    fn j(&self, o: &mut String) {
        o.push('[');
        for (i, v) in self.iter().enumerate() {
            if i > 0 {
                o.push(',')
            }
            v.j(o)
        }
        o.push(']')
    }
}
impl<T: J> J for Vec<T> {
    fn j(&self, o: &mut String) {
        self[..].j(o)
    }
}
impl<T: J, const N: usize> J for [T; N] {
    fn j(&self, o: &mut String) {
        self[..].j(o)
    }
}
impl<T: J + ?Sized> J for &T {
    fn j(&self, o: &mut String) {
        (**self).j(o)
    }
}
impl<T: J> J for Option<T> {
    fn j(&self, o: &mut String) {
        match self {
            None => o.push_str("[]"),
            Some(v) => {
                o.push('[');
                v.j(o);
                o.push(']')
            }
        }
    }
}
impl<A: J, B: J> J for (A, B) {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.0.j(o);
        o.push(',');
        self.1.j(o);
        o.push(']')
    }
}
impl<A: J, B: J, C: J> J for (A, B, C) {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.0.j(o);
        o.push(',');
        self.1.j(o);
        o.push(',');
        self.2.j(o);
        o.push(']')
    }
}

/// Library text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct T(pub String);
impl J for T {
    fn j(&self, o: &mut String) {
        o.push('"');
        for c in self.0.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                ' '..='~' => o.push(c),
                c => {
                    let _ = write!(o, "<U+{:04X}>", c as u32);
                }
            }
        }
        o.push('"')
    }
}
/// Already encoded JSON.
pub struct Raw(pub String);
impl J for Raw {
    fn j(&self, o: &mut String) {
        o.push_str(&self.0)
    }
}
pub fn js<V: J>(v: V) -> String {
    let mut s = String::new();
    v.j(&mut s);
    s
}

/// One JSON object under construction.
#[derive(Default)]
pub struct Obj(pub String);
impl Obj {
    pub fn put<V: J>(&mut self, k: &str, v: V) {
        if !self.0.is_empty() {
            self.0.push(',')
        }
        let _ = write!(self.0, "\"{}\":", k);
        v.j(&mut self.0);
    }
    pub fn end(self) -> Raw {
        Raw(format!("{{{}}}", self.0))
    }
}
