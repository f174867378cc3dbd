//! Plan data types: everything a run does, as data.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A double that survives JSON exactly.
#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);

impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{:016x} ({:?})", self.0.to_bits(), self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        let hex = s.split(' ').next().unwrap_or("");
        u64::from_str_radix(hex, 16).map(|b| F(f64::from_bits(b))).map_err(serde::de::Error::custom)
    }
}

/// Bytes, printable ones readable
#[derive(Clone, Debug, PartialEq)]
pub struct B(pub Vec<u8>);
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut o = String::new();
        for b in &self.0 {
            match b {
                b'\\' => o.push_str("\\\\"),
                0x20..=0x7e => o.push(*b as char),
                _ => o.push_str(&format!("\\x{b:02x}")),
            }
        }
        s.serialize_str(&o)
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        let b = s.as_bytes();
        let mut o = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\\' {
                if b.get(i + 1) == Some(&b'\\') {
                    o.push(b'\\');
                    i += 2;
                } else {
                    let h = s.get(i + 2..i + 4).and_then(|h| u8::from_str_radix(h, 16).ok());
                    o.push(h.ok_or_else(|| serde::de::Error::custom("bad escape"))?);
                    i += 4;
                }
            } else {
                o.push(b[i]);
                i += 1;
            }
        }
        Ok(B(o))
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable name of the broken expectation; shrinking preserves it
    pub class: String,
    pub detail: String,
}

pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}
