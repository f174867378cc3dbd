//! OMM messages in JSON: generator and independent reader.
use crate::rng::Rng;
use crate::tle::{days_from_civil, leap, Truth, Verdict};

// A small JSON reader, independent of serde ---------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct Reader<'a> {
    b: &'a [u8],
    i: usize,
    /// constructs on which JSON readers legitimately differ were met
    pub odd: bool,
}

type R<T> = Result<T, ()>;

impl<'a> Reader<'a> {
    pub fn read(b: &'a [u8]) -> (R<J>, bool) {
        let mut r = Reader { b, i: 0, odd: false };
        let v = r.value(0).and_then(|v| {
            r.space();
            if r.i == r.b.len() {
                Ok(v)
            } else {
                Err(())
            }
        });
        (v, r.odd)
    }
    fn space(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> R<u8> {
        self.space();
        self.b.get(self.i).copied().ok_or(())
    }
    fn expect(&mut self, s: &[u8]) -> R<()> {
        if self.b[self.i..].starts_with(s) {
            self.i += s.len();
            Ok(())
        } else {
            Err(())
        }
    }
    fn value(&mut self, depth: usize) -> R<J> {
        if depth > 60 {
            self.odd = true;
            return Err(());
        }
        match self.peek()? {
            b'n' => self.expect(b"null").map(|_| J::Null),
            b't' => self.expect(b"true").map(|_| J::Bool(true)),
            b'f' => self.expect(b"false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                if self.peek()? == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    match self.peek()? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(()),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    if self.peek()? != b'"' {
                        return Err(());
                    }
                    let k = self.string()?;
                    if self.peek()? != b':' {
                        return Err(());
                    }
                    self.i += 1;
                    v.push((k, self.value(depth + 1)?));
                    match self.peek()? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(()),
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => Err(()),
        }
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while self.b.get(self.i).is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        self.i - s
    }
    fn number(&mut self) -> R<J> {
        let s = self.i;
        if self.b[self.i] == b'-' {
            self.i += 1;
        }
        match self.b.get(self.i) {
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => {
                self.digits();
            }
            _ => return Err(()),
        }
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            if self.digits() == 0 {
                return Err(());
            }
        }
        if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if self.digits() == 0 {
                return Err(());
            }
        }
        Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> R<u32> {
        let h = self.b.get(self.i..self.i + 4).ok_or(())?;
        let s = std::str::from_utf8(h).map_err(|_| ())?;
        if !h.iter().all(|c| c.is_ascii_hexdigit()) {
            return Err(());
        }
        self.i += 4;
        u32::from_str_radix(s, 16).map_err(|_| ())
    }
    fn string(&mut self) -> R<String> {
        self.i += 1;
        let mut o: Vec<u8> = Vec::new();
        loop {
            let c = *self.b.get(self.i).ok_or(())?;
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or(())?;
                    self.i += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let h = self.hex4()?;
                            if (0xd800..0xe000).contains(&h) {
                                if h < 0xdc00 && self.b[self.i..].starts_with(b"\\u") {
                                    self.i += 2;
                                    let l = self.hex4()?;
                                    if (0xdc00..0xe000).contains(&l) {
                                        char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)).unwrap()
                                    } else {
                                        self.odd = true;
                                        '?'
                                    }
                                } else {
                                    self.odd = true;
                                    '?'
                                }
                            } else {
                                char::from_u32(h).unwrap()
                            }
                        }
                        _ => return Err(()),
                    };
                    o.extend(ch.to_string().as_bytes());
                }
                0..=0x1f => return Err(()),
                _ => o.push(c),
            }
        }
        match String::from_utf8(o) {
            Ok(s) => Ok(s),
            Err(_) => {
                self.odd = true;
                Ok("?".into())
            }
        }
    }
}

// Independent reading of a message -------------------------------------------------------------------

enum F<T> {
    Good(T),
    Bad,
    Odd,
}

fn float(j: &J) -> F<f64> {
    match j {
        J::Num(s) => match s.parse::<f64>() {
            Ok(v) if v.is_infinite() => F::Bad,
            Ok(v) if v != 0.0 && v.abs() < 1e-300 => F::Odd,
            // many digits or large exponents: the JSON reader's rounding is not the crate's business
            Ok(v) => F::Good(v),
            Err(_) => F::Bad,
        },
        J::Str(s) => {
            let plain = s.strip_prefix('-').unwrap_or(s);
            let canonical = plain.bytes().all(|c| c.is_ascii_digit() || c == b'.') && plain.bytes().any(|c| c.is_ascii_digit());
            match s.parse::<f64>() {
                Ok(v) if canonical && v.is_finite() => F::Good(v),
                Ok(v) if v.is_finite() && s.bytes().next().is_some_and(|c| c.is_ascii_digit() || c == b'-') => F::Good(v),
                Ok(v) if v.is_finite() => F::Odd,
                _ => F::Bad,
            }
        }
        _ => F::Bad,
    }
}

fn integer(j: &J, max: u64) -> F<u64> {
    let read = |s: &str| -> F<u64> {
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
            return F::Bad;
        }
        match s.parse::<u64>() {
            Ok(v) if v <= max => F::Good(v),
            _ => F::Bad,
        }
    };
    match j {
        // a number written with a fraction or exponent, or negative zero, may or may not count as an
        // integer
        J::Num(s) => match read(s) {
            F::Good(v) => F::Good(v),
            _ if s.contains(['.', 'e', 'E']) && s.parse::<f64>().is_ok_and(|v| v.fract() == 0.0 && v >= 0.0) => F::Odd,
            _ if s == "-0" => F::Odd,
            x => x,
        },
        J::Str(s) => match read(s) {
            F::Bad if s.parse::<u64>().is_ok_and(|v| v <= max) => F::Odd,
            x => x,
        },
        _ => F::Bad,
    }
}

/// ns since 1970
fn epoch(j: &J) -> F<i128> {
    let J::Str(s) = j else { return F::Bad };
    let b = s.as_bytes();
    let shape = b.len() >= 19 && b[4] == b'-' && b[7] == b'-' && b[10] == b'T' && b[13] == b':' && b[16] == b':';
    let digits = |r: std::ops::Range<usize>| b.get(r.clone()).is_some_and(|x| x.iter().all(|c| c.is_ascii_digit()));
    let canonical = shape
        && digits(0..4)
        && digits(5..7)
        && digits(8..10)
        && digits(11..13)
        && digits(14..16)
        && digits(17..19)
        && (b.len() == 19 || (b[19] == b'.' && b.len() > 20 && b.len() <= 29 && digits(20..b.len())));
    let n = |r: std::ops::Range<usize>| s[r].parse::<i64>().unwrap();
    if canonical {
        let (y, m, d, h, mi, se) = (n(0..4), n(5..7), n(8..10), n(11..13), n(14..16), n(17..19));
        let days = match m {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            4 | 6 | 9 | 11 => 30,
            2 => 28 + leap(y) as i64,
            _ => return F::Bad,
        };
        if d < 1 || d > days || h > 23 || mi > 59 || se > 60 {
            return F::Bad;
        }
        if se == 60 {
            return F::Odd;
        }
        let mut f = 0i128;
        if b.len() > 20 {
            f = n(20..b.len()) as i128 * 10i128.pow(9 - (b.len() - 20) as u32);
        }
        let secs = days_from_civil(y, m, d) as i128 * 86400 + (h * 3600 + mi * 60 + se) as i128;
        return F::Good(secs * 1_000_000_000 + f);
    }
    // anything that keeps the general shape of a date is left to the date library
    let datish = s.len() >= 8 && s.bytes().filter(|c| c.is_ascii_digit()).count() >= 6 && !s.bytes().any(|c| c.is_ascii_alphabetic() && c != b'T' && c != b't' && c != b'Z');
    if datish {
        F::Odd
    } else {
        F::Bad
    }
}

pub const KEYS: [&str; 17] = [
    "OBJECT_NAME",
    "OBJECT_ID",
    "NORAD_CAT_ID",
    "CLASSIFICATION_TYPE",
    "EPOCH",
    "MEAN_MOTION_DOT",
    "MEAN_MOTION_DDOT",
    "BSTAR",
    "ELEMENT_SET_NO",
    "INCLINATION",
    "RA_OF_ASC_NODE",
    "ECCENTRICITY",
    "ARG_OF_PERICENTER",
    "MEAN_ANOMALY",
    "MEAN_MOTION",
    "REV_AT_EPOCH",
    "EPHEMERIS_TYPE",
];

pub fn message(j: &J) -> Verdict<Truth> {
    let o = match j {
        J::Obj(o) => o,
        J::Arr(_) => return Verdict::DontCare("message as a bare list of values"),
        _ => return Verdict::Reject("not an object"),
    };
    let mut odd = false;
    for k in &KEYS[2..] {
        match o.iter().filter(|(n, _)| n == k).count() {
            0 => return Verdict::Reject("missing field"),
            1 => {}
            _ => return Verdict::Reject("duplicate field"),
        }
    }
    for k in &KEYS[..2] {
        odd |= o.iter().filter(|(n, _)| n == k).count() > 1;
    }
    let get = |k: &str| o.iter().find(|(n, _)| n == k).map(|(_, v)| v);
    let mut bad = None;
    macro_rules! take {
        ($f:expr, $k:expr, $default:expr) => {
            match $f {
                F::Good(v) => v,
                F::Odd => {
                    odd = true;
                    $default
                }
                F::Bad => {
                    bad.get_or_insert("bad field value");
                    $default
                }
            }
        };
    }
    let optional = |k: &str| match get(k) {
        None | Some(J::Null) => F::Good(None),
        Some(J::Str(s)) => F::Good(Some(s.clone())),
        Some(_) => F::Odd,
    };
    let name = take!(optional("OBJECT_NAME"), "", None);
    let designator = take!(optional("OBJECT_ID"), "", None);
    let class = take!(
        match get("CLASSIFICATION_TYPE") {
            Some(J::Str(s)) if ["U", "C", "S"].contains(&s.as_str()) => F::Good(s.chars().next().unwrap()),
            Some(J::Obj(_)) => F::Odd,
            _ => F::Bad,
        },
        "",
        'U'
    );
    macro_rules! f {
        ($k:expr) => {
            take!(float(get($k).unwrap()), $k, 0.0)
        };
    }
    macro_rules! u {
        ($k:expr, $max:expr) => {
            take!(integer(get($k).unwrap(), $max), $k, 0)
        };
    }
    let t = Truth {
        name,
        designator,
        norad: u!("NORAD_CAT_ID", u64::MAX),
        class,
        epoch: take!(epoch(get("EPOCH").unwrap()), "", 0),
        ndot: f!("MEAN_MOTION_DOT"),
        nddot: f!("MEAN_MOTION_DDOT"),
        bstar: f!("BSTAR"),
        elset: u!("ELEMENT_SET_NO", u64::MAX),
        incl: f!("INCLINATION"),
        raan: f!("RA_OF_ASC_NODE"),
        ecc: f!("ECCENTRICITY"),
        argp: f!("ARG_OF_PERICENTER"),
        ma: f!("MEAN_ANOMALY"),
        mm: f!("MEAN_MOTION"),
        rev: u!("REV_AT_EPOCH", u64::MAX),
        ephem: u!("EPHEMERIS_TYPE", 255) as u8,
    };
    match (bad, odd) {
        (Some(b), _) => Verdict::Reject(b),
        (None, true) => Verdict::DontCare("unusual field value"),
        (None, false) => Verdict::Accept(t),
    }
}

/// Reads a whole text as one message or as a list of messages.
pub fn read(text: &[u8], list: bool) -> Verdict<Vec<Truth>> {
    let (j, odd) = Reader::read(text);
    let j = match j {
        _ if odd => return Verdict::DontCare("unusual JSON"),
        Ok(j) => j,
        Err(()) => return Verdict::Reject("not JSON"),
    };
    let items = match (list, &j) {
        (true, J::Arr(v)) => v.clone(),
        (true, _) => return Verdict::Reject("not a list"),
        (false, j) => vec![j.clone()],
    };
    let mut out = Vec::new();
    let mut dont_care = None;
    for m in &items {
        match message(m) {
            Verdict::Accept(t) => out.push(t),
            Verdict::Reject(w) => return Verdict::Reject(w),
            Verdict::DontCare(w) => dont_care = Some(w),
        }
    }
    match dont_care {
        Some(w) => Verdict::DontCare(w),
        None => Verdict::Accept(out),
    }
}

// Generator ------------------------------------------------------------------------------------------

pub fn quote(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '/' if r.chance(0.3) => o.push_str("\\/"),
            '\n' => o.push_str("\\n"),
            '\t' if r.chance(0.5) => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if (c as u32) > 0x7e && r.chance(0.5) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04X}"));
                }
            }
            c if r.chance(0.02) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn decimal_text(r: &mut Rng, v: f64, digits: usize) -> String {
    match r.below(6) {
        0 => format!("{v:e}"),
        1 => format!("{v:E}"),
        2 => format!("{v}"),
        _ => format!("{v:.digits$}"),
    }
}

fn number(r: &mut Rng, text: String) -> String {
    if r.chance(0.35) {
        // strings need not follow the JSON syntax of numbers
        match r.below(8) {
            0 if text.bytes().all(|c| c.is_ascii_digit()) => format!("\"{}{text}\"", "0".repeat(r.idx(6))),
            1 if text.starts_with("0.") && text.len() > 2 => format!("\"{}\"", &text[1..]),
            2 if text.starts_with("-0.") && text.len() > 3 => format!("\"-{}\"", &text[2..]),
            _ => format!("\"{text}\""),
        }
    } else {
        text
    }
}

pub fn gen_name(r: &mut Rng) -> String {
    match r.below(8) {
        7 => match r.below(5) {
            0 => "\u{feff}ISS (ZARYA)".into(),
            1 => "\u{0}\u{1f}\u{7f}\u{85}\u{2028}\r\n".into(),
            2 => "  NIMBUS 1  ".into(),
            3 => " ".into(),
            _ => (0..25 + r.below(400)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
        },
        0 => String::new(),
        1 => "ISS (ZARYA)".into(),
        2 => "VANGUARD \"1\" \\ R/B".into(),
        3 => "\u{e9}toile \u{1f6f0} \t".into(),
        4 => "12345".into(),
        5 => "null".into(),
        _ => (0..1 + r.below(24)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
    }
}

/// The fields of a valid message, as raw JSON
pub fn gen_message(r: &mut Rng) -> Vec<(String, String)> {
    let mut m: Vec<(String, String)> = Vec::new();
    let (mm, ecc): (f64, f64) = match r.below(5) {
        0 => (1.0027 + r.uniform(0.0, 0.001), r.log(-5.0, -2.0)),
        1 => (2.0056 + r.uniform(0.0, 0.001), r.uniform(0.5, 0.75)),
        2 => (r.uniform(13.0, 16.0), r.log(-5.0, -2.0)),
        3 => (r.uniform(0.1, 6.4), r.uniform(0.0, 0.9)),
        _ => (r.uniform(0.01, 17.0), r.uniform(0.0, 1.0)),
    };
    let int = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => u64::MAX - r.below(3),
        2 => r.u64() >> r.below(64),
        _ => r.below(100_000),
    };
    for key in KEYS {
        let raw = match key {
            "OBJECT_NAME" => {
                let s = gen_name(r);
                match r.below(12) {
                    0 => continue,
                    1 => "null".into(),
                    _ => quote(&s, r),
                }
            }
            "OBJECT_ID" => match r.below(12) {
                0 => continue,
                1 => "null".into(),
                _ => {
                    let s = format!("{}-{:03}{}", 1957 + r.below(100), r.below(1000), (b'A' + r.below(26) as u8) as char);
                    quote(&s, r)
                }
            },
            "CLASSIFICATION_TYPE" => format!("\"{}\"", r.pick(&["U", "U", "C", "S"])),
            "EPOCH" => {
                let year = match r.below(8) {
                    0 => *r.pick(&[0, 1, 4, 100, 1600, 1900, 1999, 2000, 2100, 9999]),
                    _ => r.range(1957, 2056),
                };
                let month = r.range(1, 12);
                let day = match r.below(4) {
                    0 if month == 2 => 28 + leap(year) as i64,
                    0 => 30 + matches!(month, 1 | 3 | 5 | 7 | 8 | 10 | 12) as i64,
                    _ => r.range(1, 28),
                };
                let time = match r.below(6) {
                    0 => "00:00:00".to_string(),
                    1 => "23:59:59".to_string(),
                    _ => format!("{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60)),
                };
                let digits = *r.pick(&[0usize, 0, 3, 6, 6, 6, 9, 1]);
                let frac = if digits == 0 {
                    String::new()
                } else {
                    let max = 10u64.pow(digits as u32);
                    let v = match r.below(4) {
                        0 => max - 1,
                        1 => 0,
                        _ => r.below(max),
                    };
                    format!(".{v:0digits$}")
                };
                format!("\"{year:04}-{month:02}-{day:02}T{time}{frac}\"")
            }
            "NORAD_CAT_ID" | "ELEMENT_SET_NO" | "REV_AT_EPOCH" => {
                let v = int(r);
                number(r, v.to_string())
            }
            "EPHEMERIS_TYPE" => {
                let v = match r.below(4) {
                    0 => 255,
                    1 => r.below(256),
                    _ => 0,
                };
                number(r, v.to_string())
            }
            "MEAN_MOTION_DOT" | "MEAN_MOTION_DDOT" | "BSTAR" => {
                let v = match r.below(4) {
                    0 => 0.0,
                    1 => -r.log(-9.0, -2.0),
                    _ => r.log(-9.0, -2.0),
                };
                let t = decimal_text(r, v, 8);
                number(r, t)
            }
            "ECCENTRICITY" => {
                let t = decimal_text(r, ecc, 7);
                number(r, t)
            }
            "MEAN_MOTION" => {
                let t = decimal_text(r, mm, 8);
                number(r, t)
            }
            _ => {
                let v = match r.below(8) {
                    0 => 0.0,
                    1 => *r.pick(&[90.0, 180.0, 360.0]),
                    _ => r.uniform(0.0, if key == "INCLINATION" { 180.0 } else { 360.0 }),
                };
                let t = decimal_text(r, v, 4);
                number(r, t)
            }
        };
        m.push((format!("\"{key}\""), raw));
    }
    for _ in 0..r.below(3) {
        let v = r.pick(&["\"LEO\"", "[1,{\"EPOCH\":2}]", "{\"NORAD_CAT_ID\":7}", "null", "1e400000", "-0", "\"\\u00e9\"", "true"]).to_string();
        let v = if v == "1e400000" { "0.5".to_string() } else { v };
        let k = r.pick(&["\"CCSDS_OMM_VERS\"", "\"COMMENT\"", "\"norad_cat_id\"", "\"EPOCH \"", "\"TLE_LINE1\"", "\"\"", "\"MEAN_MOTION_\""]).to_string();
        m.push((k, v));
    }
    if r.chance(0.5) {
        r.shuffle(&mut m);
    }
    if r.chance(0.1) {
        for (k, _) in m.iter_mut() {
            if r.chance(0.2) {
                let plain = k.trim_matches('"').to_string();
                *k = quote(&plain, r);
            }
        }
    }
    m
}

/// Field values no reader may accept in place of the genuine one, or at least not silently misread
pub fn gen_bad_value(r: &mut Rng, key: &str) -> String {
    let common = ["null", "true", "[]", "{}", "[1]", "{\"U\":null}", "\"\"", "\" \"", "\"abc\"", "\"\\u0000\"", "\"--1\"", "\"1.2.3\"", "\"0x10\"", "\"1e\"", "\"1 2\""];
    let ints = ["-1", "1.5", "18446744073709551616", "1e20", "\"-1\"", "\"18446744073709551616\"", "\"1.5\"", "\"12345678901234567890123\"", "\"5 \"", "\"\u{664}\""];
    let small = ["256", "257", "300", "511", "512", "65536", "4294967296", "\"256\"", "\"300\"", "-1", "\"-1\"", "0.5", "18446744073709551615"];
    let floats = ["1e999", "-1e999", "\"1,5\"", "\"1.5 \"", "\"e5\"", "\".\"", "\"-\"", "\"1.5f\"", "\"nan\"", "\"NaN\"", "\"inf\"", "\"-infinity\"", "\"1e999\"", "\"-1e400\""];
    let dates = ["\"2020-13-01T00:00:00\"", "\"2020-02-30T00:00:00\"", "\"2019-02-29T12:00:00\"", "\"2020-07-12T25:00:00\"", "\"2020-07-12T00:60:00\"", "\"2016-12-31T23:59:60\"", "\"2016-12-31T23:59:60.5\"", "\"2016-12-31T23:59:61\"", "\"yesterday\"", "\"2020-07-12\"", "0", "20200712", "\"T\""];
    let classes = ["\"X\"", "\"u\"", "\"UU\"", "\"Unclassified\"", "0", "\"CS\""];
    let own: &[&str] = match key {
        "NORAD_CAT_ID" | "ELEMENT_SET_NO" | "REV_AT_EPOCH" => &ints,
        "EPHEMERIS_TYPE" => &small,
        "EPOCH" => &dates,
        "CLASSIFICATION_TYPE" => &classes,
        "OBJECT_NAME" | "OBJECT_ID" => &["1", "true", "[]", "{}"],
        _ => &floats,
    };
    if r.chance(0.65) || key.starts_with("OBJECT") {
        r.pick(own).to_string()
    } else {
        r.pick(&common).to_string()
    }
}

/// Text of one message or a list of messages
pub fn render(messages: &[Vec<(String, String)>], list: bool, spacing: u8) -> Vec<u8> {
    let (s, n) = match spacing % 4 {
        0 => ("", ""),
        1 => (" ", ""),
        2 => (" ", "\n  "),
        _ => ("\t", "\r\n"),
    };
    let mut o = String::new();
    if spacing & 4 != 0 {
        o.push_str(" \n");
    }
    if list {
        o.push('[');
    }
    for (i, m) in messages.iter().enumerate() {
        if i > 0 {
            o.push(',');
            o.push_str(n);
        }
        o.push('{');
        for (j, (k, v)) in m.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            o.push_str(n);
            o.push_str(k);
            o.push(':');
            o.push_str(s);
            o.push_str(v);
        }
        o.push_str(n);
        o.push('}');
        if !list {
            break;
        }
    }
    if list {
        o.push(']');
    }
    if spacing & 8 != 0 {
        o.push_str("\n \t");
    }
    o.into_bytes()
}
