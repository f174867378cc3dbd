//! Two-line element text: generator and independent reader.
use crate::rng::Rng;
use sgp4::chrono::Datelike;
use sgp4::{Classification, Elements};

/// What an element set says, read independently of the library.
#[derive(Clone, Debug, PartialEq)]
pub struct Truth {
    pub name: Option<String>,
    pub designator: Option<String>,
    pub norad: u64,
    pub class: char,
    /// ns since 1970
    pub epoch: i128,
    pub ndot: f64,
    pub nddot: f64,
    pub bstar: f64,
    pub elset: u64,
    pub incl: f64,
    pub raan: f64,
    pub ecc: f64,
    pub argp: f64,
    pub ma: f64,
    pub mm: f64,
    pub rev: u64,
    pub ephem: u8,
}

#[derive(Clone, Debug)]
pub enum Verdict<T> {
    Accept(T),
    Reject(&'static str),
    DontCare(&'static str),
}

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

/// ns since 1970 of what the library returned
pub fn naive_ns(d: &sgp4::chrono::NaiveDateTime) -> i128 {
    use sgp4::chrono::Timelike;
    let days = days_from_civil(d.year() as i64, d.month() as i64, d.day() as i64) as i128;
    (days * 86400 + d.num_seconds_from_midnight() as i128) * 1_000_000_000 + d.nanosecond() as i128
}

/// A day of year up to 366 with eight decimals held in a double is within 2.5 ns of its text.
pub const EPOCH_NS: i128 = 20;

fn close(a: f64, b: f64, ulps: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= ulps * f64::EPSILON * a.abs().max(b.abs()).max(f64::MIN_POSITIVE)
}

/// Compares an accepted set with the truth; the first differing field is named.
/// `tolerance`: (epoch in ns, relative error of floating-point fields in units of 2^-52)
pub fn differs(e: &Elements, t: &Truth, epoch_ns: i128, ulps: f64) -> Option<String> {
    let class = match e.classification {
        Classification::Unclassified => 'U',
        Classification::Classified => 'C',
        Classification::Secret => 'S',
    };
    if e.object_name != t.name {
        return Some(format!("object_name {:?} instead of {:?}", e.object_name, t.name));
    }
    if e.international_designator != t.designator {
        return Some(format!("international_designator {:?} instead of {:?}", e.international_designator, t.designator));
    }
    if class != t.class {
        return Some(format!("classification {class} instead of {}", t.class));
    }
    for (what, a, b) in [
        ("norad_id", e.norad_id, t.norad),
        ("element_set_number", e.element_set_number, t.elset),
        ("revolution_number", e.revolution_number, t.rev),
        ("ephemeris_type", e.ephemeris_type as u64, t.ephem as u64),
    ] {
        if a != b {
            return Some(format!("{what} {a} instead of {b}"));
        }
    }
    let epoch = naive_ns(&e.datetime);
    if (epoch - t.epoch).abs() > epoch_ns {
        return Some(format!("datetime {epoch} ns instead of {} ns", t.epoch));
    }
    for (what, a, b, u) in [
        ("mean_motion_dot", e.mean_motion_dot, t.ndot, ulps),
        ("mean_motion_ddot", e.mean_motion_ddot, t.nddot, ulps.max(4.0)),
        ("drag_term", e.drag_term, t.bstar, ulps.max(4.0)),
        ("inclination", e.inclination, t.incl, ulps),
        ("right_ascension", e.right_ascension, t.raan, ulps),
        ("eccentricity", e.eccentricity, t.ecc, ulps),
        ("argument_of_perigee", e.argument_of_perigee, t.argp, ulps),
        ("mean_anomaly", e.mean_anomaly, t.ma, ulps),
        ("mean_motion", e.mean_motion, t.mm, ulps),
    ] {
        if !close(a, b, u) {
            return Some(format!("{what} {a:?} instead of {b:?}"));
        }
    }
    None
}

pub fn checksum(line: &[u8]) -> u8 {
    let mut s = 0u32;
    for b in line.iter().take(68) {
        match b {
            b'-' => s += 1,
            b'0'..=b'9' => s += (b - b'0') as u32,
            _ => {}
        }
    }
    b'0' + (s % 10) as u8
}

// Independent reader -------------------------------------------------------------------------------

enum Field<T> {
    Canonical(T),
    Unreadable,
    Odd,
}

fn trim(b: &[u8]) -> &[u8] {
    let n = b.iter().take_while(|c| **c == b' ').count();
    &b[n..]
}

fn text(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}

fn unsigned(b: &[u8], max: u64) -> Field<u64> {
    let s = trim(b);
    if !s.is_empty() && s.iter().all(|c| c.is_ascii_digit()) {
        match text(s).and_then(|s| s.parse::<u64>().ok()) {
            Some(v) if v <= max => Field::Canonical(v),
            _ => Field::Unreadable,
        }
    } else if text(s).map(|s| s.trim_start()).is_some_and(|s| s.parse::<u64>().is_ok()) {
        Field::Odd
    } else {
        Field::Unreadable
    }
}

fn decimal(b: &[u8]) -> Field<f64> {
    let s = trim(b);
    let digits = match s {
        [b'-' | b'+', rest @ ..] => rest,
        _ => s,
    };
    let dots = digits.iter().filter(|c| **c == b'.').count();
    let canonical = dots == 1 && digits.len() > 1 && digits.iter().all(|c| c.is_ascii_digit() || *c == b'.') && digits.last() != Some(&b'.');
    let value = text(s).map(|s| s.trim_start()).and_then(|s| s.parse::<f64>().ok());
    match value {
        Some(v) if canonical => Field::Canonical(v),
        Some(v) if !v.is_finite() => Field::Unreadable,
        Some(_) => Field::Odd,
        None => Field::Unreadable,
    }
}

/// Six columns of mantissa with an assumed decimal point, two columns of exponent
fn assumed(m: &[u8], e: &[u8]) -> Field<f64> {
    let ms = match m {
        [b' ' | b'+', rest @ ..] => (1.0, rest),
        [b'-', rest @ ..] => (-1.0, rest),
        _ => (0.0, m),
    };
    let canonical_m = ms.0 != 0.0 && ms.1.iter().all(|c| c.is_ascii_digit());
    let canonical_e = matches!(e, [b'+' | b'-', b'0'..=b'9']);
    if canonical_m && canonical_e {
        let k = (e[1] - b'0') as i32 * if e[0] == b'-' { -1 } else { 1 };
        let s = format!("{}.{}e{}", if ms.0 < 0.0 { "-" } else { "" }, text(ms.1).unwrap(), k);
        return Field::Canonical(s.parse().unwrap());
    }
    let t = m.iter().skip_while(|c| c.is_ascii_whitespace()).copied().collect::<Vec<u8>>();
    let (sign, rest) = match t.as_slice() {
        [b'-', rest @ ..] => ("-", rest.to_vec()),
        [b'+', rest @ ..] => ("", rest.to_vec()),
        _ => ("", t.clone()),
    };
    let m_readable = !rest.is_empty() && text(&rest).is_some_and(|r| format!("{sign}.{r}").parse::<f64>().is_ok_and(f64::is_finite));
    let e_readable = text(e).is_some_and(|s| s.parse::<i8>().is_ok());
    if m_readable && e_readable {
        Field::Odd
    } else {
        Field::Unreadable
    }
}

fn two_digits(b: &[u8]) -> Field<i64> {
    if b.iter().all(|c| c.is_ascii_digit()) {
        Field::Canonical((b[0] - b'0') as i64 * 10 + (b[1] - b'0') as i64)
    } else if text(b).is_some_and(|s| s.parse::<u8>().is_ok()) {
        Field::Odd
    } else {
        Field::Unreadable
    }
}

fn century(y: i64) -> i64 {
    if y < 57 {
        2000 + y
    } else {
        1900 + y
    }
}

pub const SEPARATORS_1: [usize; 8] = [1, 8, 17, 32, 43, 52, 61, 63];
pub const SEPARATORS_2: [usize; 7] = [1, 7, 16, 25, 33, 42, 51];

pub fn read_pair(l1: &[u8], l2: &[u8]) -> Verdict<Truth> {
    if l1.len() != 69 || l2.len() != 69 {
        return Verdict::Reject("length");
    }
    if l1[0] != b'1' || l2[0] != b'2' {
        return Verdict::Reject("line number");
    }
    if SEPARATORS_1.iter().any(|i| l1[*i] != b' ') || SEPARATORS_2.iter().any(|i| l2[*i] != b' ') {
        return Verdict::Reject("separator");
    }
    if l1[68] != checksum(l1) || l2[68] != checksum(l2) {
        return Verdict::Reject("checksum");
    }
    let mut odd = false;
    macro_rules! field {
        ($e:expr) => {
            match $e {
                Field::Canonical(v) => v,
                Field::Odd => {
                    odd = true;
                    Default::default()
                }
                Field::Unreadable => return Verdict::Reject("unreadable column"),
            }
        };
    }
    let class = match l1[7] {
        c @ (b'U' | b'C' | b'S') => c as char,
        _ => return Verdict::Reject("classification"),
    };
    let n1 = field!(unsigned(&l1[2..7], u64::MAX));
    let n2 = field!(unsigned(&l2[2..7], u64::MAX));
    if !odd && n1 != n2 {
        return Verdict::Reject("catalogue numbers");
    }
    let d = &l1[9..17];
    let designator = if d.iter().all(|c| *c == b' ') {
        None
    } else if d.iter().all(|c| c.is_ascii_whitespace()) {
        odd = true;
        None
    } else {
        let y = field!(two_digits(&d[..2]));
        if d[2..].iter().all(|c| c.is_ascii_graphic() || *c == b' ') {
            Some(format!("{}-{}", century(y), text(&d[2..]).unwrap().trim()))
        } else {
            odd = true;
            None
        }
    };
    let year = century(field!(two_digits(&l1[18..20])));
    let day = field!(decimal(&l1[20..32]));
    let mut epoch = 0i128;
    if !odd {
        let s = text(trim(&l1[20..32])).unwrap();
        if s.starts_with('-') {
            return Verdict::Reject("day of year");
        }
        let s = s.trim_start_matches('+');
        let (i, f) = s.split_once('.').unwrap();
        let i: i64 = if i.is_empty() { 0 } else { i.parse().unwrap() };
        if i < 1 || i > if leap(year) { 366 } else { 365 } {
            return Verdict::Reject("day of year");
        }
        let num: i128 = f.parse().unwrap();
        let den = 10i128.pow(f.len() as u32);
        let frac = (num * 86_400_000_000_000 + den / 2) / den;
        epoch = (days_from_civil(year, 1, 1) + i - 1) as i128 * 86_400_000_000_000 + frac;
    }
    let _ = day;
    let ndot = field!(decimal(&l1[33..43]));
    let nddot = field!(assumed(&l1[44..50], &l1[50..52]));
    let bstar = field!(assumed(&l1[53..59], &l1[59..61]));
    let ephem = field!(unsigned(&l1[62..63], 255)) as u8;
    let elset = field!(unsigned(&l1[64..68], u64::MAX));
    let incl = field!(decimal(&l2[8..16]));
    let raan = field!(decimal(&l2[17..25]));
    let e = &l2[26..33];
    let ecc = if e.iter().all(|c| c.is_ascii_digit()) {
        format!("0.{}", text(e).unwrap()).parse().unwrap()
    } else {
        field!(match assumed(e, b"+0") {
            Field::Unreadable => Field::<f64>::Unreadable,
            _ => Field::Odd,
        })
    };
    let argp = field!(decimal(&l2[34..42]));
    let ma = field!(decimal(&l2[43..51]));
    let mm = field!(decimal(&l2[52..63]));
    let rev = field!(unsigned(&l2[63..68], u64::MAX));
    if odd {
        return Verdict::DontCare("readable but not canonical");
    }
    Verdict::Accept(Truth { name: None, designator, norad: n1, class, epoch, ndot, nddot, bstar, elset, incl, raan, ecc, argp, ma, mm, rev, ephem })
}

/// The places an error may point to: line (1, 2, or 3 for both) and columns of everything that is
/// wrong or not in canonical form.
pub fn blame(l1: &[u8], l2: &[u8]) -> Vec<(u8, usize, usize)> {
    let mut v = Vec::new();
    for (n, l) in [(1, l1), (2, l2)] {
        if l.len() != 69 {
            v.push((n, 0, l.len()));
        }
    }
    if !v.is_empty() {
        return v;
    }
    for (n, l, separators) in [(1, l1, &SEPARATORS_1[..]), (2, l2, &SEPARATORS_2[..])] {
        if l[0] != b'0' + n {
            v.push((n, 0, 1));
        }
        v.extend(separators.iter().filter(|i| l[**i] != b' ').map(|i| (n, *i, *i + 1)));
        if l[68] != checksum(l) {
            v.push((n, 68, 69));
        }
    }
    let mut odd = |n: u8, a: usize, b: usize, canonical: bool| {
        if !canonical {
            v.push((n, a, b));
        }
        canonical
    };
    let uint = |b: &[u8]| matches!(unsigned(b, u64::MAX), Field::Canonical(_));
    let float = |b: &[u8]| matches!(decimal(b), Field::Canonical(_));
    let digits = |b: &[u8]| b.iter().all(|c| c.is_ascii_digit());
    let mantissa = |b: &[u8]| matches!(assumed(b, b"+0"), Field::Canonical(_));
    let exponent = |b: &[u8]| matches!(b, [b'+' | b'-', b'0'..=b'9']);
    odd(1, 2, 7, uint(&l1[2..7]));
    odd(2, 2, 7, uint(&l2[2..7]));
    odd(3, 2, 7, text(&l1[2..7]).is_some_and(|a| text(&l2[2..7]).is_some_and(|b| a.replace(' ', "0") == b.replace(' ', "0"))));
    odd(1, 7, 8, matches!(l1[7], b'U' | b'C' | b'S'));
    if !l1[9..17].iter().all(|c| *c == b' ') {
        odd(1, 9, 11, digits(&l1[9..11]));
        odd(1, 11, 17, l1[11..17].iter().all(|c| c.is_ascii_graphic() || *c == b' '));
    }
    odd(1, 18, 20, digits(&l1[18..20]));
    odd(1, 20, 32, float(&l1[20..32]));
    // a date that does not exist is the fault of the year and the day together
    let exists = match (two_digits(&l1[18..20]), decimal(&l1[20..32])) {
        (Field::Canonical(y), Field::Canonical(d)) => d >= 1.0 && d < 1.0 + if leap(century(y)) { 366.0 } else { 365.0 },
        _ => false,
    };
    odd(1, 18, 20, exists);
    odd(1, 20, 32, exists);
    odd(1, 18, 32, exists);
    odd(1, 33, 43, float(&l1[33..43]));
    odd(1, 44, 50, mantissa(&l1[44..50]));
    odd(1, 50, 52, exponent(&l1[50..52]));
    odd(1, 53, 59, mantissa(&l1[53..59]));
    odd(1, 59, 61, exponent(&l1[59..61]));
    odd(1, 62, 63, uint(&l1[62..63]));
    odd(1, 64, 68, uint(&l1[64..68]));
    odd(2, 26, 33, digits(&l2[26..33]));
    for (a, b) in [(8, 16), (17, 25), (34, 42), (43, 51), (52, 63)] {
        odd(2, a, b, float(&l2[a..b]));
    }
    odd(2, 63, 68, uint(&l2[63..68]));
    v
}

/// The place a parse error's message points to
pub fn place(message: &str) -> Option<(u8, usize, usize)> {
    let line = match () {
        _ if message.contains("lines mismatch") => 3,
        _ if message.contains("on TLE line 1") => 1,
        _ if message.contains("on TLE line 2") => 2,
        _ => return None,
    };
    let (a, b) = message.split_once("between characters ")?.1.split_once(" and ")?;
    Some((line, a.trim().parse().ok()?, b.trim().parse().ok()?))
}

// Generator ----------------------------------------------------------------------------------------

fn pad(r: &mut Rng, value: u64, width: usize) -> String {
    if r.chance(0.4) {
        format!("{value:0width$}")
    } else {
        format!("{value:width$}")
    }
}

fn assumed_text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!(" 00000{}0", r.pick(&['-', '+'])),
        1 => format!("{}{:05}-{}", r.pick(&[' ', '-', '+']), r.below(100_000), r.below(10)),
        2 => format!("{}{:05}{}{}", r.pick(&[' ', '-']), 10_000 + r.below(90_000), r.pick(&['-', '+']), r.below(10)),
        _ => format!(" {:05}-{}", 10_000 + r.below(90_000), 3 + r.below(3)),
    }
}

pub fn gen_norad(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(10),
        1 => 99_999 - r.below(3),
        2 => r.below(1000),
        _ => r.below(100_000),
    }
}

/// An intact pair of lines
pub fn gen_pair(r: &mut Rng, norad: u64) -> (Vec<u8>, Vec<u8>) {
    let year = r.below(100) as i64;
    let days = if leap(century(year)) { 366 } else { 365 };
    let day = match r.below(8) {
        0 => 1,
        1 => days,
        2 => 60,
        _ => 1 + r.below(days),
    };
    let frac = match r.below(8) {
        0 => 0,
        1 => 99_999_999,
        2 => 50_000_000,
        3 => r.below(1000),
        4 => 31_250 * r.below(3200),
        _ => r.below(100_000_000),
    };
    let day_text = match r.below(3) {
        0 => format!("{day:3}.{frac:08}"),
        _ => format!("{day:03}.{frac:08}"),
    };
    let designator = match r.below(6) {
        0 => "        ".to_string(),
        1 => format!("{:02}{:3}{:>3}", r.below(100), r.below(1000), (b'A' + r.below(26) as u8) as char),
        _ => {
            let letters: String = (0..1 + r.below(3)).map(|_| (b'A' + r.below(26) as u8) as char).collect();
            format!("{:02}{:03}{:<3}", r.below(100), r.below(1000), letters)
        }
    };
    let ndot = match r.below(3) {
        0 => " .00000000".to_string(),
        1 => format!("{}.{:08}", r.pick(&[' ', '-', '+']), r.below(100_000_000)),
        _ => format!("{}0.{:07}", r.pick(&[' ', '-']), r.below(10_000_000)),
    };
    let class = *r.pick(&['U', 'U', 'C', 'S']);
    let elset = r.below(10_000);
    let id = pad(r, norad, 5);
    let nddot_text = assumed_text(r);
    let bstar_text = assumed_text(r);
    let ephem = if r.chance(0.8) { 0 } else { r.below(10) };
    let elset_text = pad(r, elset, 4);
    let l1 = format!("1 {id}{class} {designator} {year:02}{day_text} {ndot} {nddot_text} {bstar_text} {ephem} {elset_text}");
    let (mm, ecc) = match r.below(4) {
        0 => (100_273_790 + r.below(100_000), r.below(20_000)),
        1 => (200_561_000 + r.below(100_000), 5_000_000 + r.below(2_500_000)),
        2 => (1_300_000_000 + r.below(300_000_000), r.below(100_000)),
        _ => (10_000_000 + r.below(1_690_000_000), r.below(10_000_000)),
    };
    let angle = |r: &mut Rng, max: u64| {
        let v = match r.below(8) {
            0 => 0,
            1 => max,
            _ => r.below(max + 1),
        };
        if r.chance(0.3) {
            format!("{:03}.{:04}", v / 10_000, v % 10_000)
        } else {
            format!("{:3}.{:04}", v / 10_000, v % 10_000)
        }
    };
    let id2 = pad(r, norad, 5);
    let incl = angle(r, 1_800_000);
    let raan = angle(r, 3_599_999);
    let argp = angle(r, 3_599_999);
    let ma = angle(r, 3_599_999);
    let rev = r.below(100_000);
    let rev_text = pad(r, rev, 5);
    let mm_text = if r.chance(0.2) { format!("{:02}.{:08}", mm / 100_000_000, mm % 100_000_000) } else { format!("{:2}.{:08}", mm / 100_000_000, mm % 100_000_000) };
    let l2 = format!("2 {id2} {incl} {raan} {ecc:07} {argp} {ma} {mm_text}{rev_text}");
    let mut l1 = l1.into_bytes();
    let mut l2 = l2.into_bytes();
    debug_assert_eq!((l1.len(), l2.len()), (68, 68));
    l1.push(checksum(&l1));
    l2.push(checksum(&l2));
    (l1, l2)
}

pub fn gen_title(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "ISS (ZARYA)             ".to_string(),
        2 => "0 VANGUARD 1".to_string(),
        3 => "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927".to_string(),
        4 => "  CZ-4B R/B \u{e9}toile  ".to_string(),
        5 => match r.below(6) {
            0 => "\u{feff}ISS (ZARYA)".to_string(),
            1 => "\u{b}A\u{c}B\u{85}C\u{2028}D\u{2029}\u{0}\u{7f}".to_string(),
            2 => "\tATLAS \r CENTAUR\u{a0}".to_string(),
            3 => "\"#;\\ // \u{301}e\u{1f6f0}".to_string(),
            _ => "2".to_string(),
        },
        6 if r.chance(0.3) => (0..70 + r.below(400)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
        _ => (0..1 + r.below(24)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
    }
}
