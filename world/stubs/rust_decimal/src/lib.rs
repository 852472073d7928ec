//! Stand-in for rust_decimal (mantissa i128 with |m| < 2^96, scale 0..=28; serde-with-float).
pub mod prelude { pub use num_traits::{FromPrimitive, ToPrimitive, Zero, One, Signed}; pub use crate::Decimal; pub use std::str::FromStr; }
pub use prelude::{FromPrimitive, ToPrimitive};
#[derive(Clone, Copy, Debug, Default)]
pub struct Decimal { m: i128, s: u32 }
#[derive(Clone, Debug, PartialEq)] pub enum Error { ErrorString(String), ScaleExceedsMaximumPrecision(u32) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
const MAXM: i128 = (1i128 << 96) - 1;
impl Decimal {
    pub const ZERO: Decimal = Decimal { m: 0, s: 0 };
    pub fn new(n: i64, s: u32) -> Self { assert!(s <= 28); Self { m: n as i128, s } }
    pub fn from_i128_with_scale(m: i128, s: u32) -> Self { match Self::try_from_i128_with_scale(m, s) { Ok(d) => d, Err(e) => panic!("{}", e) } }
    pub fn try_from_i128_with_scale(m: i128, s: u32) -> Result<Self, Error> { if s > 28 { return Err(Error::ScaleExceedsMaximumPrecision(s)); } if m > MAXM || m < -MAXM { return Err(Error::ErrorString("mantissa".into())); } Ok(Self { m, s }) }
    pub fn mantissa(&self) -> i128 { self.m }
    pub fn scale(&self) -> u32 { self.s }
    pub fn is_zero(&self) -> bool { self.m == 0 }
    pub fn is_integer(&self) -> bool { self.normalize().s == 0 }
    pub fn normalize(&self) -> Self { let mut d = *self; while d.s > 0 && d.m % 10 == 0 { d.m /= 10; d.s -= 1; } d }
    pub fn rescale(&mut self, s: u32) {
        while self.s < s { let n = self.m.checked_mul(10); match n { Some(n) if n.abs() <= MAXM => { self.m = n; self.s += 1; } _ => break } }
        while self.s > s { let r = self.m % 10; self.m /= 10; self.s -= 1; if self.s == s && r.abs() >= 5 { self.m += r.signum(); } }
    }
    pub fn round_dp(&self, dp: u32) -> Self { let mut d = *self; if d.s > dp { d.rescale(dp); } d }
    pub fn trunc(&self) -> Self { let mut d = *self; while d.s > 0 { d.m /= 10; d.s -= 1; } d }
}
impl PartialEq for Decimal { fn eq(&self, o: &Self) -> bool { self.cmp(o) == std::cmp::Ordering::Equal } }
impl Eq for Decimal {}
impl PartialOrd for Decimal { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Decimal { fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    let (a, b) = (self.normalize(), o.normalize());
    if a.s == b.s { return a.m.cmp(&b.m); }
    // compare integer parts then fractional digits
    let pa = 10i128.pow(a.s); let pb = 10i128.pow(b.s);
    let (ia, ib) = (a.m / pa, b.m / pb);
    if ia != ib { return ia.cmp(&ib); }
    let (mut ra, mut rb) = (a.m % pa, b.m % pb); let (mut sa, mut sb) = (a.s, b.s);
    while sa < sb { ra *= 10; sa += 1; } while sb < sa { rb *= 10; sb += 1; }
    ra.cmp(&rb)
} }
impl std::hash::Hash for Decimal { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { let d = self.normalize(); d.m.hash(h); d.s.hash(h); } }
impl std::fmt::Display for Decimal { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let neg = self.m < 0; let d = self.m.unsigned_abs().to_string(); let s = self.s as usize;
    let d = if s == 0 { d } else { let d = format!("{:0>w$}", d, w = s + 1); format!("{}.{}", &d[..d.len() - s], &d[d.len() - s..]) };
    f.write_str(&if neg { format!("-{}", d) } else { d })
} }
impl std::str::FromStr for Decimal { type Err = Error; fn from_str(x: &str) -> Result<Self, Error> {
    let e = || Error::ErrorString(format!("invalid decimal {}", x));
    let (neg, b) = match x.strip_prefix('-') { Some(r) => (true, r), None => (false, x.strip_prefix('+').unwrap_or(x)) };
    let (i, fr) = b.split_once('.').unwrap_or((b, ""));
    if (i.is_empty() && fr.is_empty()) || !i.bytes().chain(fr.bytes()).all(|c| c.is_ascii_digit()) { return Err(e()); }
    let mut fr = fr.to_string(); fr.truncate(28);
    let m: i128 = format!("{}{}", i, fr).parse().map_err(|_| e())?;
    Self::try_from_i128_with_scale(if neg { -m } else { m }, fr.len() as u32)
} }
impl ToPrimitive for Decimal {
    fn to_i64(&self) -> Option<i64> { i64::try_from(self.trunc().m).ok() }
    fn to_u64(&self) -> Option<u64> { u64::try_from(self.trunc().m).ok() }
    fn to_i128(&self) -> Option<i128> { Some(self.trunc().m) }
    fn to_f64(&self) -> Option<f64> { self.to_string().parse().ok() }
}
impl FromPrimitive for Decimal {
    fn from_i64(n: i64) -> Option<Self> { Some(Self { m: n as i128, s: 0 }) }
    fn from_u64(n: u64) -> Option<Self> { Some(Self { m: n as i128, s: 0 }) }
    fn from_i128(n: i128) -> Option<Self> { Self::try_from_i128_with_scale(n, 0).ok() }
    /// about 16 significant digits, trailing zeros removed (as rust_decimal::from_f64)
    fn from_f64(v: f64) -> Option<Self> { if !v.is_finite() { return None; } if v == 0.0 { return Some(Self::ZERO); }
        let mag = v.abs().log10().floor() as i32; let dp = (15 - mag).clamp(0, 28) as usize;
        let s = format!("{:.*}", dp, v); s.parse::<Decimal>().ok().map(|d| d.normalize()) }
    fn from_f32(v: f32) -> Option<Self> { Self::from_f64(v as f64) }
}
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for Decimal { fn from(v: $t) -> Self { Self { m: v as i128, s: 0 } } })* } }
from_int!(i8, i16, i32, i64, u8, u16, u32, u64, usize, isize);
impl TryFrom<f64> for Decimal { type Error = Error; fn try_from(v: f64) -> Result<Self, Error> { Self::from_f64(v).ok_or(Error::ErrorString("f64".into())) } }
impl TryFrom<Decimal> for f64 { type Error = Error; fn try_from(v: Decimal) -> Result<f64, Error> { v.to_f64().ok_or(Error::ErrorString("f64".into())) } }
fn align(a: Decimal, b: Decimal) -> (i128, i128, u32) { let s = a.s.max(b.s); let (mut a, mut b) = (a, b); a.rescale(s); b.rescale(s); (a.m, b.m, s) }
impl std::ops::Add for Decimal { type Output = Decimal; fn add(self, o: Self) -> Self { let (a, b, s) = align(self, o); Self { m: a + b, s } } }
impl std::ops::Sub for Decimal { type Output = Decimal; fn sub(self, o: Self) -> Self { let (a, b, s) = align(self, o); Self { m: a - b, s } } }
impl std::ops::Neg for Decimal { type Output = Decimal; fn neg(self) -> Self { Self { m: -self.m, s: self.s } } }
impl serde::Serialize for Decimal { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_f64(self.to_f64().unwrap()) } }
impl<'de> serde::Deserialize<'de> for Decimal { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    struct V; impl<'de> serde::de::Visitor<'de> for V { type Value = Decimal;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "a Decimal type representing a fixed-point number") }
        fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<Decimal, E> { Ok(v.into()) }
        fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Decimal, E> { Ok(v.into()) }
        fn visit_f64<E: serde::de::Error>(self, v: f64) -> Result<Decimal, E> { format!("{}", v).parse().map_err(|_| E::custom("decimal")) }
        fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Decimal, E> { v.parse().map_err(|_| E::custom("decimal")) } }
    d.deserialize_any(V) } }
