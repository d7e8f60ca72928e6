//! C14 machine floats in, C15 machine floats out.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use super::f192::val;
use hmath::*;

/// decoded from the bits by the format's definition
fn v32(x: f32) -> Option<Q> { let n = x.to_bits(); let (s, e, f) = (n >> 31 == 1, (n >> 23) & 255, n & 0x7f_ffff); if e == 255 { return None; } let (m, k) = if e == 0 { (f, -149) } else { (f | 1 << 23, e as i64 - 150) }; Some(dy(s, m as u128, k)) }
fn v64(x: f64) -> Option<Q> { let n = x.to_bits(); let (s, e, f) = (n >> 63 == 1, (n >> 52) & 2047, n & ((1 << 52) - 1)); if e == 2047 { return None; } let (m, k) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e as i64 - 1075) }; Some(dy(s, m as u128, k)) }
/// m * 2^k without a gcd
fn dy(neg: bool, m: u128, k: i64) -> Q {
    if m == 0 { return Q::zero(); } let t = m.trailing_zeros() as i64; let (m, k) = (m >> t, k + t);
    if k >= 0 { Q { n: Z::new(neg, N::from_u128(m).shl(k as u64)), d: N::one() } } else { Q { n: Z::new(neg, N::from_u128(m)), d: N::pow2((-k) as u64) } }
}
/// F192 value as (neg, odd mantissa, exponent)
fn key(q: &Q) -> (bool, N, i64) { if q.is_zero() { return (false, N::zero(), 0); } let mut t = 0; while !q.n.m.bit(t) { t += 1; } (q.n.neg, q.n.m.shr(t), t as i64 - (q.d.bits() as i64 - 1)) }

fn in32(x: f32, cx: &mut Cx, deep: bool) {
    let ar = || format!("f32 {x:e} bits {:#x}", x.to_bits());
    match v32(x) {
        None => {
            let e = if x.is_nan() { ConversionError::NotANumber } else if x > 0.0 { ConversionError::Infinity } else { ConversionError::NegInfinity };
            cx.eq("inspect_ieee754_f32", ar, || inspect_ieee754_f32(x), &Err(e.clone())); cx.eq("Ratio::from_ieee754_f32", ar, || Ratio::from_ieee754_f32(x).map(|_| ()), &Err(e));
            cx.eq("errors", ar, || (Ratio::try_from(x).is_err(), Ratio::try_from(&x).is_err(), BigInt::try_from(x).is_err(), BigInt::try_from(&x).is_err(), UBigInt::try_from(x).is_err(), UBigInt::try_from(&x).is_err(), F192::try_from(x).is_err()), &(true, true, true, true, true, true, true));
            cx.hit("infinity or NaN");
        }
        Some(w) => {
            if let Some(r) = cx.op("inspect_ieee754_f32", ar, || inspect_ieee754_f32(x)) {
                let g = match r { Ok((false, i32::MIN, 0)) => Q::zero(), Ok((s, e, f)) if f < 1 << 23 => dy(s, (f | 1 << 23) as u128, e as i64 - 23), _ => { cx.fail("inspect_ieee754_f32.form", || format!("{} gives {r:?}", ar())); return; } };
                cx.check("inspect_ieee754_f32.value", g == w, || format!("inspect_ieee754_f32({}) = {r:?} denotes {g:?}", ar()));
            }
            if deep {
                cx.eq("Ratio::from_ieee754_f32", ar, || Ratio::from_ieee754_f32(x).map(|v| v.rw()).ok(), &Some(w.rw()));
                cx.eq("Ratio::try_from(f32)", ar, || (Ratio::try_from(x).map(|v| v.rw()).ok(), Ratio::try_from(&x).map(|v| v.rw()).ok()), &(Some(w.rw()), Some(w.rw())));
                cx.eq("F192::try_from(f32)", ar, || F192::try_from(x).map(|v| key(&val(&v))).ok(), &Some(key(&w)));
                let t = w.trunc(); cx.eq("BigInt::try_from(f32)", ar, || (BigInt::try_from(x).map(|v| v.rw()).ok(), BigInt::try_from(&x).map(|v| v.rw()).ok()), &(Some(t.rw()), Some(t.rw())));
                let un = if t.neg { None } else { Some(t.m.rw()) }; cx.eq("UBigInt::try_from(f32)", ar, || (UBigInt::try_from(x).map(|v| v.rw()).ok(), UBigInt::try_from(&x).map(|v| v.rw()).ok()), &(un.clone(), un));
            }
        }
    }
}
fn in64(x: f64, cx: &mut Cx) {
    let ar = || format!("f64 {x:e} bits {:#x}", x.to_bits());
    match v64(x) {
        None => {
            let e = if x.is_nan() { ConversionError::NotANumber } else if x > 0.0 { ConversionError::Infinity } else { ConversionError::NegInfinity };
            cx.eq("inspect_ieee754_f64", ar, || inspect_ieee754_f64(x), &Err(e.clone())); cx.eq("Ratio::from_ieee754_f64", ar, || Ratio::from_ieee754_f64(x).map(|_| ()), &Err(e));
            cx.eq("errors", ar, || (Ratio::try_from(x).is_err(), Ratio::try_from(&x).is_err(), BigInt::try_from(x).is_err(), BigInt::try_from(&x).is_err(), UBigInt::try_from(x).is_err(), UBigInt::try_from(&x).is_err(), F192::try_from(x).is_err()), &(true, true, true, true, true, true, true));
            cx.hit("infinity or NaN");
        }
        Some(w) => {
            if let Some(r) = cx.op("inspect_ieee754_f64", ar, || inspect_ieee754_f64(x)) {
                let g = match r { Ok((false, i32::MIN, 0)) => Q::zero(), Ok((s, e, f)) if f < 1 << 52 => dy(s, (f | 1 << 52) as u128, e as i64 - 52), _ => { cx.fail("inspect_ieee754_f64.form", || format!("{} gives {r:?}", ar())); return; } };
                cx.check("inspect_ieee754_f64.value", g == w, || format!("inspect_ieee754_f64({}) = {r:?} denotes {g:?}", ar()));
            }
            cx.eq("Ratio::from_ieee754_f64", ar, || Ratio::from_ieee754_f64(x).map(|v| v.rw()).ok(), &Some(w.rw()));
            cx.eq("Ratio::try_from(f64)", ar, || (Ratio::try_from(x).map(|v| v.rw()).ok(), Ratio::try_from(&x).map(|v| v.rw()).ok()), &(Some(w.rw()), Some(w.rw())));
            cx.eq("F192::try_from(f64)", ar, || F192::try_from(x).map(|v| key(&val(&v))).ok(), &Some(key(&w)));
            let t = w.trunc(); cx.eq("BigInt::try_from(f64)", ar, || (BigInt::try_from(x).map(|v| v.rw()).ok(), BigInt::try_from(&x).map(|v| v.rw()).ok()), &(Some(t.rw()), Some(t.rw())));
            let un = if t.neg { None } else { Some(t.m.rw()) }; cx.eq("UBigInt::try_from(f64)", ar, || (UBigInt::try_from(x).map(|v| v.rw()).ok(), UBigInt::try_from(&x).map(|v| v.rw()).ok()), &(un.clone(), un));
        }
    }
}
fn fracs32(th: bool) -> Vec<u32> {
    let mut v = vec![]; for k in 0..23u32 { for d in [-1i64, 0, 1] { let x = (1i64 << k) + d; if x >= 0 && x < 1 << 23 { v.push(x as u32); } v.push(((1i64 << 23) - 1 - (1i64 << k) + 1) as u32 & 0x7f_ffff); } }
    v.extend([0, 1, 2, 3, 0x7f_ffff, 0x7f_fffe, 0x40_0000, 0x55_5555, 0x2a_aaaa, 0x12_3456, 0x49_0fdb]);
    for i in 0..(if th { 4000 } else { 60 }) { v.push(mixlimb(i) & 0x7f_ffff); } v.sort(); v.dedup(); v
}
fn fracs64(th: bool) -> Vec<u64> {
    let m = (1u64 << 52) - 1; let mut v = vec![]; for k in 0..52u32 { for d in [-1i64, 0, 1] { let x = (1i64 << k) + d; v.push(x as u64 & m); } v.push(m - (1 << k) + 1); v.push(m ^ (1 << k)); }
    v.extend([0, 1, 2, 3, m, m - 1, 0x5_5555_5555_5555, 0xa_aaaa_aaaa_aaaa, 0x921f_b544_42d18]);
    for i in 0..(if th { 300 } else { 20 }) { v.push(((mixlimb(i) as u64) << 32 | mixlimb(i + 77) as u64) & m); } v.sort(); v.dedup(); v
}
fn exps64(_th: bool) -> Vec<u64> { (0..2048).collect() }
pub fn c14(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let f = fracs32(th); let fl = f.len() as u64;
    s.push(Suite::new("f32-critical", "every sign and exponent of the 32-bit format x critical and mixed fractions", 512 * fl, move |i| f32::from_bits((((i / fl) as u32) << 23) | f[(i % fl) as usize]), |x, cx| in32(x, cx, true)));
    if th { s.push(Suite::new("f32-inspect-all", "all 2^32 bit patterns: sign, exponent, fraction recompose", 1 << 20, |i| i, |i, cx| { for j in 0..4096u64 { let x = f32::from_bits((i << 12 | j) as u32); fast32(x, cx); } cx.states = 4096; })); }
    else { s.push(Suite::new("f32-inspect", "every bit pattern with any sign and exponent and a fraction congruent to 0 or 1 mod 1024 (262144 x 2 per ...)", 1 << 14, |i| i, |i, cx| { for j in 0..512u64 { let n = i * 262_144 + j * 512 + (j % 2) * 511; fast32(f32::from_bits(n as u32), cx); } cx.states = 512; })); }
    s.push(Suite::new("f32-subnormal-all", "all 2^24 subnormal 32-bit patterns, and all fractions of the exponents 0, 23, 24 and 127", 10 << 11, |i| i, |i, cx| { let (h, k) = (i >> 11, i & 2047); let top = [0u32, 256, 127, 383, 150, 406, 151, 407, 254, 510][h as usize]; for j in 0..4096u32 { fast32(f32::from_bits(top << 23 | (k as u32) << 12 | j), cx); } cx.states = 4096; }));
    let (e, f) = (exps64(th), fracs64(th)); let fl = f.len() as u64; let n = 2 * e.len() as u64 * fl;
    s.push(Suite::new("f64-critical", "both signs, every exponent x critical and mixed fractions", n, move |i| { let (k, fi) = (i / fl, (i % fl) as usize); f64::from_bits(((k % 2) << 63) | (e[(k / 2) as usize] << 52) | f[fi]) }, |x, cx| in64(x, cx)));
    s.push(Suite::list("f64-integers", "every integer and half-integer to the bound, both widths", (-(if th { 200_000i64 } else { 20_000 })..=(if th { 200_000 } else { 20_000 })).collect::<Vec<_>>(), |n, cx| { in64(n as f64 / 2.0, cx); in32(n as f32 / 2.0, cx, true); }));
    s
}
/// inspection of one f32 without big numbers: recompose through the hardware
fn fast32(x: f32, cx: &mut Cx) {
    cx.transitions += 1;
    let r = inspect_ieee754_f32(x);
    let ok = match (&r, x) { (Ok((false, i32::MIN, 0)), x) => x == 0.0, (Ok((s, e, f)), x) if x.is_finite() && *f < 1 << 23 => { let m = (*f | 1 << 23) as f64 * 2f64.powi(*e - 23); (if *s { -m } else { m }) == x as f64 }
        (Err(ConversionError::NotANumber), x) => x.is_nan(), (Err(ConversionError::Infinity), x) => x == f32::INFINITY, (Err(ConversionError::NegInfinity), x) => x == f32::NEG_INFINITY, _ => false };
    if !ok { cx.fail("inspect_ieee754_f32.value", || format!("inspect_ieee754_f32({x:e}, bits {:#x}) = {r:?}", x.to_bits())); return; }
    // the 192-bit float is exact, and back is the identity
    if let Ok(v) = F192::try_from(x) { let y: f32 = v.into(); if y != x { cx.fail("f32 from F192 round trip", || format!("f32 {x:e} bits {:#x} -> F192 -> {y:e}", x.to_bits())); } let z: f64 = v.into(); if z != x as f64 { cx.fail("f64 from F192 of f32", || format!("f32 {x:e} -> F192 -> f64 {z:e}")); } }
    else if x.is_finite() { cx.fail("F192::try_from(f32).reject", || format!("{x:e}")); }
}

// ---- C15 ----
/// the two floats around |q|: (largest float <= |q|, smallest float >= |q| or None beyond the range); as (value, next)
struct Fmt { p: u64, emin: i64, emax: i64 }
const F32: Fmt = Fmt { p: 24, emin: -149, emax: 127 };
const F64: Fmt = Fmt { p: 53, emin: -1074, emax: 1023 };
impl Fmt {
    /// floor of |q| on the format's grid, and the unit there
    fn below(&self, q: &Q) -> (Q, Q) { let e = if q.is_zero() { self.emin } else { (q.ilog2() - self.p as i64 + 1).max(self.emin) }; let un = Q::pow2(e); let k = q.abs().mul(&Q::pow2(-e)).floor(); (Q::from_z(k).mul(&un), un) }
    fn max(&self) -> Q { Q::pow2(self.emax + 1).sub(&Q::pow2(self.emax + 1 - self.p as i64)) }
}
fn faithful(cx: &mut Cx, keyn: &str, q: &Q, fm: &Fmt, got: Option<Option<Q>>, is_err: bool, ar: &dyn Fn() -> String) {
    // got: None = returned a non-finite float, Some(None) = error
    let a = q.abs();
    match got {
        None => { cx.fail(&format!("{keyn}.nonfinite"), || format!("{keyn}({}) returned an infinity or NaN", ar())); }
        Some(None) => { if !fm.max().lt(&a) { cx.fail(&format!("{keyn}.refused"), || format!("{keyn}({}) reported an error for a value in range", ar())); } else { cx.hit("out of range"); } let _ = is_err; }
        Some(Some(g)) => {
            if fm.max().lt(&a) { // beyond the largest float: only the largest float itself or an error; from 2^(emax+1) on an error
                if g.abs() != fm.max() || !a.lt(&Q::pow2(fm.emax + 1)) || g.n.neg != q.n.neg { cx.fail(&format!("{keyn}.range"), || format!("{keyn}({}) = {g:?} for a value beyond the range", ar())); }
                return;
            }
            let (lo, un) = fm.below(q); let hi = lo.add(&un); let ga = g.abs();
            let ok = if lo == a { ga == lo } else { ga == lo || ga == hi };
            if !ok || (!g.is_zero() && g.n.neg != q.n.neg) { cx.fail(&format!("{keyn}.value"), || format!("{keyn}({}) = {g:?}, neighbours are {lo:?} and {hi:?}", ar())); }
            if lo == a { cx.hit("exact"); } else { cx.hit("between floats"); }
        }
    }
}
fn out(q: &Q, cx: &mut Cx) {
    let x = r(q); let ar = || format!("{q:?}");
    let c32 = |v: Result<f32, ConversionError>| -> Option<Option<Q>> { match v { Ok(f) => v32(f).map(Some), Err(_) => Some(None) } };
    let c64 = |v: Result<f64, ConversionError>| -> Option<Option<Q>> { match v { Ok(f) => v64(f).map(Some), Err(_) => Some(None) } };
    if let Some(v) = cx.op("to_ieee754_f32", ar, || x.to_ieee754_f32()) { faithful(cx, "to_ieee754_f32", q, &F32, c32(v.clone()), v.is_err(), &ar);
        cx.eq("f32::try_from(Ratio)", ar, || (f32::try_from(&x).map(|f| f.to_bits()), f32::try_from(x.clone()).map(|f| f.to_bits())), &(v.clone().map(|f| f.to_bits()), v.map(|f| f.to_bits()))); }
    if let Some(v) = cx.op("to_ieee754_f64", ar, || x.to_ieee754_f64()) { faithful(cx, "to_ieee754_f64", q, &F64, c64(v.clone()), v.is_err(), &ar);
        cx.eq("f64::try_from(Ratio)", ar, || (f64::try_from(&x).map(|f| f.to_bits()), f64::try_from(x.clone()).map(|f| f.to_bits())), &(v.clone().map(|f| f.to_bits()), v.map(|f| f.to_bits()))); }
    if q.is_int() {
        let bz = b(&q.n);
        if let Some(v) = cx.op("f32::try_from(BigInt)", ar, || f32::try_from(&bz)) { faithful(cx, "f32::try_from(BigInt)", q, &F32, c32(v.clone()), v.is_err(), &ar); cx.eq("f32::try_from(BigInt owned)", ar, || f32::try_from(bz.clone()), &v); }
        if let Some(v) = cx.op("f64::try_from(BigInt)", ar, || f64::try_from(&bz)) { faithful(cx, "f64::try_from(BigInt)", q, &F64, c64(v.clone()), v.is_err(), &ar); cx.eq("f64::try_from(BigInt owned)", ar, || f64::try_from(bz.clone()), &v); }
        if !q.n.neg { let ub = u(&q.n.m);
            if let Some(v) = cx.op("f32::try_from(UBigInt)", ar, || f32::try_from(&ub)) { faithful(cx, "f32::try_from(UBigInt)", q, &F32, c32(v.clone()), v.is_err(), &ar); }
            if let Some(v) = cx.op("f64::try_from(UBigInt)", ar, || f64::try_from(&ub)) { faithful(cx, "f64::try_from(UBigInt)", q, &F64, c64(v.clone()), v.is_err(), &ar); } }
    }
}
/// F192 -> machine float: infinities stand for values too large, otherwise adjacent
fn out192(a: &super::f192::M, cx: &mut Cx) {
    let x = a.f(); let q = a.q(); let ar = || format!("{a:?}");
    macro_rules! go { ($t:ty, $v:ident, $fm:expr, $k:expr) => { if let Some(f) = cx.op($k, ar, || <$t>::from(x)) { match $v(f) {
        Some(g) => faithful(cx, $k, &q, &$fm, Some(Some(g)), false, &ar),
        None => { let ok = !f.is_nan() && (f < 0.0) == q.n.neg && $fm.max().lt(&q.abs()); if !ok { cx.fail(concat!($k, ".nonfinite"), || format!("{}({}) = {f}", $k, ar())); } else { cx.hit("infinity for values beyond the range"); } } } } } }
    go!(f32, v32, F32, "f32::from(F192)"); go!(f64, v64, F64, "f64::from(F192)");
}
/// x rising => conversions rising
fn rising(qs: &[Q], cx: &mut Cx) {
    let mut qs = qs.to_vec(); qs.sort_by(|a, c| a.cmp(c));
    let mut l32 = f32::NEG_INFINITY; let mut l64 = f64::NEG_INFINITY;
    for q in &qs { let x = r(q);
        if let Some(Ok(f)) = cx.op("to_ieee754_f32", || format!("{q:?}"), || x.to_ieee754_f32()) { if f < l32 { cx.fail("to_ieee754_f32.monotone", || format!("{q:?} -> {f:e} after {l32:e}")); } l32 = f; }
        if let Some(Ok(f)) = cx.op("to_ieee754_f64", || format!("{q:?}"), || x.to_ieee754_f64()) { if f < l64 { cx.fail("to_ieee754_f64.monotone", || format!("{q:?} -> {f:e} after {l64:e}")); } l64 = f; }
    }
}
/// points around one float-grid cell: both ends, the middle, hairs off each
fn cell(fm: &Fmt, e: i64, m: &N, neg: bool) -> Vec<Q> {
    let un = Q::pow2(e); let lo = Q::from_z(Z::new(false, m.clone())).mul(&un); let hair = un.mul(&Q::pow2(-70)); let _ = fm;
    let mut v = vec![lo.clone(), lo.add(&hair), lo.add(&un.mul(&Q::frac(1, 3))), lo.add(&un.mul(&Q::frac(1, 2))).sub(&hair), lo.add(&un.mul(&Q::frac(1, 2))), lo.add(&un.mul(&Q::frac(1, 2))).add(&hair), lo.add(&un.mul(&Q::frac(15, 16))), lo.add(&un).sub(&hair), lo.add(&un)];
    if neg { v = v.iter().map(|x| x.negate()).collect(); } v
}
pub fn c15(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let f = fracs32(th); let fl = f.len() as u64;
    s.push(Suite::new("f32-round-trip", "every sign and exponent x critical and mixed fractions: float -> exact -> float is the identity", 512 * fl, move |i| f32::from_bits((((i / fl) as u32) << 23) | f[(i % fl) as usize]), |x, cx| {
        if !x.is_finite() { return; } let ar = || format!("f32 {x:e} bits {:#x}", x.to_bits()); let w = r(&v32(x).unwrap());
        cx.eq("Ratio.to_ieee754_f32", ar, || w.to_ieee754_f32(), &Ok(x)); cx.eq("Ratio.to_ieee754_f64", ar, || w.to_ieee754_f64(), &Ok(x as f64));
        cx.eq("f32 via F192", ar, || F192::try_from(x).map(f32::from).ok(), &Some(x)); }));
    let (e, f) = (exps64(th), fracs64(false)); let fl = f.len() as u64; let n = 2 * e.len() as u64 * fl;
    s.push(Suite::new("f64-round-trip", "both signs, every exponent x critical fractions", n, move |i| { let (k, fi) = (i / fl, (i % fl) as usize); f64::from_bits(((k % 2) << 63) | (e[(k / 2) as usize] << 52) | f[fi]) }, |x, cx| {
        if !x.is_finite() { return; } let ar = || format!("f64 {x:e} bits {:#x}", x.to_bits()); let w = r(&v64(x).unwrap());
        cx.eq("Ratio.to_ieee754_f64", ar, || w.to_ieee754_f64(), &Ok(x)); cx.eq("f64 via F192", ar, || F192::try_from(x).map(f64::from).ok(), &Some(x)); }));
    if th { s.push(Suite::new("f32-all-F192", "all 2^32 bit patterns through the 192-bit float and back", 1 << 20, |i| i, |i, cx| { for j in 0..4096u64 { fast32(f32::from_bits((i << 12 | j) as u32), cx); } cx.states = 4096; })); }
    // cells of both grids
    let ms32: Vec<N> = [1u128 << 23, (1 << 23) + 1, (1 << 24) - 1, (1 << 24) - 2, 0xaa_aaab, 0xc0_0000].iter().map(|x| N::from_u128(*x)).collect();
    let ms64: Vec<N> = [1u128 << 52, (1 << 52) + 1, (1 << 53) - 1, (1 << 53) - 2, 0x15_5555_5555_5555].iter().map(|x| N::from_u128(*x)).collect();
    let mut cells = vec![];
    let e32: Vec<i64> = (-175..=106).collect();
    for &e in &e32 { for m in &ms32 { for neg in [false, true] { cells.push((32u32, e, m.clone(), neg)); } } }
    let e64: Vec<i64> = (-1130..=974).collect();
    for &e in &e64 { for m in &ms64 { for neg in [false, true] { cells.push((64, e, m.clone(), neg)); } } }
    // subnormal mantissas
    for k in (1..=200u128).chain([1 << 22, (1 << 23) - 1]) { cells.push((32, -149, N::from_u128(k), k % 3 == 0)); } for k in (1..=200u128).chain([1 << 51, (1 << 52) - 1]) { cells.push((64, -1074, N::from_u128(k), k % 3 == 0)); }
    for k in 0..=3u128 { for e in [-152, -151, -150, -149] { cells.push((32, e, N::from_u128(k), false)); } for e in [-1077, -1076, -1075, -1074] { cells.push((64, e, N::from_u128(k), true)); } }
    s.push(Suite::list("grid-cells", "rationals at, between and a hair off neighbouring floats, every exponent of both formats, subnormal and overflow borders", cells.clone(), |(w, e, m, neg), cx| { for q in cell(if w == 32 { &F32 } else { &F64 }, e, &m, neg) { out(&q, cx); } }));
    s.push(Suite::list("monotone", "rising arguments within a cell and across its borders give rising floats", cells, |(w, e, m, neg), cx| { let fm = if w == 32 { &F32 } else { &F64 }; let mut v = cell(fm, e, &m, neg); v.extend(cell(fm, e, &m.add_small(1), neg)); rising(&v, cx); }));
    s.push(Suite::list("small-fractions", "every p/q to the bound", super::order::fracs(if th { 400 } else { 120 }, if th { 120 } else { 50 }), |q, cx| out(&q, cx)));
    s.push(Suite::list("limb-patterns", "fractions with critical limbs", super::order::crit_q(if th { A5 } else { A4 }, 3, 2), |q, cx| out(&q, cx)));
    let ints = signed(&cat(vec![smalls(3000), pow2_hood(if th { 1100 } else { 300 }, 2), pow10_hood(if th { 320 } else { 60 }, 1), nats(A4, 4)]));
    s.push(Suite::list("integers", "big integers of every magnitude through the float range and beyond", ints, |z, cx| out(&Q::from_z(z), cx)));
    s.push(Suite::list("extremes", "values far above and below every float", [-60_000i64, -20_000, -5000, -1200, -1100, 1023, 1024, 1025, 1100, 2000, 20_000, 60_000].iter().flat_map(|e| [(*e, false), (*e, true)]).collect::<Vec<_>>(), |(e, neg), cx| { for k in [1i128, 3, 5] { let q = Q::pow2(e).mul(&Q::frac(k, 3)); out(&if neg { q.negate() } else { q }, cx); } }));
    let hl: &[usize] = if th { &[2, 3, 9, 33, 64, 65, 150, 600, 2000] } else { &[2, 3, 9, 33, 65, 150, 600] };
    let mut big = vec![]; for &l in hl { for w in [32u32, 64] { for e in if w == 32 { vec![-160i64, -150, -149, -126, -3, 0, 40, 104, 105] } else { vec![-1085i64, -1075, -1074, -1022, -900, -3, 0, 900, 970, 971, 972] } { for k in 0..3 { big.push((w, e, l, k)); } } } }
    s.push(Suite::list("long-parts", "the same cell points written with numerator and denominator of up to 600 (2000) limbs: a float, half-way points and points off them by less than 2^-(32 l)", big, |(w, e, l, k), cx| {
        let d = long(l, [1, MAX, H][k], [Fill::Mix, Fill::MixB, Fill::Ones][k], [7, 1, MAX][k]); let p = if w == 32 { 24 } else { 53 };
        let m = [N::pow2(p - 1), N::pow2(p).sub(&N::one()), N::pow2(p - 1).add_small(0x5555)][k].clone();
        for half in [0u64, 1, 2] { for off in [-1i128, 0, 1] { for neg in [false, true] {
            // (2 m + half) / 2 * 2^e + off / d (scaled)
            let base = Q::from_z(Z::new(neg, m.shl(1).add_small(half as u32))).mul(&Q::pow2(e - 1)); let o = Q::new(Z::from_i128(off), Z::new(false, d.clone())).mul(&Q::pow2(e));
            out(&base.add(&o), cx);
        } } }
    }));
    let d: Vec<u128> = { let t = 1u128 << 127; let mut v = vec![t, t | 1, u128::MAX, t | (t >> 1)]; for k in [24u32, 53] { let sh = 128 - k; for m in [1u128 << (k - 1), (1 << k) - 1, (1 << (k - 1)) | 1, (1 << (k - 1)) | 2] { for lowb in [0u128, 1, (1 << (sh - 1)) - 1, 1 << (sh - 1), (1 << (sh - 1)) + 1, (1 << sh) - 1] { v.push((m << sh) | lowb); } } } v.sort(); v.dedup(); v };
    let es: Vec<i64> = (-1090..=1030).chain([-3000, 3000]).collect();
    s.push(Suite::list("float192", "192-bit floats at and between machine floats for every exponent", super::f192::floats(&d, &es), |a, cx| out192(&a, cx)));
    let far: Vec<i64> = { let mut v: Vec<i64> = (1100..=20_000i64).step_by(if th { 1 } else { 37 }).collect(); for k in 11..=46 { for d in [-2048i64, -1024, -129, -128, -127, -1, 0, 1, 127, 128, 129, 255, 256, 1024, 1150, 2047, 2048] { let e = (1i64 << k) + d; if e > 1100 { v.push(e); } } } v.into_iter().flat_map(|e| [e, -e]).collect() };
    s.push(Suite::list("float192-far", "192-bit floats with exponents to 2^46 beyond both formats, both signs: the infinity of the sign, or zero", super::f192::floats(&[1 << 127, u128::MAX, (1 << 127) | 0x5555], &far), |a, cx| { if a.d == 0 { return; } let x = a.f(); let ar = || format!("{a:?}");
        let ok = |f: f64, min: f64| if a.e > 0 { f == if a.neg { f64::NEG_INFINITY } else { f64::INFINITY } } else { f == 0.0 || f == if a.neg { -min } else { min } };
        if let Some(f) = cx.op("f32::from(F192)", ar, || f32::from(x)) { cx.check("f32::from(F192).far", ok(f as f64, f32::from_bits(1) as f64), || format!("f32::from({}) = {f:e}", ar())); }
        if let Some(f) = cx.op("f64::from(F192)", ar, || f64::from(x)) { cx.check("f64::from(F192).far", ok(f, f64::from_bits(1)), || format!("f64::from({}) = {f:e}", ar())); }
    }));
    s
}
