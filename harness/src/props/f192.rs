//! C22-C25 and the F192 part of C06: 192-bit floats.
use crate::engine::*;
use crate::real::Fx;
use crate::refm::*;
use crate::shapes::*;
use hmath::{Ratio, F192};
use std::cmp::Ordering;

/// model of one float: (-1)^neg * d * 2^(e-127), 2^127 <= d < 2^128; None = zero
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct M { pub neg: bool, pub d: u128, pub e: i64 }
pub const TOP: u128 = 1 << 127;
impl M {
    pub fn q(&self) -> Q { if self.d == 0 { return Q::zero(); } Q::from_z(Z::new(self.neg, N::from_u128(self.d))).mul(&Q::pow2(self.e - 127)) }
    pub fn f(&self) -> F192 { mk(self.neg, self.d, self.e) }
}
/// builds the float from an integer conversion, an exact power-of-two scaling and a sign change
pub fn mk(neg: bool, d: u128, e: i64) -> F192 {
    let x = F192::from(d); if d == 0 { return x; }
    let x = if e >= 127 { x.shl((e - 127) as u64) } else { x.shr((127 - e) as u64) };
    if neg { x.neg() } else { x }
}
/// exact value through the rational conversion, whose own correctness C23 decides
pub fn val(x: &F192) -> Q { let (d, dn, n, nn) = Ratio::from(x).into_raw(); Q { n: Z::new(nn != dn, N::from_limbs(&n)), d: N::from_limbs(&d) } }

pub fn log2f(q: &Q) -> f64 { if q.is_zero() { f64::NEG_INFINITY } else { let e = q.ilog2(); e as f64 + q.abs().mul(&Q::pow2(-e)).approx().log2() } }
/// |got - want| <= |want| * 2^-bits + 2^-floor, and same sign
pub fn close(cx: &mut Cx, key: &str, ar: &dyn Fn() -> String, got: &Q, want: &Q, bits: i64, floor: Option<i64>) {
    let d = got.sub(want).abs();
    if !want.is_zero() && floor.is_none() { measure(key, || log2f(&d) - log2f(want)); } else { measure(&format!("{key}(abs)"), || log2f(&d)); }
    let mut tol = want.abs().mul(&Q::pow2(-bits)); if let Some(f) = floor { tol = tol.add(&Q::pow2(-f)); }
    if tol.lt(&d) || (tol.lt(&want.abs()) && (got.n.neg != want.n.neg)) { cx.fail(&format!("{key}.value"), || format!("{key}({}) returned {:?} ~ {:e}, true value ~ {:e}, relative error 2^{:.1}", ar(), got, got.approx(), want.approx(), log2f(&d) - log2f(want))); }
    cx.transitions += 1;
}
fn digits(th: bool) -> Vec<u128> {
    let mut v: Vec<u128> = vec![0, 1, TOP - 1, 1 << 126, 2, TOP - 2, (1 << 63) - 1, 1 << 63, 1 << 64, (1 << 64) - 1, TOP - (1 << 64), TOP - (1 << 63), 0x5555_5555_5555_5555_5555_5555_5555_5555, 0x2aaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaab,
        0xffff_ffff, 1 << 32, (1 << 96) - 1, 1 << 95, 0x1e37_79b9_7f4a_7c15_85eb_ca6b_0123_4567, 0x6c8e_9cf5_7093_2bd5_d1b5_4a32_d192_ed03, 0x7fff_ffff_ffff_ffff_8000_0000_0000_0000];
    if th { for k in (0..127).step_by(9) { v.push(1 << k); v.push((1 << k) - 1); v.push(TOP - (1 << k)); } for k in 0..24usize { v.push(((mixlimb(k) as u128) << 96 | (mixlimb(k + 1) as u128) << 64 | (mixlimb(k + 2) as u128) << 32 | mixlimb(k + 3) as u128) & (TOP - 1)); } }
    v.sort(); v.dedup(); v.into_iter().map(|x| x | TOP).collect()
}
/// fractions with a single bit, a run of low ones and a single hole at every bit position
fn bitpos(step: usize) -> Vec<u128> { let mut v = vec![]; for k in (0..127).step_by(step) { v.push(TOP | (1 << k)); v.push(TOP | ((1u128 << k) - 1)); v.push(u128::MAX - (1 << k)); } v.sort(); v.dedup(); v }
/// one fraction per class of the 11 leading bits below the top one (the division and logarithm tables are indexed by them)
fn table_cells() -> Vec<u128> { (0..2048u128).map(|i| TOP | (i << 116) | [0u128, (1 << 116) - 1, 0x9_e377_9b97_f4a7_c158_5ebc_a6b0][(i % 3) as usize]).collect() }
/// all floats with critical fractions and the given exponents, both signs, plus zero
pub fn floats(ds: &[u128], es: &[i64]) -> Vec<M> {
    let mut o = vec![M { neg: false, d: 0, e: 0 }]; for &e in es { for &d in ds { for neg in [false, true] { o.push(M { neg, d, e }); } } } o
}
pub fn ints(k: i128) -> Vec<M> { (-k..=k).map(im).collect() }
pub fn im(x: i128) -> M { if x == 0 { return M { neg: false, d: 0, e: 0 }; } let u = x.unsigned_abs(); let lz = u.leading_zeros(); M { neg: x < 0, d: u << lz, e: 127 - lz as i64 } }

pub fn order_suites(th: bool) -> Vec<Suite> {
    let v = if th { floats(&digits(true), &[-(1 << 46), -(1 << 32), -3000, -128, -127, -1, 0, 1, 63, 126, 127, 128, 3000, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 46]) } else { floats(&digits(false), &[-(1 << 46), -(1 << 32), -3000, -127, -1, 0, 1, 64, 127, 128, 3000, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 46]) };
    let v: Vec<M> = v.into_iter().chain(ints(20)).collect();
    vec![Suite::pairs("float192", "all pairs of 192-bit floats over critical fractions, exponents and signs", v.clone(), v, |a, c, cx| {
        let (x, y) = (a.f(), c.f()); let o = fcmp(a, c); let ar = || format!("{a:?}, {c:?}");
        super::order::traits(&x, &y, o, &ar, cx);
    })]
}
fn fcmp(a: &M, c: &M) -> Ordering {
    let k = |m: &M| -> (i64, i64, u128) { (if m.d == 0 { 0 } else if m.neg { -1 } else { 1 }, m.e, m.d) };
    let (x, y) = (k(a), k(c)); if x.0 != y.0 { return x.0.cmp(&y.0); } if x.0 == 0 { return Ordering::Equal; }
    let o = (x.1, x.2).cmp(&(y.1, y.2)); if x.0 < 0 { o.reverse() } else { o }
}

const ULP: i64 = 124;
fn arith(a: &M, c: &M, cx: &mut Cx) {
    let (x, y) = (a.f(), c.f()); let (p, q) = (a.q(), c.q()); let ar = || format!("{a:?}, {c:?}");
    if let Some(g) = cx.op("add", ar, || val(&x.add(&y))) { close(cx, "add", &ar, &g, &p.add(&q), ULP, None); }
    if let Some(g) = cx.op("sub", ar, || val(&x.sub(&y))) { close(cx, "sub", &ar, &g, &p.sub(&q), ULP, None); }
    if let Some(g) = cx.op("mul", ar, || val(&x.mul(&y))) { close(cx, "mul", &ar, &g, &p.mul(&q), ULP, None); }
    if c.d != 0 { if let Some(g) = cx.op("div", ar, || val(&x.div(&y))) { close(cx, "div", &ar, &g, &p.div(&q), ULP, None); } }
    else { cx.refuses("div", ar, || x.div(&y)); }
}
fn small(a: i128, c: i128, cx: &mut Cx) {
    let (x, y) = (F192::from(a), F192::from(c)); let ar = || format!("{a}, {c}");
    cx.eq("add-int", ar, || x.add(&y), &im(a + c).f());
    cx.eq("sub-int", ar, || x.sub(&y), &im(a - c).f());
    cx.eq("mul-int", ar, || x.mul(&y), &im(a * c).f());
    if c != 0 && a % c == 0 { cx.eq("div-int", ar, || x.div(&y), &im(a / c).f()); }
    if let Ok(w) = i32::try_from(c) { cx.eq("mul_i32-int", ar, || x.mul_i32(w), &im(a * c).f()); if c != 0 && a % c == 0 { cx.eq("div_i32-int", ar, || x.div_i32(w), &im(a / c).f()); } }
}
fn wordop(a: &M, w: i32, cx: &mut Cx) {
    let x = a.f(); let p = a.q(); let k = Q::from_i128(w as i128); let ar = || format!("{a:?}, {w}");
    if let Some(g) = cx.op("mul_i32", ar, || val(&x.mul_i32(w))) { close(cx, "mul_i32", &ar, &g, &p.mul(&k), ULP, None); }
    if w != 0 { if let Some(g) = cx.op("div_i32", ar, || val(&x.div_i32(w))) { close(cx, "div_i32", &ar, &g, &p.div(&k), ULP, None); } } else { cx.refuses("div_i32", ar, || x.div_i32(0)); }
}
fn unary(a: &M, cx: &mut Cx) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?}");
    cx.eq("neg", ar, || val(&x.neg()), &p.negate()); cx.eq("abs", ar, || val(&x.abs()), &p.abs());
    cx.eq("neg-neg", ar, || x.neg().neg() == x, &true);
    for k in [0u64, 1, 2, 31, 32, 63, 64, 127, 128, 200, 1000] { let ar = || format!("{a:?}, {k}");
        cx.eq("shl", ar, || val(&x.shl(k)), &p.mul(&Q::pow2(k as i64))); cx.eq("shr", ar, || val(&x.shr(k)), &p.mul(&Q::pow2(-(k as i64)))); }
    if a.d != 0 {
        // next value away from zero: one unit of the last binary digit
        let st = Q::pow2(a.e - 127); let st = if a.neg { p.sub(&st) } else { p.add(&st) };
        cx.eq("step_epsilon", ar, || val(&x.step_epsilon()), &st);
    }
}

// ---- exponents far beyond what a rational can hold: results are brought back by exact power-of-two scaling ----
/// exponents around every machine-word border up to 2^46
fn far_exps() -> Vec<i64> { let mut v = vec![]; for k in [13u32, 16, 20, 23, 24, 30, 31, 32, 33, 38, 39, 40, 45, 46] { for d in [-1i64, 0, 1] { v.push((1 << k) + d); v.push(-(1i64 << k) + d); } } v }
fn unscale(x: &F192, k: i64) -> F192 { if k >= 0 { x.shr(k as u64) } else { x.shl(k.unsigned_abs()) } }
fn at(m: &M, k: i64) -> F192 { M { neg: m.neg, d: m.d, e: if m.d == 0 { 0 } else { m.e + k } }.f() }
fn arith_far(a: &M, c: &M, ea: i64, ec: i64, cx: &mut Cx) {
    let (x, y) = (at(a, ea), at(c, ec)); let (p, q) = (a.q(), c.q()); let ar = || format!("{a:?} * 2^{ea}, {c:?} * 2^{ec}");
    let (pa, qa, top) = if (ea - ec).abs() <= 400 { (p.mul(&Q::pow2(ea - ea.max(ec))), q.mul(&Q::pow2(ec - ea.max(ec))), ea.max(ec)) } else if ea > ec { (p.clone(), Q::zero(), ea) } else { (Q::zero(), q.clone(), ec) };
    if let Some(g) = cx.op("add", ar, || val(&unscale(&x.add(&y), top))) { close(cx, "add", &ar, &g, &pa.add(&qa), ULP, None); }
    if let Some(g) = cx.op("sub", ar, || val(&unscale(&x.sub(&y), top))) { close(cx, "sub", &ar, &g, &pa.sub(&qa), ULP, None); }
    if let Some(g) = cx.op("mul", ar, || val(&unscale(&x.mul(&y), ea + ec))) { close(cx, "mul", &ar, &g, &p.mul(&q), ULP, None); }
    if let Some(g) = cx.op("div", ar, || val(&unscale(&x.div(&y), ea - ec))) { close(cx, "div", &ar, &g, &p.div(&q), ULP, None); }
}
fn unary_far(a: &M, e: i64, cx: &mut Cx) {
    let x = at(a, e); let p = a.q(); let ar = || format!("{a:?} * 2^{e}");
    cx.eq("neg", ar, || val(&unscale(&x.neg(), e)), &p.negate()); cx.eq("abs", ar, || val(&unscale(&x.abs(), e)), &p.abs());
    let st = Q::pow2(a.e - 127); let st = if a.neg { p.sub(&st) } else { p.add(&st) }; cx.eq("step_epsilon", ar, || val(&unscale(&x.step_epsilon(), e)), &st);
    for w in [1i32, -1, 2, 3, -7, 10, 65536, 1_000_000_007, i32::MAX, i32::MIN] { let k = Q::from_i128(w as i128); let ar = || format!("{a:?} * 2^{e}, {w}");
        if let Some(g) = cx.op("mul_i32", ar, || val(&unscale(&x.mul_i32(w), e))) { close(cx, "mul_i32", &ar, &g, &p.mul(&k), ULP, None); }
        if let Some(g) = cx.op("div_i32", ar, || val(&unscale(&x.div_i32(w), e))) { close(cx, "div_i32", &ar, &g, &p.div(&k), ULP, None); } }
}
fn round_far(a: &M, e: i64, cx: &mut Cx) {
    let x = at(a, e); let ar = || format!("{a:?} * 2^{e}"); let k = |v: i128| im(v).f();
    let (fl, ce, tr, fr, int) = if e > 0 { (x, x, x, k(0), true) } else if a.neg { (k(-1), k(0), k(0), x, false) } else { (k(0), k(1), k(0), x, false) };
    cx.eq("floor", ar, || x.floor(), &fl); cx.eq("ceil", ar, || x.ceil(), &ce); cx.eq("truncate", ar, || x.truncate(), &tr); cx.eq("round", ar, || x.round(), &tr); cx.eq("frac", ar, || x.frac(), &fr); cx.eq("is_integer", ar, || x.is_integer(), &int);
    let w = if e > 0 { None } else { Some(0i128) };
    cx.eq("to_i*", ar, || [i8::try_from(x).ok().map(i128::from), i16::try_from(x).ok().map(i128::from), i32::try_from(x).ok().map(i128::from), i64::try_from(x).ok().map(i128::from), i128::try_from(x).ok()], &[w; 5]);
    if !a.neg { let w = w.map(|_| 0u128); cx.eq("to_u*", ar, || [u8::try_from(x).ok().map(u128::from), u16::try_from(x).ok().map(u128::from), u32::try_from(x).ok().map(u128::from), u64::try_from(x).ok().map(u128::from), u128::try_from(x).ok()], &[w; 5]); }
    else if e > 0 { cx.eq("to_u*", ar, || u8::try_from(x).is_err() && u64::try_from(x).is_err() && u128::try_from(x).is_err(), &true); }
}
/// 10^k as (mantissa, binary exponent)
fn pow10_far(k: i64) -> (Q, i64) { let f = fx(); let (m, e) = f.exp(&f.ln_q(&Q::from_i128(10)).mul(&Z::from_i128(k as i128))); (f.to_q(&m), e) }
fn text_far(a: &M, e: i64, cx: &mut Cx) {
    let x = at(a, e); let ar = || format!("{a:?} * 2^{e}");
    let Some(t) = cx.op("to_string", ar, || x.to_string()) else { return };
    let Some((m, k)) = t.split_once('e').and_then(|(m, k)| Some((dec_value(m)?, k.parse::<i64>().ok()?))) else { cx.fail("to_string.form", || format!("to_string({}) = {t:?}", ar())); return };
    let (pm, pe) = pow10_far(k); let g = m.mul(&pm); let w = a.q(); // g * 2^(pe - e) must be near w
    if (pe - e).abs() > 300 { cx.fail("to_string.value", || format!("to_string({}) = {t:?}: off by 2^{}", ar(), pe - e)); return; }
    let dd = g.mul(&Q::pow2(pe - e)).sub(&w).abs(); measure("to_string", || log2f(&dd) - log2f(&w)); cx.transitions += 1;
    if w.abs().mul(&Q::frac(11, 10).mul(&Q::pow10(-18))).lt(&dd) { cx.fail("to_string.value", || format!("to_string({}) = {t:?}, relative error 2^{:.1}", ar(), log2f(&dd) - log2f(&w))); }
}
fn parse_far(mant: &str, k: i64, cx: &mut Cx) {
    let t = format!("{mant}e{k}"); let ar = || t.clone(); let m = dec_value(mant).unwrap(); let (pm, pe) = pow10_far(k);
    if let Some(g) = cx.op("parse", ar, || t.parse::<F192>().map(|x| val(&unscale(&x, pe))).ok()) {
        let Some(g) = g else { cx.fail("parse.accept", || format!("parse({t:?}) was refused")); return };
        // the power of ten is built by about log2(k) squarings, each of which doubles the relative error
        let lose = (64 - k.unsigned_abs().leading_zeros() as i64 - 12).max(0); close(cx, "parse-far", &ar, &g, &m.mul(&pm), 116 - lose, None);
    }
}
fn logs_far(a: &M, e: i64, cx: &mut Cx) {
    let x = at(a, e); let ar = || format!("{a:?} * 2^{e}"); let p = a.q(); let f = fx();
    cx.eq("ilog2", ar, || val(&x.ilog2()), &Q::from_i128(p.ilog2() as i128 + e as i128));
    let l = f.log2_q(&p).add(&f.int(e as i128));
    if let Some(g) = cx.op("log2", ar, || val(&x.log2())) { close(cx, "log2", &ar, &g, &f.to_q(&l), LOGB, None); }
    if let Some(g) = cx.op("ln", ar, || val(&x.ln())) { close(cx, "ln", &ar, &g, &f.to_q(&f.mul(&l, &f.ln2())), LOGB, None); }
    let h = e.div_euclid(2) ; let n = p.mul(&Q::pow2(e.rem_euclid(2)));
    if let Some(g) = cx.op("sqrt", ar, || val(&unscale(&x.sqrt(), h))) { let j = n.ilog2().div_euclid(2); let y = n.mul(&Q::pow2(-2 * j)); close(cx, "sqrt", &ar, &g, &f.to_q(&f.sqrt(&f.q(&y))).mul(&Q::pow2(j)), 122, None); }
}
pub fn c22(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let d = digits(th);
    let ref_d: Vec<u128> = d.clone();
    let far: Vec<i64> = if th { vec![-2000, -300, -130, -128, -127, -126, -65, -64, -2, -1, 0, 1, 2, 63, 64, 65, 126, 127, 128, 129, 300, 2000] } else { vec![-300, -128, -64, -1, 0, 1, 64, 127, 128, 300] };
    let a = floats(&ref_d, &[0]); let c = floats(&d, &far);
    s.push(Suite::pairs("arithmetic", "critical fractions at exponent 0 x critical fractions at every critical exponent, both signs", a.clone(), c.clone(), arith));
    let nearx: Vec<i64> = if th { (-132..=132).collect() } else { (-131..=131).step_by(2).chain([-128, -127, -126, 126, 128]).collect() };
    let few: Vec<u128> = [0u128, 1, TOP - 1, 0x5555_5555_5555_5555_5555_5555_5555_5555, 0x6c8e_9cf5_7093_2bd5_d1b5_4a32_d192_ed03].iter().map(|x| x | TOP).collect();
    s.push(Suite::pairs("alignment", "every exponent distance -132..=132 with few fractions", floats(&few, &[0, 127]), floats(&few, &nearx), arith));
    let k = if th { 1500 } else { 400 };
    s.push(Suite::pairs("small-integers", "all integer pairs within the bound: exact results", (-k..=k).collect::<Vec<i128>>(), (-k..=k).collect::<Vec<i128>>(), |a, c, cx| small(*a, *c, cx)));
    let mut w: Vec<i128> = vec![]; for k in [20u32, 30, 31, 32, 33, 40, 47, 48, 53, 55, 60, 62] { for d in -2i128..=2 { w.push((1 << k) + d); w.push(-(1 << k) + d); } } for k in 1..19u32 { for d in -1..=1 { w.push(10i128.pow(k) + d); } } w.extend(iwords().iter().map(|x| *x as i128)); w.sort(); w.dedup();
    s.push(Suite::pairs("wide-integers", "all pairs of critical integers up to 62 bits: exact results", w.clone(), w, |a, c, cx| small(*a, *c, cx)));
    let mut prods = vec![]; // quotient * divisor as the dividend, exact division
    for a in iwords() { for c in iwords() { if c != 0 { prods.push((a as i128 * c as i128, c as i128)); } } }
    s.push(Suite::list("exact-division", "(a*c)/c for all critical words", prods, |(a, c), cx| small(a, c, cx)));
    s.push(Suite::pairs("word-operands", "critical floats x critical words including the most negative", floats(&digits(true), &[-200, -1, 0, 1, 127, 500]), iwords(), |a, w, cx| wordop(a, *w, cx)));
    // fractions placed so that a product with w lands on a power of two boundary
    let mut bd = vec![]; for w in iwords() { if w.unsigned_abs() < 2 { continue; } let m = w.unsigned_abs() as u128; let lz = m.leading_zeros(); let base = (u128::MAX / m) << 0; let lzb = base.leading_zeros(); let top = base << lzb; let _ = lz; for dd in 0..(if th { 64u128 } else { 12 }) { for fill in [0u128, 0xffff_ffff, 0x8000_0000] { let v = (top & !0xffff_ffffu128 | fill).wrapping_add(dd << 32).wrapping_sub(6 << 32); if v >= TOP { bd.push((M { neg: false, d: v, e: 0 }, w)); } let v = top.wrapping_add(dd).wrapping_sub(6); if v >= TOP { bd.push((M { neg: true, d: v, e: 3 }, w)); } } } }
    s.push(Suite::list("word-boundary", "fractions around 2^k/w, so that the product with w crosses a power of two", bd, |(a, w), cx| wordop(&a, w, cx)));
    // products and quotients that land next to a power of two
    let mut pr = vec![]; for &dd in &d { for j in 0..(if th { 12u128 } else { 6 }) { let inv = Q::from_z(Z::one().shl(255)).div(&Q::from_z(Z::new(false, N::from_u128(dd)))).trunc(); if let Some(v) = inv.m.to_u128() { for v in [v.wrapping_add(j), v.wrapping_sub(j)] { if v >= TOP { pr.push((M { neg: false, d: dd, e: 0 }, M { neg: j % 2 == 1, d: v, e: 0 })); } } } for v in [dd.wrapping_add(j), dd.wrapping_sub(j)] { if v >= TOP { pr.push((M { neg: false, d: dd, e: 5 }, M { neg: j % 2 == 0, d: v, e: 5 })); pr.push((M { neg: false, d: dd, e: 5 }, M { neg: true, d: v, e: 4 })); } } } }
    s.push(Suite::list("boundary", "operands whose product, quotient or sum lands next to a power of two, and near-cancelling differences", pr, |(a, c), cx| { arith(&a, &c, cx); arith(&c, &a, cx); }));
    s.push(Suite::pairs("table-cells", "every class of the 11 leading fraction bits as dividend and as divisor, against critical fractions", table_cells(), if th { digits(true) } else { few.iter().cloned().chain([TOP | (1 << 126), u128::MAX - (1 << 120), TOP | (3 << 121)]).collect() }, |a, c, cx| { let (a, c) = (M { neg: false, d: *a, e: 0 }, M { neg: true, d: *c, e: 5 }); arith(&a, &c, cx); arith(&c, &a, cx); }));
    let bp = bitpos(1); let bq = bitpos(if th { 1 } else { 11 });
    s.push(Suite::pairs("bit-positions", "single bits, runs and holes at every bit position x the same, equal exponents and a shift", bp, bq, |a, c, cx| { let a = M { neg: false, d: *a, e: 0 }; for (neg, e) in [(false, 0i64), (true, 0), (true, 1), (false, -17)] { arith(&a, &M { neg, d: *c, e }, cx); } }));
    let fs: Vec<M> = floats(&few, &[0, 3]).into_iter().filter(|m| m.d != 0).collect(); let fe = far_exps(); let mut fp = vec![]; for &e in &fe { for g in if th { fe.clone() } else { vec![e, -e, 0, e + 1, e - 1, e + 126, e - 127, e + 128, e - 129, e + 255, e - 256, e + 257, e - 258, 1 << 46, -(1 << 46), 1 << 20] } { if (e + g).abs() <= 3 << 46 { fp.push((e, g)); } } }
    s.push(Suite::pairs("far-exponents", "all pairs of few fractions at exponents around every word border to 2^46 (distances included)", fp, { let mut v = vec![]; for a in &fs { for c in fs.iter().step_by(if th { 1 } else { 3 }) { v.push((a.clone(), c.clone())); } } v }, |(e, g), (a, c), cx| arith_far(a, c, *e, *g, cx)));
    s.push(Suite::pairs("far-exponents-unary", "sign, stepping and word operands at exponents around every word border to 2^46", fs, fe, |a, e, cx| unary_far(a, *e, cx)));
    s.push(Suite::list("unary", "negation, absolute value, power-of-two scaling and stepping", floats(&digits(true), &[-2000, -128, -127, -1, 0, 1, 126, 127, 128, 2000]), |a, cx| unary(&a, cx)));
    s
}

fn rounding(a: &M, cx: &mut Cx) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?} ~ {:e}", p.approx());
    let iq = |z: Z| Q::from_z(z);
    let mut p1 = |key: &str, got: Option<Q>, want: Q, cx: &mut Cx| { if let Some(g) = got { // results are integers below 2^128: representable, so exact
        if g != want { cx.fail(&format!("{key}.value"), || format!("{key}({}) returned {:?}, expected {:?}", ar(), g, want)); } } };
    let g = cx.op("truncate", ar, || val(&x.truncate())); p1("truncate", g, iq(p.trunc()), cx);
    let fl = p.floor(); let repr = |z: &Z| z.m.bits() <= 128;
    if repr(&fl) { let g = cx.op("floor", ar, || val(&x.floor())); p1("floor", g, iq(fl.clone()), cx); }
    let ce = p.negate().floor().negate(); if repr(&ce) { let g = cx.op("ceil", ar, || val(&x.ceil())); p1("ceil", g, iq(ce), cx); }
    let ro = p.round(); if repr(&ro) { let g = cx.op("round", ar, || val(&x.round())); p1("round", g, iq(ro), cx); }
    let g = cx.op("frac", ar, || val(&x.frac())); p1("frac", g, p.sub(&iq(p.trunc())), cx);
    cx.eq("is_integer", ar, || x.is_integer(), &p.is_int());
}
macro_rules! to_ints { ($cx:ident, $x:expr, $t:expr, $ar:expr, $($ty:ty),*) => { $( {
    let want: Result<$ty, ()> = $t.to_i128().ok_or(()).and_then(|v| <$ty>::try_from(v).map_err(|_| ())).or_else(|_| if $t.neg { Err(()) } else { $t.m.to_u128().ok_or(()).and_then(|v| <$ty>::try_from(v).map_err(|_| ())) });
    $cx.eq(concat!("to_", stringify!($ty)), $ar, || <$ty>::try_from($x), &want);
} )* } }
fn back(a: &M, cx: &mut Cx) {
    let x = a.f(); let p = a.q(); let t = p.trunc(); let ar = || format!("{a:?} ~ {:e}", p.approx());
    // a negative value that truncates to zero: to unsigned either 0 or an error is acceptable
    if a.neg && t.is_zero() { to_ints!(cx, x, t, ar, i8, i16, i32, i64, i128, isize); cx.eq("to_u*", ar, || [u8::try_from(x).map(u128::from), u16::try_from(x).map(u128::from), u32::try_from(x).map(u128::from), u64::try_from(x).map(u128::from), u128::try_from(x)].iter().all(|r| *r == Ok(0) || *r == Err(())), &true); }
    else { to_ints!(cx, x, t, ar, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize); }
}
fn ratio_rt(a: &M, cx: &mut Cx) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?}");
    cx.eq("Ratio::from(&F192)", ar, || Ratio::from(&x).rw(), &p.rw());
    cx.eq("Ratio::from(F192)", ar, || Ratio::from(x).rw(), &p.rw());
    cx.eq("F192::from(&Ratio)", ar, || F192::from(&r(&p)), &x);
    cx.eq("F192::from(Ratio)", ar, || F192::from(r(&p)), &x);
}
macro_rules! from_ints { ($cx:ident, $v:expr, $($ty:ty),*) => { $( if let Ok(k) = <$ty>::try_from($v) { let m = im($v as i128); $cx.eq(concat!("from_", stringify!($ty)), || format!("{}", k), || (val(&F192::from(k)), <$ty>::try_from(F192::from(k)), F192::from(k) == m.f()), &(m.q(), Ok(k), true)); } )* } }
pub fn c23(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let d = digits(true);
    let es: Vec<i64> = if th { (-140..=140).chain([-5000, -1000, 1000, 5000]).collect() } else { (-3..=131).chain([-1000, -200, -130, -129, -128, -127, -126, -64, 200, 1000]).collect() };
    let fl = floats(&d, &es);
    s.push(Suite::list("rounding", "floor, ceiling, truncation, rounding, fraction, integer test for every critical fraction and exponent", fl.clone(), |a, cx| rounding(&a, cx)));
    s.push(Suite::list("rounding-bits", "single bits, runs and holes at every bit position, every exponent -2..=130: rounding, integer conversion, rational round trip", floats(&bitpos(1), &(-2..=130).step_by(if th { 1 } else { 3 }).collect::<Vec<i64>>()), |a, cx| { rounding(&a, cx); back(&a, cx); ratio_rt(&a, cx); }));
    let k = if th { 4000i128 } else { 600 };
    s.push(Suite::new("rounding-grid", "every n/2^j, |n| to the bound, j = 0..=6", (2 * k as u64 + 1) * 7, move |i| (i as i128 / 7 - k, (i % 7) as i64), |(n, j), cx| { let mut m = im(n); m.e -= j; if n == 0 { m.e = 0; } rounding(&m, cx); back(&m, cx); ratio_rt(&m, cx); }));
    // integer plus or minus a tiny amount, and halves a hair off
    let mut hair = vec![]; for e in 0..=126i64 { for k in 0..=4u128 { for (bs, half) in [(TOP, false), (TOP | (1 << (126 - e.min(126)) as u32), true), (u128::MAX, false)] { let _ = half; for v in [bs.wrapping_add(k), bs.wrapping_sub(k)] { if v >= TOP { for neg in [false, true] { hair.push(M { neg, d: v, e }); } } } } } }
    s.push(Suite::list("rounding-hair", "integers and half-integers plus or minus a few units of the last digit, at every magnitude", hair.clone(), |a, cx| { rounding(&a, cx); back(&a, cx); ratio_rt(&a, cx); }));
    s.push(Suite::list("to-integers", "conversion to every machine integer type", fl.clone(), |a, cx| back(&a, cx)));
    let mut iv: Vec<i128> = (-300..=300).collect(); for k in 0..127u32 { for dd in -2i128..=2 { iv.push((1i128 << k).wrapping_add(dd)); iv.push((-(1i128 << k)).wrapping_add(dd)); } } iv.extend([i128::MAX, i128::MAX - 1, i128::MIN, i128::MIN + 1, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128]); iv.sort(); iv.dedup();
    s.push(Suite::list("from-integers", "every integer within 2 of a power of two and all small ones, from and back to every type that holds it", iv, |v, cx| { from_ints!(cx, v, u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128); }));
    let mut uv: Vec<u128> = vec![]; for k in 100..128u32 { for dd in 0..3u128 { uv.push((1u128 << k) + dd); uv.push((1u128 << k) - 1 - dd); } } for dd in 0..64 { uv.push(u128::MAX - dd); }
    s.push(Suite::list("from-u128", "top of the 128-bit range", uv, |v, cx| { let q = Q::from_z(Z::new(false, N::from_u128(v))); cx.eq("from_u128", || format!("{v}"), || (val(&F192::from(v)), u128::try_from(F192::from(v))), &(q, Ok(v))); }));
    s.push(Suite::list("ratio-round-trip", "float to rational exact, and back lossless", floats(&d, &if th { vec![-3000, -700, -200, -128, -127, -126, -64, -1, 0, 1, 63, 126, 127, 128, 200, 700, 3000] } else { vec![-700, -128, -127, -126, -1, 0, 1, 64, 127, 128, 700] }), |a, cx| ratio_rt(&a, cx)));
    s.push(Suite::list("to-ratio-far", "float to rational exact at exponents around 2^12..2^17, both signs of the exponent", { let mut v = vec![]; for k in 12..=(if th { 17 } else { 16 }) { for d in [-128i64, -127, -126, -1, 0, 1, 126, 127, 128, 129] { for sg in [1i64, -1] { for m in [(false, TOP), (true, TOP | 1), (false, TOP | (1 << 64)), (true, u128::MAX)] { v.push((m.0, m.1, sg * ((1i64 << k) + d))); } } } } v }, |(neg, d, e), cx| {
        let m = M { neg, d, e }; let x = m.f(); let ar = || format!("{m:?}"); let (t, k) = (d.trailing_zeros() as i64, e - 127 + d.trailing_zeros() as i64);
        let w = if k >= 0 { Q { n: Z::new(neg, N::from_u128(d >> t).shl(k as u64)), d: N::one() } } else { Q { n: Z::new(neg, N::from_u128(d >> t)), d: N::pow2((-k) as u64) } };
        cx.eq("Ratio::from(&F192)", ar, || Ratio::from(&x).rw(), &w.rw()); }));
    s.push(Suite::pairs("far-exponents", "rounding and integer conversion at exponents around every word border to 2^46", floats(&bitpos(if th { 1 } else { 9 }), &[0]).into_iter().filter(|m| m.d != 0).collect(), far_exps(), |a, e, cx| round_far(a, *e, cx)));
    // arbitrary rationals: within one unit
    let mut qs = super::order::fracs(if th { 60 } else { 25 }, if th { 40 } else { 20 }); qs.extend(super::order::crit_q(if th { A4 } else { A3 }, 3, 3));
    for k in [127i64, 128, 129, 200] { for dd in -40i128..=40 { for sh in [0i64, 1, 2, 5, 6, 40] { let v = Q::pow2(k).add(&Q::frac(dd, 1).mul(&Q::pow2(k - 128 - sh))); qs.push(v.clone()); qs.push(v.negate()); } } }
    s.push(Suite::list("from-ratio-lengths", "fractions in which a part has every length to 8 limbs, and both parts to 24: within one unit of the last digit", { let mut v = qevery(8); for l in 1..=24usize { for (p, q) in [(l, l), (l + 1, l), (l, l + 1), (l + 3, l)] { v.push(Q::new(Z::new(l % 2 == 0, long(p, MAX, Fill::Mix, 7)), Z::new(false, long(q, 1, Fill::MixB, 6)))); } } v }, |q, cx| {
        let ar = || format!("{q:?}"); if let Some(g) = cx.op("F192::from(&Ratio)", ar, || val(&F192::from(&r(&q)))) { close(cx, "F192::from(&Ratio)", &ar, &g, &q, 127, None); } }));
    s.push(Suite::list("from-ratio", "every small fraction, critical multi-limb fraction and value around the rounding boundary: within one unit of the last digit", dedup_q(qs), |q, cx| {
        let ar = || format!("{q:?}"); if let Some(g) = cx.op("F192::from(&Ratio)", ar, || val(&F192::from(&r(&q)))) { close(cx, "F192::from(&Ratio)", &ar, &g, &q, 127, None); } }));
    s
}

// ---- text ----
fn parse_case(t: &str, want: &Option<Q>, cx: &mut Cx) {
    if let Some(g) = cx.op("parse", || format!("{t:?}"), || t.parse::<F192>().map(|x| val(&x)).ok()) {
        match (&g, want) {
            (None, None) => { cx.hit("rejected"); }
            (Some(g), Some(w)) => { cx.hit("accepted"); close(cx, "parse", &|| format!("{t:?}"), g, w, 116, None); }
            _ => cx.fail("parse.accept", || format!("parse({t:?}) returned {g:?}, expected {want:?}")),
        }
    }
}
/// reference reading of a float literal; None = not a literal. Forms whose status is undocumented yield Err.
fn lit(t: &str) -> Result<Option<Q>, ()> {
    let (neg, u) = match t.strip_prefix('-') { Some(r) => (true, r), None => (false, t) };
    let sg = |q: Q| if neg { q.negate() } else { q };
    if u.is_empty() { return Ok(None); }
    for (p, rdx) in [("0x", 16), ("0X", 16), ("0o", 8), ("0O", 8), ("0b", 2), ("0B", 2)] { if let Some(d) = u.strip_prefix(p) {
        if d.chars().any(|c| c != '_' && c.to_digit(rdx).is_none()) { return Ok(None); }
        let d: String = d.chars().filter(|c| *c != '_').collect(); if d.is_empty() { return Ok(None); }
        return Ok(Some(sg(Q::from_z(Z::new(false, N::from_digits(&d, rdx)))))); } }
    let (m, e) = match u.find(|c| c == 'e' || c == 'E') { Some(i) => (&u[..i], Some(&u[i + 1..])), None => (u, None) };
    let (ip, fp) = match m.find('.') { Some(i) => (&m[..i], Some(&m[i + 1..])), None => (m, None) };
    if !ip.starts_with(|c: char| c.is_ascii_digit()) || ip.chars().any(|c| c != '_' && !c.is_ascii_digit()) { return Ok(None); }
    if ip.starts_with('0') && ip.len() > 1 { return if ip.chars().all(|c| c == '0' || c == '_') || true { Err(()) } else { Ok(None) }; } // leading zeros: undocumented for this type
    if let Some(f) = fp { if f.chars().any(|c| c != '_' && !c.is_ascii_digit()) { return Ok(None); } if f.is_empty() || f.starts_with('_') || f.ends_with('_') { return Err(()); } }
    if ip.ends_with('_') && (fp.is_some() || e.is_some()) { return Err(()); }
    let ev: i64 = match e { None => 0, Some(x) => { let (n, d) = match x.strip_prefix('-') { Some(r) => (true, r), None => (false, x) }; if d.starts_with('+') || d.contains('_') { return Err(()); } if d.is_empty() || d.chars().any(|c| !c.is_ascii_digit()) { return Ok(None); } let v: i64 = d.parse().map_err(|_| ())?; if n { -v } else { v } } };
    let ds: String = ip.chars().chain(fp.unwrap_or("").chars()).filter(|c| *c != '_').collect(); let fl = fp.unwrap_or("").chars().filter(|c| *c != '_').count() as i64;
    Ok(Some(sg(Q::from_z(Z::new(false, N::from_digits(&ds, 10))).mul(&Q::pow10(ev - fl)))))
}
fn dec_value(t: &str) -> Option<Q> { lit(t).ok().flatten() }
fn render(a: &M, cx: &mut Cx) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?} ~ {:e}", p.approx());
    if let Some(t) = cx.op("to_string", ar, || (x.to_string(), x.to_approx_string())) {
        if t.0 != t.1 { cx.fail("to_string.agree", || format!("Display and to_approx_string differ on {}: {:?}", ar(), t)); }
        match dec_value(&t.0) { None => cx.fail("to_string.form", || format!("to_string({}) = {:?} is not a decimal literal", ar(), t.0)),
            Some(v) => {
                // 19 significant digits, except that a leading 0.000... form is cut at 22 characters
                let cut = t.0.trim_start_matches('-').starts_with("0.") ;
                let tol = p.abs().mul(&Q::frac(11, 10).mul(&Q::pow10(-18))).add(&if cut { Q::pow10(-20) } else { Q::zero() });
                let dd = v.sub(&p).abs(); if !p.is_zero() { measure("to_string", || log2f(&dd) - log2f(&p)); }
                if tol.lt(&dd) || (!v.is_zero() && v.n.neg != p.n.neg) || (v.is_zero() != p.is_zero()) { cx.fail("to_string.value", || format!("to_string({}) = {:?}, relative error 2^{:.1}", ar(), t.0, log2f(&dd) - log2f(&p))); }
                if let Some(b) = cx.op("parse-back", || t.0.clone(), || t.0.parse::<F192>().map(|y| y.to_string())) { if b.as_ref() != Ok(&t.0) { cx.hit("text not a fixed point"); } }
            } }
    }
}
/// 62^10 * 31: the mantissas of the 13-character code are the integers from here to its double
const C13B: u128 = 26018280341918546944;
fn code(a: &M, cx: &mut Cx) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?} ~ {:e}", p.approx());
    if let Some(c) = cx.op("into_code13", ar, || x.into_code13()) {
        match c {
            Ok(c) => {
                cx.hit("encoded");
                let form = !c.is_empty() && c.len() <= 13 && c.iter().all(|b| b.is_ascii_alphanumeric());
                if !form { cx.fail("into_code13.form", || format!("into_code13({}) = {:?}", ar(), c)); return; }
                if let Some(Ok(y)) = cx.op("from_code13", || format!("{c:?}"), || F192::from_code13(&c)) {
                    let g = val(&y);
                    if a.e < -1920 && g.is_zero() { cx.hit("underflow"); return; }
                    close(cx, "code13", &ar, &g, &p, 62, None);
                    // decoding then encoding is stable
                    cx.eq("code13-stable", ar, || y.into_code13().ok() == Some(c.clone()), &true);
                } else { cx.fail("from_code13.reject", || format!("from_code13({:?}) refused its own code of {}", c, ar())); }
            }
            Err(_) => { cx.hit("refused"); if a.e < 1923 || (a.e == 1923 && a.d < (C13B - 1) << 63) { cx.fail("into_code13.reject", || format!("into_code13({}) refused", ar())); } }
        }
        if a.e > 2100 { cx.eq("into_code13-overflow", ar, || x.into_code13().is_err(), &true); }
    }
}
pub fn c24(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    // all strings over a token alphabet
    let toks: &[&str] = &["0", "1", "9", "-", ".", "e", "x", "_", "b", "o", "E", "A", "+", " ", "é"];
    let depth = if th { 6u32 } else { 5 };
    let k = toks.len() as u64; let mut tot = 0; let mut starts = vec![]; for l in 0..=depth { starts.push(tot); tot += k.pow(l); }
    s.push(Suite::new("all-texts", "every string of up to 5 (6) tokens over digits, sign, point, exponent, radix letters, underscore, junk", tot, move |i| { let mut l = 0; while l + 1 < starts.len() && starts[l + 1] <= i { l += 1; } let mut x = i - starts[l]; let mut t = String::new(); for _ in 0..l { t.push_str(toks[(x % k) as usize]); x /= k; } t }, |t, cx| {
        match lit(&t) { Ok(w) => parse_case(&t, &w, cx), Err(()) => { cx.op("parse", || format!("{t:?}"), || { let _ = t.parse::<F192>(); }); cx.hit("undocumented form, only panic-freedom decided"); } } }));
    // structured literals
    let mut ls = vec![]; let mant = ["1", "7", "12", "999", "1000001", "123456789", "1.5", "0.1", "0.001", "3.14159265358979323846264338327950288419716939937510", "12345678901234567890123456789012345678901234567890", "99999999999999999999999999999999999999999", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "0.000000000000000000000000000000000000000000001", "100000000000000000000000000000000000000000000", "1_000.000_1", "0"];
    for m in mant { for sg in ["", "-"] { ls.push(format!("{sg}{m}")); for e in [-4000i64, -1000, -309, -100, -40, -39, -38, -37, -36, -20, -7, -2, -1, 0, 1, 2, 6, 20, 36, 37, 38, 39, 40, 73, 74, 75, 100, 309, 1000, 4000] { ls.push(format!("{sg}{m}e{e}")); ls.push(format!("{sg}{m}E{e}")); } } }
    for n in 0..(if th { 20000 } else { 2000 }) { ls.push(n.to_string()); ls.push(format!("-0.{n:05}")); ls.push(format!("{n}e-{}", n % 60)); }
    for v in [0u128, 1, 7, 8, 15, 16, 255, 0xffff_ffff, 1 << 56, (1 << 57) + 1, u64::MAX as u128, 1 << 64, u128::MAX] { for sg in ["", "-"] { ls.push(format!("{sg}0x{v:x}")); ls.push(format!("{sg}0X{v:X}")); ls.push(format!("{sg}0b{v:b}")); ls.push(format!("{sg}0o{v:o}")); ls.push(format!("{sg}0B{v:b}")); ls.push(format!("{sg}0O{v:o}")); ls.push(format!("{sg}0x{v:X}")); ls.push(format!("{sg}0X{v:x}")); } }
    for l in 1..(if th { 120usize } else { 60 }) { for c in ["1", "9", "f", "7"] { ls.push(format!("0x{}", c.repeat(l))); ls.push(format!("-0X{}", c.repeat(l))); } ls.push(format!("-0B{}", "1".repeat(l * 3))); ls.push(format!("-0O{}", "7".repeat(l * 2))); ls.push(format!("-{}", "9".repeat(l))); ls.push(format!("-0.{}", "9".repeat(l))); ls.push(format!("0b{}", "1".repeat(l * 3))); ls.push(format!("0o{}", "7".repeat(l * 2))); ls.push("9".repeat(l)); ls.push(format!("0.{}", "9".repeat(l))); ls.push(format!("1{}", "0".repeat(l))); ls.push(format!("0.{}1", "0".repeat(l))); }
    s.push(Suite::list("literals", "mantissas x exponents x signs, prefixed integers, every digit-string length", ls, |t, cx| { match lit(&t) { Ok(w) => parse_case(&t, &w, cx), Err(()) => {} } }));
    let lm = if th { 5000i64 } else { 1300 };
    s.push(Suite::new("literal-exponents", "six mantissas with every decimal exponent to the bound, both signs", (2 * lm as u64 + 1) * 6, move |i| format!("{}e{}", ["1", "-7", "12.5", "-0.003", "999999999999999999999999999999999999999", "3.14159265358979"][(i % 6) as usize], i as i64 / 6 - lm), |t, cx| { match lit(&t) { Ok(w) => parse_case(&t, &w, cx), Err(()) => {} } }));
    let few: Vec<u128> = [0u128, 1, TOP - 1, 0x5555_5555_5555_5555_5555_5555_5555_5555].iter().map(|x| x | TOP).collect();
    let rm = if th { 4000i64 } else { 1100 };
    s.push(Suite::list("render-exponents", "decimal rendering at every binary exponent to the bound", floats(&few, &(-rm..=rm).collect::<Vec<_>>()), |a, cx| render(&a, cx)));
    s.push(Suite::list("code13-exponents", "encode and decode at every binary exponent of the encoding's range and beyond", floats(&few, &(-2050..=2050).collect::<Vec<_>>()), |a, cx| code(&a, cx)));
    s.push(Suite::list("code13-bits", "encode and decode single bits, runs and holes at every bit position", floats(&bitpos(1), &[-70, -1, 0, 1, 63, 64, 65, 127, 1000]), |a, cx| code(&a, cx)));
    let mut cb: Vec<u128> = vec![]; for b in [C13B << 63, (C13B + 1) << 63, (C13B * 2 - 1) << 62, (C13B * 2 - 2) << 62] { cb.push(b); for k in 0..64u32 { cb.push(b + (1u128 << k)); cb.push(b - (1u128 << k)); } cb.push(b - (3 << 57)); cb.push(b - (3 << 59)); }
    s.push(Suite::list("code13-carry", "encode and decode mantissas around the first and the last one of the code, offset by every power of two", floats(&cb, &(-70..=70).chain([-1921, -1920, -1919, 1850, 1857, 1858, 1859, 1920, 1921, 1922, 1923, 1924]).collect::<Vec<_>>()), |a, cx| code(&a, cx)));
    let mut lz = vec![]; for l in (1..(if th { 1500usize } else { 400 })).step_by(3) { for m in ["123456789012345678901234567890123456789012", "7", "99999999"] { lz.push(format!("0.{}{m}", "0".repeat(l))); lz.push(format!("-0.{}{m}e{l}", "0".repeat(l))); lz.push(format!("{m}{}", "0".repeat(l))); lz.push(format!("-{m}{}e-{l}", "0".repeat(l))); lz.push(format!("1.{}{m}", "0".repeat(l))); } }
    s.push(Suite::list("literals-long", "runs of zeros of every third length to 400 (1500) before or after the significant digits, with and without compensating exponents", lz, |t, cx| { match lit(&t) { Ok(w) => parse_case(&t, &w, cx), Err(()) => {} } }));
    let fs: Vec<M> = floats(&few, &[0, 3]).into_iter().filter(|m| m.d != 0).collect();
    s.push(Suite::pairs("render-far", "decimal rendering at exponents around every word border to 2^46", fs, far_exps().into_iter().filter(|e| e.abs() > 8000).collect(), |a, e, cx| text_far(a, *e, cx)));
    let ks: Vec<i64> = { let mut v = vec![]; for j in 4..=13u32 { for d in [-1i64, 0, 1] { v.push(10i64.pow(j) + d); v.push(-10i64.pow(j) + d); } } for j in [15u32, 16, 24, 30, 31, 32, 33, 36, 40, 43] { for d in [-1i64, 0, 1] { v.push((1 << j) + d); v.push(-(1i64 << j) + d); } } v };
    s.push(Suite::pairs("literals-far", "literals with decimal exponents around every power of ten to 10^13 and every word border to 2^43", ks, vec!["1", "-7", "12.5", "-0.003", "3.14159265358979", "99999999999999999999999999999999999999999"], |k, m, cx| parse_far(m, *k, cx)));
    let d = digits(true);
    let es: Vec<i64> = if th { (-300..=300).step_by(3).chain([-4000, -1500, 1500, 4000]).collect() } else { (-140..=140).step_by(7).chain([-1500, -400, -64, -28, -27, -26, -1, 0, 1, 64, 400, 1500]).collect() };
    s.push(Suite::list("render", "decimal rendering over critical fractions and exponents", floats(&d, &es), |a, cx| render(&a, cx)));
    let mut dec = vec![]; for k in 0..(if th { 60i64 } else { 34 }) { for m in [1i128, 2, 5, 9, 10, 11, 99, 123, 999, 1001, 123_456_789, 999_999_999, 1_234_567_890_123, 99_999_999_999_999_999] { for sg in [1, -1] { dec.push((m * sg, k - 17)); } } }
    for nd in 1..=18u32 { for ds in ["123456789123456789", "987654321987654321", "100000000000000001", "999999999999999999", "555555555555555555", "249999999999999999", "110010010100110001"] { let m: i128 = ds[..nd as usize].parse().unwrap(); for k in (if th { -60i64..=40 } else { -34..=18 }) { dec.push((if (nd as i64 + k) % 2 == 0 { m } else { -m }, k)); } } }
    dec.sort(); dec.dedup();
    s.push(Suite::list("render-decimal", "m*10^k for critical m of every digit count to 18 and every k -34..=18 (-60..=40): the shortest text is exact", dec, |(m, k), cx| { let q = Q::from_i128(m).mul(&Q::pow10(k)); if let Some(x) = cx.op("F192::from(Ratio)", || format!("{q:?}"), || F192::from(&r(&q))) { if let Some(t) = cx.op("to_string", || format!("{q:?}"), || x.to_string()) { let ok = dec_value(&t).map(|v| v == q || (k < -20 && t.trim_start_matches('-').starts_with("0.") && { let dd = v.sub(&q).abs(); !Q::pow10(-20).lt(&dd) })).unwrap_or(false); if !ok { cx.fail("to_string.decimal", || format!("to_string({m}e{k}) = {t}")); } } } }));
    s.push(Suite::list("render-integers", "every integer to the bound prints exactly", (-(if th { 100_000i64 } else { 12_000 })..=(if th { 100_000 } else { 12_000 })).collect::<Vec<_>>(), |n, cx| { cx.eq("to_string", || format!("{n}"), || F192::from(n).to_string(), &n.to_string()); }));
    let es: Vec<i64> = if th { (-1990..=2000).step_by(7).chain(-10..=140).chain([2200, 5000, -2500]).collect() } else { (-1990..=2000).step_by(61).chain(-4..=132).chain([1856, 1857, 1858, -1985, 2200, 5000, -2500]).collect() };
    s.push(Suite::list("code13", "encode and decode over critical fractions and exponents, both signs", floats(&digits(th), &es), |a, cx| code(&a, cx)));
    // all short codes decode or are refused; accepted ones of canonical shape re-encode
    let al: &[u8] = b"0129AFZaz_-!\xc3"; let kk = al.len() as u64; let dl = if th { 5 } else { 4 }; let mut tot = 0; let mut st = vec![]; for l in 0..=dl { st.push(tot); tot += kk.pow(l); }
    s.push(Suite::new("codes", "every code of up to 4 (5) characters, with and without a long prefix: malformed ones are errors, never panics", tot, move |i| { let mut l = 0; while l + 1 < st.len() && st[l + 1] <= i { l += 1; } let mut x = i - st[l]; let mut t = vec![]; for _ in 0..l { t.push(al[(x % kk) as usize]); x /= kk; } t }, |t, cx| {
        let ok = !t.is_empty() && t.iter().all(|b| b.is_ascii_alphanumeric());
        cx.eq("from_code13.accept", || format!("{:?}", String::from_utf8_lossy(&t)), || F192::from_code13(&t).is_ok(), &ok);
        let mut l = t.clone(); l.extend(b"0AbZ90123"); while l.len() < 13 { l.push(b'7'); }
        let ok2 = l.len() == 13 && l.iter().all(|b| b.is_ascii_alphanumeric());
        cx.eq("from_code13.accept", || format!("{:?}", String::from_utf8_lossy(&l)), || F192::from_code13(&l).is_ok(), &ok2);
        l.push(b'0'); cx.eq("from_code13.accept", || format!("{:?}", String::from_utf8_lossy(&l)), || F192::from_code13(&l).is_ok(), &false);
    }));
    s
}

// ---- elementary functions ----
fn fx() -> Fx { Fx::new(320) }
fn sq(cx: &mut Cx, a: &M) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?} ~ {:e}", p.approx());
    if let Some(g) = cx.op("sqrt", ar, || val(&x.sqrt())) {
        if a.neg || a.d == 0 { if !g.is_zero() { cx.fail("sqrt.value", || format!("sqrt({}) = {g:?}, documented 0", ar())); } return; }
        let k = p.ilog2().div_euclid(2); let n = p.mul(&Q::pow2(-2 * k)); let f = fx(); let w = f.to_q(&f.sqrt(&f.q(&n))).mul(&Q::pow2(k));
        close(cx, "sqrt", &ar, &g, &w, 122, None);
    }
}
fn logs(cx: &mut Cx, a: &M) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?} ~ {:e}", p.approx());
    if a.neg || a.d == 0 { cx.refuses("log2", ar, || x.log2()); cx.refuses("ilog2", ar, || x.ilog2()); cx.refuses("ln", ar, || x.ln()); return; }
    cx.eq("ilog2", ar, || val(&x.ilog2()), &Q::from_i128(p.ilog2() as i128));
    let f = fx();
    if let Some(g) = cx.op("log2", ar, || val(&x.log2())) { close(cx, "log2", &ar, &g, &f.to_q(&f.log2_q(&p)), LOGB, Some(LOGF)); }
    if let Some(g) = cx.op("ln", ar, || val(&x.ln())) { close(cx, "ln", &ar, &g, &f.to_q(&f.ln_q(&p)), LOGB, Some(LOGF)); }
}
const LOGB: i64 = 112; const LOGF: i64 = 112;
const POWB: i64 = 46;
fn p2(cx: &mut Cx, a: &M) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?} ~ {:e}", p.approx());
    if let Some(g) = cx.op("pow2", ar, || val(&x.pow2())) {
        let f = fx(); let fl = p.floor(); let k = fl.to_i128().unwrap() as i64; let w = f.exp_q(&f.mul(&f.q(&p.sub(&Q::from_z(fl))), &f.ln2())).mul(&Q::pow2(k));
        close(cx, "pow2", &ar, &g, &w, POWB, None);
    }
}
fn trig(cx: &mut Cx, a: &M) {
    let x = a.f(); let p = a.q(); let ar = || format!("{a:?} ~ {:e}", p.approx()); let f = fx(); let (s, c) = f.sincos(&f.q(&p)); let (s, c) = (f.to_q(&s), f.to_q(&c));
    // the argument reduction loses as many digits as the argument has above the point
    let lose = a.e.max(0); let fl = TRIG - 0.max(lose - 40);
    if let Some(g) = cx.op("sin", ar, || val(&x.sin())) { close(cx, "sin", &ar, &g, &s, 200, Some(fl)); }
    if let Some(g) = cx.op("cos", ar, || val(&x.cos())) { close(cx, "cos", &ar, &g, &c, 200, Some(fl)); }
    if Q::frac(1, 1000).lt(&c.abs()) { if let Some(g) = cx.op("tan", ar, || val(&x.tan())) { let ft = 42 - 0.max(lose - 40); close(cx, "tan", &ar, &g, &s.div(&c), ft, Some(ft)); } }
}
const TRIG: i64 = 52;
pub fn c25(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let d = digits(true);
    let es: Vec<i64> = if th { (-140..=140).chain([-3000, -1001, -1000, 1000, 1001, 3000]).collect() } else { (-8..=8).chain([-3000, -1001, -128, -127, -126, -65, -64, 63, 64, 126, 127, 128, 129, 1000, 1001]).collect() };
    s.push(Suite::list("sqrt", "square root over critical fractions and exponents of both parities", floats(&d, &es), |a, cx| sq(cx, &a)));
    let few: Vec<u128> = [0u128, 1, TOP - 1, 0x5555_5555_5555_5555_5555_5555_5555_5555].iter().map(|x| x | TOP).collect();
    let em = if th { 3000i64 } else { 500 };
    s.push(Suite::list("sqrt-exponents", "square root at every binary exponent to the bound", floats(&few, &(-em..=em).collect::<Vec<_>>()), |a, cx| sq(cx, &a)));
    s.push(Suite::pairs("far-exponents", "square root and logarithms at exponents around every word border to 2^46", floats(&few, &[0]).into_iter().filter(|m| m.d != 0 && !m.neg).collect(), far_exps(), |a, e, cx| logs_far(a, *e, cx)));
    s.push(Suite::list("far-powers", "powers of two with exponents around every word border to 2^46, directly, by 2^x and by repeated multiplication", far_exps(), |e, cx| { let ar = || format!("{e}"); let w = M { neg: false, d: TOP, e }.f();
        cx.eq("from_pow2", ar, || F192::from_pow2(e), &w); cx.eq("pow2-exact", ar, || F192::from(e).pow2(), &w); cx.eq("powi-two", ar, || F192::from(2).powi(e), &w); for k in [2i64, 3, 5, 7, 8, 16, 37] { if e % k == 0 { cx.eq("powi-pow2", || format!("2^{}, {k}", e / k), || F192::from_pow2(e / k).powi(k), &w); } } }));
    s.push(Suite::list("sqrt-fractions", "square root of single bits, runs, holes and every class of the 11 leading bits, both exponent parities", floats(&bitpos(1).into_iter().chain(table_cells()).collect::<Vec<_>>(), &[0, 1, -1]), |a, cx| sq(cx, &a)));
    s.push(Suite::list("log-fractions", "logarithms of single bits, runs, holes at every bit position", floats(&bitpos(if th { 1 } else { 4 }), &[0, -1, 40]), |a, cx| if !a.neg { logs(cx, &a) }));
    s.push(Suite::list("log-exponents", "logarithms at every binary exponent to the bound", floats(&few, &(-em..=em).step_by(if th { 1 } else { 5 }).collect::<Vec<_>>()), |a, cx| if !a.neg { logs(cx, &a) }));
    s.push(Suite::list("sqrt-squares", "exact squares of every integer to the bound and of critical words, scaled by even powers of two", (1..=(if th { 60_000u128 } else { 6_000 })).chain(words().into_iter().filter(|w| *w > 0).map(|w| w as u128)).collect::<Vec<_>>(), |n, cx| { for k in [0i64, 2, -2, 64, -100] { let mut m = im((n * n) as i128); m.e += k; let mut w = im(n as i128); w.e += k / 2; cx.eq("sqrt-exact", || format!("{n}^2 * 2^{k}"), || m.f().sqrt(), &w.f()); } }));
    s.push(Suite::list("logarithms", "integer, binary and natural logarithm over critical fractions and exponents; refused for zero and negative", floats(&d, &es), |a, cx| logs(cx, &a)));
    s.push(Suite::list("logarithms-small", "every n/16 to the bound", (1..=(if th { 16_000i128 } else { 3_000 })).collect::<Vec<_>>(), |n, cx| { let mut m = im(n); m.e -= 4; logs(cx, &m); }));
    let mut pe: Vec<M> = floats(&digits(th), &[-140, -128, -64, -20, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 10]); for n in -(if th { 20_000i128 } else { 3_000 })..=(if th { 20_000 } else { 3_000 }) { let mut m = im(n); if n != 0 { m.e -= 5; } pe.push(m); }
    s.push(Suite::list("pow2", "2^x for critical x and every n/32", pe, |a, cx| p2(cx, &a)));
    s.push(Suite::list("from_pow2", "2^n exactly for every n to the bound", (-(if th { 6000i64 } else { 2500 })..=(if th { 6000 } else { 2500 })).collect::<Vec<_>>(), |n, cx| { cx.eq("from_pow2", || format!("{n}"), || val(&F192::from_pow2(n)), &Q::pow2(n)); cx.eq("pow2-exact", || format!("{n}"), || F192::from(n).pow2(), &F192::from_pow2(n)); }));
    let bases: Vec<M> = floats(&[TOP, TOP | 1, u128::MAX, TOP | (TOP >> 1), 0x6c8e_9cf5_7093_2bd5_d1b5_4a32_d192_ed03 | TOP], &[-3, -1, 0, 1, 2, 5]).into_iter().chain(ints(12)).collect();
    s.push(Suite::pairs("powi", "critical bases to every exponent -40..=40 (160)", bases, (-(if th { 160i64 } else { 40 })..=(if th { 160 } else { 40 })).collect(), |a, n, cx| {
        let ar = || format!("{a:?}, {n}"); if a.d == 0 && *n < 0 { cx.refuses("powi", ar, || a.f().powi(*n)); return; }
        if let Some(g) = cx.op("powi", ar, || val(&a.f().powi(*n))) { close(cx, "powi", &ar, &g, &a.q().pow(*n as i32), 116, None); } }));
    s.push(Suite::pairs("powi-exact", "integer bases and exponents with results below 2^120 are exact", (-40..=40i128).collect(), (0..=40i64).collect(), |a, n, cx| { let w = Z::from_i128(*a).pow(*n as u32); if w.m.bits() > 120 { return; } cx.eq("powi-int", || format!("{a}, {n}"), || F192::from(*a).powi(*n), &im(w.to_i128().unwrap()).f()); }));
    let pb: Vec<M> = (1..=(if th { 80i128 } else { 24 })).map(|n| { let mut m = im(n); m.e -= 2; m }).collect(); let pe: Vec<M> = (-(if th { 96i128 } else { 32 })..=(if th { 96 } else { 32 })).map(|n| { let mut m = im(n); if n != 0 { m.e -= 2; } m }).collect();
    s.push(Suite::pairs("pow", "x^y for every quarter-grid pair", pb, pe, |a, c, cx| { let ar = || format!("{:?}^{:?}", a.q(), c.q()); let f = fx(); let w = f.exp_q(&f.mul(&f.q(&c.q()), &f.ln_q(&a.q()))); if let Some(g) = cx.op("pow", ar, || val(&a.f().pow(&c.f()))) { close(cx, "pow", &ar, &g, &w, POWB, None); } }));
    let mut tv: Vec<M> = floats(&digits(th), &[-130, -64, -20, -3, -2, -1, 0, 1, 2, 3, 4, 10, 20]); for n in -(if th { 6_000i128 } else { 420 })..=(if th { 6_000 } else { 420 }) { let mut m = im(n); if n != 0 { m.e -= 6; } tv.push(m); }
    s.push(Suite::list("trigonometric", "sine, cosine, tangent over critical floats and every n/64 through several periods", tv, |a, cx| trig(cx, &a)));
    s.push(Suite::list("trigonometric-magnitudes", "sine, cosine, tangent at every binary exponent -125..=75, few fractions (every tenth bit position and the first seven classes of leading bits), both signs", floats(&few.iter().cloned().chain(bitpos(if th { 2 } else { 10 })).chain((1..8u128).map(|k| TOP | (k << 124))).collect::<Vec<_>>(), &(-125..=75).collect::<Vec<_>>()), |a, cx| trig(cx, &a)));
    s.push(Suite::list("trigonometric-quadrants", "k*pi/12 plus or minus small offsets, every quadrant, both signs", (-(if th { 240i128 } else { 36 })..=(if th { 240 } else { 36 })).flat_map(|k| (-2..=2i128).map(move |o| (k, o))).collect::<Vec<_>>(), |(k, o), cx| { let f = fx(); let q = f.to_q(&f.pi()).mul(&Q::frac(k, 12)).add(&Q::frac(o, 1 << 40)); if q.is_zero() { return; } let e = q.ilog2(); let dg = q.abs().mul(&Q::pow2(127 - e)).trunc().m.to_u128().unwrap(); trig(cx, &M { neg: q.n.neg, d: dg, e }); }));
    s.push(Suite::list("constants", "published constants within one unit of the last digit", (0..15u32).collect::<Vec<_>>(), |i, cx| { let f = fx(); let pi = f.to_q(&f.pi()); let sqn = |n: i128| f.to_q(&f.sqrt(&f.int(n))); let (k, x, w) = match i { 0 => ("PI", F192::PI, pi), 1 => ("PI_OVER_2", F192::PI_OVER_2, pi.mul(&Q::frac(1, 2))), 2 => ("PI_OVER_3", F192::PI_OVER_3, pi.mul(&Q::frac(1, 3))), 3 => ("PI_OVER_4", F192::PI_OVER_4, pi.mul(&Q::frac(1, 4))), 4 => ("PI_OVER_6", F192::PI_OVER_6, pi.mul(&Q::frac(1, 6))), 5 => ("E", F192::E, f.exp_q(&f.one())), 6 => ("SQRT_2", F192::SQRT_2, sqn(2)), 7 => ("SQRT_3", F192::SQRT_3, sqn(3)), 8 => ("SQRT_10", F192::SQRT_10, sqn(10)), 9 => ("ONE_OVER_SQRT_2", F192::ONE_OVER_SQRT_2, sqn(2).mul(&Q::frac(1, 2))), 10 => ("LN_2", F192::LN_2, f.to_q(&f.ln2())), 11 => ("LN_3", F192::LN_3, f.to_q(&f.ln_q(&Q::from_i128(3)))), 12 => ("LN_10", F192::LN_10, f.to_q(&f.ln_q(&Q::from_i128(10)))), 13 => ("ONE", F192::ONE, Q::one()), _ => ("ZERO", F192::ZERO, Q::zero()) };
        let g = val(&x); close(cx, k, &|| String::new(), &g, &w, 127, None); }));
    s
}
