//! C18, C19: arbitrary-precision iterative functions. Every argument of a bounded family x every iteration count;
//! the error against a reference computed to hundreds of bits more must be below a bound that shrinks with the count.
use crate::engine::*;
use crate::real::Fx;
use crate::refm::*;
use crate::shapes::*;
use super::order::fracs;
use hmath::*;

fn l2(z: &Z) -> f64 { // log2 of an integer's magnitude
    let b = z.m.bits(); if b == 0 { return f64::NEG_INFINITY; }
    let k = b.saturating_sub(60); z.m.shr(k).to_u128().unwrap() as f64; (z.m.shr(k).to_u128().unwrap() as f64).log2() + k as f64
}
/// value of the stored parts, without reducing them
fn raw_q(x: &Ratio) -> Q { let (d, dn, n, nn) = x.clone().into_raw(); Q { n: Z::new(nn != dn, N::from_limbs(&n)), d: N::from_limbs(&d) } }
fn lfact(n: u64) -> f64 { (2..=n).map(|k| (k as f64).log2()).sum() }
fn lq(q: &Q) -> f64 { super::f192::log2f(q) }
/// absolute error of `got` against the fixed-point `want` must be at most 2^lb (never judged below the reference's own precision)
fn near(cx: &mut Cx, key: &str, ar: &dyn Fn() -> String, f: Fx, got: &Ratio, want: &Z, lb: f64) {
    cx.transitions += 1;
    let e = l2(&f.q(&raw_q(got)).sub(want)) - f.p as f64; let lb = lb.max(80.0 - f.p as f64);
    measure(key, || e - lb);
    if e > lb { cx.fail(&format!("{key}.value"), || format!("{key}({}) ~ {:e}: error 2^{e:.1}, allowed 2^{lb:.1}", ar(), raw_q(got).approx())); }
    else if e > f64::NEG_INFINITY && lb > -(f.p as f64) + 80.0 { cx.hit("bound judged"); }
}
/// working precision that lets an error bound of 2^lb be judged
fn prec(lb: f64) -> u64 { if !(lb < -480.0) { 600 } else { (((-lb.max(-5800.0)) as u64 + 150) / 256 + 1) * 256 } }
fn lsum(a: f64, b: f64) -> f64 { let (h, l) = if a > b { (a, b) } else { (b, a) }; if l == f64::NEG_INFINITY { h } else { h + (1.0 + (l - h).exp2()).log2() } }
/// error bounds of the constants, in bits
fn pi_err(k: usize) -> f64 { -8.0 * k as f64 - 12.2 }
fn e_err(k: usize) -> f64 { -lfact(20 + k as u64) + 1.0 }
fn ln2_err(k: usize) -> f64 { -6.0 * k as f64 - 15.5 }

fn constants(k: usize, cx: &mut Cx) {
    let ar = || format!("{k}");
    let f = Fx::new(2500);
    if let Some(g) = cx.op("pi_iter", ar, || pi_iter(k)) { near(cx, "pi_iter", &ar, f, &g, &f.pi(), pi_err(k)); if k % 16 == 0 { cx.check("pi_iter.canonical", canon_q(&g.rw()), || format!("pi_iter({k}) is not in lowest terms")); } }
    if k < 200 { if let Some(g) = cx.op("ln2_iter", ar, || ln2_iter(k)) { near(cx, "ln2_iter", &ar, f, &g, &f.ln2(), ln2_err(k)); if k % 16 == 0 { cx.check("ln2_iter.canonical", canon_q(&g.rw()), || format!("ln2_iter({k}) is not in lowest terms")); } } }
    if let Some(g) = cx.op("e_iter", ar, || e_iter(k)) { let e = f.exp_q(&f.one()); near(cx, "e_iter", &ar, f, &g, &f.q(&e), e_err(k)); if k % 16 == 0 { cx.check("e_iter.canonical", canon_q(&g.rw()), || format!("e_iter({k}) is not in lowest terms")); } }
    if k == 7 { cx.eq("pi_const", ar, || pi_const().rw(), &pi_iter(7).rw()); }
    if k == 15 { cx.eq("e_const", ar, || e_const().rw(), &e_iter(15).rw()); }
    if k == 11 { cx.eq("ln2_const", ar, || ln2_const().rw(), &ln2_iter(11).rw()); }
}
/// square root: floor of both scaled parts
fn sqrt_case(x: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{x:?}, {k}");
    let Some(g) = cx.op("sqrt_iter", ar, || sqrt_iter(&r(x), k)) else { return };
    if x.is_zero() { cx.check("sqrt_iter.zero", g.is_zero(), || format!("sqrt_iter(0, {k}) = {g}")); return; }
    let lb = -16.0 * (k as f64 + 1.0) + 2.0; let f = Fx::new(prec(lb) + 100); let e = x.ilog2(); let sh = -(e - e.rem_euclid(2)); let y = x.abs().mul(&Q::pow2(sh)); // scaled to [1,4) so errors are relative
    let w = f.sqrt(&f.q(&y)); let g = r(&raw_q(&g).mul(&Q::pow2(sh / 2)));
    near(cx, "sqrt_iter", &ar, f, &g, &w, lb);
    cx.check("sqrt_iter.sign", !g.is_neg(), || format!("sqrt_iter({}) is negative", ar()));
}
fn cbrt_case(x: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{x:?}, {k}");
    let Some(g) = cx.op("cbrt_iter", ar, || cbrt_iter(&r(x), k)) else { return };
    if x.is_zero() { cx.check("cbrt_iter.zero", g.is_zero(), || format!("cbrt_iter(0, {k}) = {g}")); return; }
    // relative error of the cube / 3
    let gq = raw_q(&g); let c = gq.pow(3); let e = lq(&c.sub(x).div(x)) - 3f64.log2(); let lb = (-10.0 * (1u64 << k) as f64).max(if k == 0 { -10.0 } else { -96.0 * k as f64 });
    measure(&format!("cbrt_iter[{k}]"), || e);
    if e > lb { cx.fail("cbrt_iter.value", || format!("cbrt_iter({}) ~ {:e}: relative error 2^{e:.1}, allowed 2^{lb:.1}", ar(), gq.approx())); }
    cx.check("cbrt_iter.sign", g.is_neg() == x.n.neg, || format!("cbrt_iter({}) has the wrong sign", ar()));
}
fn exp_bound(x: &Q, k: usize) -> f64 { // relative
    let t = x.trunc(); let fr = x.sub(&Q::from_z(t.clone())).abs();
    let ser = if fr.is_zero() { f64::NEG_INFINITY } else { (k as f64 + 1.0) * lq(&fr).min(0.0) - lfact(k as u64 + 1) + 3.0 };
    let ti = t.to_i128().unwrap().unsigned_abs() as f64 + 1.0;
    lsum(ser, ti.log2() + e_err(k) + 1.0)
}
fn exp_case(x: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{x:?}, {k}");
    let Some(g) = cx.op("exp_iter", ar, || exp_iter(&r(x), k)) else { return };
    let f = Fx::new(prec(exp_bound(x, k) + 1.0)); let (m, e) = f.exp(&f.q(x)); let g = r(&raw_q(&g).mul(&Q::pow2(-e)));
    near(cx, "exp_iter", &ar, f, &g, &m, exp_bound(x, k) + 1.0);
    cx.check("exp_iter.sign", !g.is_neg() && !g.is_zero(), || format!("exp_iter({}) is not positive", ar()));
}
/// log2 of the absolute error allowed for ln
fn ln_bound(x: &Q, k: usize) -> f64 {
    let e = x.ilog2(); let m = x.mul(&Q::pow2(-e)); // [1, 2)
    // the reduced argument may be m or m/2, whichever the fixed-point logarithm picks: allow the worse of the two
    let a = m.sub(&Q::one()); let c = Q::one().sub(&m.div(&Q::from_i128(2)));
    let ex = if e < 0 && !a.is_zero() { c } else { a.clone() };
    // values a hair off a power of two may be reduced to either side
    let hair = lq(&a) < -24.0 || lq(&Q::from_i128(2).sub(&m)) < -24.0;
    let n = 2.0 * k as f64 + 2.0;
    let la = if hair { let h = lq(&a).max(lq(&Q::one().sub(&a)).min(0.0)); if a.is_zero() { f64::NEG_INFINITY } else { 0.0f64.max(h) } } else { lq(&ex) };
    let ser = n * la - n.log2() + 2.0;
    lsum(ser, ((e.unsigned_abs() + 1) as f64).log2() + ln2_err(k))
}
fn ln_case(x: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{x:?}, {k}");
    let Some(g) = cx.op("ln_iter", ar, || ln_iter(&r(x), k)) else { return };
    let f = Fx::new(prec(ln_bound(x, k)) + 100); near(cx, "ln_iter", &ar, f, &g, &f.ln_q(x), ln_bound(x, k));
    if *x == Q::one() { cx.check("ln_iter.one", g.is_zero(), || format!("ln_iter(1, {k}) = {g}")); }
}
fn log_case(bs: &Q, x: &Q, k: usize, cx: &mut Cx) {
    if *bs == Q::one() { return; }
    let ar = || format!("{bs:?}, {x:?}, {k}");
    let Some(g) = cx.op("log_iter", ar, || log_iter(&r(bs), &r(x), k)) else { return };
    let f = Fx::new(prec(ln_bound(bs, k).min(ln_bound(x, k))) + 100); let (lx, lb) = (f.ln_q(x), f.ln_q(bs)); let w = f.div(&lx, &lb);
    // d(u/v) <= du/v + |u| dv / v^2
    let lv = l2(&lb) - f.p as f64; let lu = l2(&lx) - f.p as f64; let dv = ln_bound(bs, k);
    if dv > lv - 1.0 { cx.hit("base too close to 1 for this count"); return; }
    near(cx, "log_iter", &ar, f, &g, &w, lsum(ln_bound(x, k) - lv, lu + dv - 2.0 * lv) + 1.5);
}
fn pow_case(a: &Q, p: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{a:?}, {p:?}, {k}");
    let Some(g) = cx.op("pow_iter", ar, || pow_iter(&r(a), &r(p), k)) else { return };
    if a.is_zero() { cx.check("pow_iter.zero", g.is_zero(), || format!("pow_iter(0, {p:?}) = {g}")); return; }
    let f = Fx::new(600); let y = f.mul(&f.ln_q(a), &f.q(p)); let (m, e) = f.exp(&y);
    let de = if p.is_zero() { f64::NEG_INFINITY } else { lq(p) + ln_bound(a, k) }; // absolute error of the exponent
    if de > -1.0 { cx.hit("exponent too coarse for this count"); return; }
    let tr = l2(&y) - 600.0; let ser = 4.0 - lfact(k as u64 + 1); let eb = lsum(ser, tr.max(0.0) + 2.0 + e_err(k));
    let g = r(&raw_q(&g).mul(&Q::pow2(-e)));
    near(cx, "pow_iter", &ar, f, &g, &m, lsum(de + 1.0, eb) + 1.0);
}
pub fn c18(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    s.push(Suite::list("constants", "pi (every count to 255, the documented limit), ln 2 (every count to 199), e (to 255), the precomputed constants", (0..=255).collect::<Vec<usize>>(), |k, cx| constants(k, cx)));
    s.push(Suite::list("e-deep", "e for every count to 400", (256..=400).collect::<Vec<usize>>(), |k, cx| { let f = Fx::new(4000); let ar = || format!("{k}"); if let Some(g) = cx.op("e_iter", ar, || e_iter(k)) { near(cx, "e_iter", &ar, f, &g, &f.q(&f.exp_q(&f.one())), e_err(k)); } }));
    s.push(Suite::list("e-far", "e at counts from 450 to 1024", vec![450usize, 492, 493, 511, 512, 513, 600, 768, 1000, 1004, 1005, 1024], |k, cx| { let f = Fx::new(9600); let ar = || format!("{k}"); if let Some(g) = cx.op("e_iter", ar, || e_iter(k)) { near(cx, "e_iter", &ar, f, &g, &f.q(&f.exp_q(&f.one())), e_err(k)); } }));
    let big: Vec<Q> = { let mut o = vec![]; for k in [1i64, 3, 5, 16, 31, 32, 33, 63, 64, 65, 100, 127] { for n in [1i128, 3, 7, (1 << 32) - 1, (1 << 40) + 1] { for d in [1i128, 3, (1 << 32) + 1] { o.push(Q::frac(n, d).mul(&Q::pow2(k))); o.push(Q::frac(n, d).mul(&Q::pow2(-k))); } } } o.into_iter().flat_map(|q| [q.clone(), q.negate()]).collect() };
    let mut v = if th { fracs(120, 40) } else { fracs(40, 20) }; v.extend(big.clone()); v.extend(super::order::crit_q(A4, 2, 2)); let v = dedup_q(v);
    s.push(Suite::pairs("sqrt", "square root of |x| for small, critical and extreme fractions, iteration counts 0..=12 (24)", v.clone(), (0..=(if th { 24 } else { 12 })).collect::<Vec<usize>>(), |x, k, cx| sqrt_case(x, *k, cx)));
    s.push(Suite::pairs("cbrt", "cube root for small, critical and extreme fractions of either sign, counts 0..=5 (6)", v.clone(), (0..=(if th { 6 } else { 5 })).collect::<Vec<usize>>(), |x, k, cx| cbrt_case(x, *k, cx)));
    let mut ev: Vec<Q> = fracs(if th { 60 } else { 30 }, if th { 24 } else { 12 }); for k in [1i64, 2, 10, 40, 70] { for n in [1i128, 3] { for sg in [1, -1] { for t in [0i128, 1, -1, 5] { ev.push(Q::from_i128(t).add(&Q::frac(n * sg, 1).mul(&Q::pow2(-k)))); } } } }
    for t in [50i128, 100, 300] { ev.push(Q::from_i128(t)); ev.push(Q::from_i128(-t)); ev.push(Q::frac(2 * t + 1, 2)); ev.push(Q::frac(-2 * t - 1, 2)); }
    for n in 80..=100 { ev.push(Q::frac(n, 100)); ev.push(Q::frac(-n, 100)); ev.push(Q::frac(n + 100, 100)); } let ev = dedup_q(ev);
    s.push(Suite::pairs("exp", "e^x for small fractions, values near integers and near 0.9, |x| to 300.5, counts 0..=16 (30)", ev, (0..=(if th { 30 } else { 16 })).collect::<Vec<usize>>(), |x, k, cx| exp_case(x, *k, cx)));
    let pos: Vec<Q> = v.iter().filter(|q| !q.n.neg && !q.is_zero() && q.n.m.bits() + q.d.bits() < 160).cloned().collect();
    let mut lv: Vec<Q> = pos.iter().filter(|q| q.n.m.bits() + q.d.bits() < 40).cloned().collect(); for k in (-(if th { 400 } else { 140 }))..=(if th { 400i64 } else { 140 }) { lv.push(Q::pow2(k)); if k % 3 == 0 { lv.push(Q::frac(5, 4).mul(&Q::pow2(k))); lv.push(Q::frac(7, 3).mul(&Q::pow2(k))); } }
    for k in [3i64, 8, 16, 24, 30, 33, 50] { for t in [-2i64, -1, 0, 1, 2] { lv.push(Q::pow2(t).mul(&Q::one().add(&Q::pow2(-k)))); lv.push(Q::pow2(t).mul(&Q::one().sub(&Q::pow2(-k)))); } } let lv = dedup_q(lv);
    s.push(Suite::pairs("ln", "natural logarithm of small fractions, all powers of two to 2^140 (400), values near powers of two, counts 0..=12 (20)", lv, (0..=(if th { 20 } else { 12 })).collect::<Vec<usize>>(), |x, k, cx| ln_case(x, *k, cx)));
    s.push(Suite::pairs("ln-wide", "natural logarithm of multi-limb fractions, counts 0..=4 (8)", pos, (0..=(if th { 8 } else { 4 })).collect::<Vec<usize>>(), |x, k, cx| ln_case(x, *k, cx)));
    let lb: Vec<Q> = fracs(if th { 20 } else { 12 }, if th { 8 } else { 5 }).into_iter().filter(|q| !q.n.neg && !q.is_zero()).collect();
    let ks: Vec<usize> = if th { (0..=10).collect() } else { vec![0, 1, 2, 4, 7] };
    let (l2b, ks2) = (lb.clone(), ks.clone());
    s.push(Suite::new("log", "logarithm to any base: all pairs of small positive fractions x counts", (lb.len() * lb.len() * ks.len()) as u64, move |i| { let i = i as usize; let (k, i) = (ks[i % ks.len()], i / ks.len()); (lb[i % lb.len()].clone(), lb[i / lb.len()].clone(), k) }, |(a, c, k), cx| log_case(&a, &c, k, cx)));
    let pb: Vec<Q> = l2b; let pe = fracs(if th { 12 } else { 7 }, if th { 6 } else { 4 }); let pk: Vec<usize> = if th { ks2.into_iter().filter(|k| *k <= 8).collect() } else { vec![0, 1, 3, 5] };
    let mut pb = pb; pb.insert(0, Q::zero());
    s.push(Suite::new("pow", "general power: small positive bases and zero x small fractional exponents x counts", (pb.len() * pe.len() * pk.len()) as u64, move |i| { let i = i as usize; let (k, i) = (pk[i % pk.len()], i / pk.len()); (pb[i % pb.len()].clone(), pe[i / pb.len()].clone(), k) }, |(a, c, k), cx| pow_case(&a, &c, k, cx)));
    let mut dc: Vec<(u8, Q, usize)> = vec![];
    for k in if th { vec![20, 33, 40, 64, 65, 100, 128, 160, 199] } else { vec![20, 33, 64, 100] } { for x in [Q::frac(1, 2), Q::frac(3, 2), Q::frac(-1, 3), Q::from_i128(2)] { dc.push((0, x.clone(), k)); if !x.n.neg && k < 200 { dc.push((2, x.clone(), k)); } } }
    for k in [13, 20, 31, 32, 33, 50, 64, 100, 200] { for x in [Q::from_i128(2), Q::frac(1, 3), Q::frac(7, 5), Q::from_i128((1 << 40) + 1)] { dc.push((3, x, k)); } }
    s.push(Suite::list("deep-counts", "exponential, logarithm and square root of a few small fractions at iteration counts to 100 (199)", dc, |(f, x, k), cx| match f { 0 => exp_case(&x, k, cx), 2 => ln_case(&x, k, cx), _ => sqrt_case(&x, k, cx) }));
    let mut far = vec![]; for k in [150u64, 159, 160, 191, 192, 223, 224, 255, 256, 257, 287, 319, 352, 511, 512, 513, 800, 1000, 1023, 1024, 2047, 2048] { let b = N::one().shl(k); for (n, d) in [(b.add(&N::one()), N::one()), (b.sub(&N::one()), N::from_u128(3)), (b.add(&b).add(&b).add(&N::one()), N::one()), (b.clone(), N::from_u128(5)), (b.add(&b.shr(2)).add(&N::one()), N::from_u128((1 << 40) + 15))] { let q = Q::new(Z::new(false, n), Z::new(false, d)); far.push(q.reci()); far.push(q); } } let far = dedup_q(far);
    let ld: Vec<(Q, Q)> = [(2i128, 10i128), (10, 2), (3, 5)].iter().map(|(a, c)| (Q::from_i128(*a), Q::from_i128(*c))).chain([(Q::frac(1, 2), Q::frac(7, 5)), (Q::frac(3, 2), Q::frac(1, 3))]).collect();
    s.push(Suite::pairs("log-deep", "logarithm to a base at counts to 65 (100)", ld, if th { vec![10, 13, 20, 33, 64, 65, 100] } else { vec![13, 20, 33, 65] }, |(a, c), k: &usize, cx| log_case(a, c, *k, cx)));
    s.push(Suite::pairs("far-ln", "natural logarithm of numbers with odd numerator or denominator from 2^-2048 to 2^2048, counts 0, 1, 3", far.clone(), if th { (0..=6).collect() } else { vec![0, 1, 3] }, |x, k: &usize, cx| ln_case(x, *k, cx)));
    s.push(Suite::pairs("far-roots", "square and cube roots of the same numbers, either sign, counts 0, 1, 3", far.iter().flat_map(|q| [q.clone(), q.negate()]).collect(), if th { (0..=4).collect() } else { vec![0, 1, 3] }, |x, k: &usize, cx| { sqrt_case(x, *k, cx); cbrt_case(x, *k, cx); }));
    let mut fe = vec![]; for t in if th { vec![127i128, 128, 255, 256, 257, 511, 512, 700, 1000, 1023, 1024, 1025, 2000, 4096] } else { vec![127, 128, 255, 256, 257, 512, 700, 1025] } { for (n, d) in if th { vec![(0i128, 1i128), (1, 3), (19, 20), (1, 1 << 40)] } else { vec![(0, 1), (19, 20)] } { fe.push(Q::from_i128(t).add(&Q::frac(n, d))); fe.push(Q::from_i128(t).add(&Q::frac(n, d)).negate()); } }
    s.push(Suite::pairs("far-exp", "e^x for |x| to 1026 (4097), counts 0, 3 (and 1, 2)", fe, if th { (0..=3).collect() } else { vec![0, 3] }, |x, k: &usize, cx| exp_case(x, *k, cx)));
    let mut lp = vec![]; for k in [4095i64, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000] { for (n, d) in [(1i128, 1i128), (3, 1), (5, 7)] { for e in [k, -k] { lp.push(Q::frac(n, d).mul(&Q::pow2(e))); } } }
    s.push(Suite::pairs("ln-pow2-far", "natural logarithm of 1, 3 and 5/7 times 2^k, |k| to 70000, counts 0, 2, 9", lp, vec![0usize, 2, 9], |x, k: &usize, cx| ln_case(x, *k, cx)));
    s.push(Suite::pairs("ln-counts", "natural logarithm of a few small fractions at every count from 101 to 160 (199)", vec![Q::frac(3, 2), Q::frac(3, 4), Q::frac(1, 3)], (101..=(if th { 199 } else { 160 })).collect::<Vec<usize>>(), |x, k: &usize, cx| ln_case(x, *k, cx)));
    s.push(Suite::pairs("exp-counts", "e^x for a few small fractions at every count from 17 to 130 (250)", vec![Q::frac(1, 2), Q::frac(-2, 3), Q::frac(39, 20)], (17..=(if th { 250 } else { 130 })).collect::<Vec<usize>>(), |x, k: &usize, cx| exp_case(x, *k, cx)));
    s.push(Suite::pairs("sqrt-counts", "square root of a few fractions at every count from 13 to 130 (260)", vec![Q::from_i128(2), Q::frac(3, 7)], (13..=(if th { 260 } else { 130 })).collect::<Vec<usize>>(), |x, k: &usize, cx| sqrt_case(x, *k, cx)));
    let dom: Vec<Q> = fracs(6, 3).into_iter().filter(|q| q.n.neg || q.is_zero()).collect();
    s.push(Suite::pairs("ln-domain", "logarithms of zero and negative numbers are refused", dom, (0..4usize).collect(), |x, k, cx| { let ar = || format!("{x:?}, {k}"); cx.refuses("ln_iter", ar, || ln_iter(&r(x), *k)); cx.refuses("log_iter", ar, || log_iter(&Ratio::from_i32(2), &r(x), *k)); cx.refuses("log_iter base", ar, || log_iter(&r(x), &Ratio::from_i32(2), *k)); if !x.is_zero() { cx.refuses("pow_iter", ar, || pow_iter(&r(x), &Ratio::from_i32(2), *k)); } }));
    s
}

// ---- C19 ----
/// absolute error allowed for sine and cosine: reduction by the approximate pi plus the series tail at pi/4 (cosine tail is the larger)
fn trig_bound(x: &Q, k: usize) -> f64 {
    let n = 4.0 * k as f64 + 4.0; let ser = n * (0.8f64).log2() - lfact(4 * k as u64 + 4) + 1.0;
    let mag = if x.is_zero() { 0.0 } else { lq(x).max(0.0) };
    lsum(ser, mag + pi_err(k))
}
fn trig_case(x: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{x:?}, {k}"); let y = r(x); let ny = r(&x.negate());
    let bd = trig_bound(x, k); let f = Fx::new(prec(bd)); let (sn, cs) = f.sincos(&f.q(x));
    let s1 = cx.op("sin_iter", ar, || sin_iter(&y, k)); let c1 = cx.op("cos_iter", ar, || cos_iter(&y, k));
    if let Some(g) = &s1 { near(cx, "sin_iter", &ar, f, g, &sn, bd); cx.eq("sin_iter odd", ar, || sin_iter(&ny, k).rw(), &g.neg().rw()); }
    if let Some(g) = &c1 { near(cx, "cos_iter", &ar, f, g, &cs, bd); cx.eq("cos_iter even", ar, || cos_iter(&ny, k).rw(), &g.rw()); }
    let lc = l2(&cs) - f.p as f64;
    if lc - 2.0 > bd { if let Some(g) = cx.op("tan_iter", ar, || tan_iter(&y, k)) {
        // d(s/c) <= (ds + |tan| dc) / c, with c at least 3/4 of its true value
        let w = f.div(&sn, &cs); let lt = l2(&w) - f.p as f64;
        near(cx, "tan_iter", &ar, f, &g, &w, lsum(bd - lc, bd + lt - lc) + 1.0);
    } } else { cx.hit("tangent pole too close for this count"); }
}
fn asin_bound(x: &Q, k: usize) -> f64 {
    // first omitted term: n = k + 2, coefficient (2n)! / (4^n n!^2 (2n+1)) ~ 1 / (sqrt(pi n) (2n+1))
    let n = k as f64 + 2.0; let c = -0.5 * (std::f64::consts::PI * n).log2() - (2.0 * n + 1.0).log2();
    let o = Q::one().sub(&x.mul(x)); let geo = if o.is_zero() { f64::INFINITY } else { -lq(&o) };
    c + (2.0 * n + 1.0) * lq(x) + geo.min((2.0 * n + 4.0).log2()) + 0.5
}
fn asin_case(x: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{x:?}, {k}"); let y = r(x);
    if Q::one().lt(&x.abs()) { cx.refuses("asin_iter", ar, || asin_iter(&y, k)); cx.refuses("acos_iter", ar, || acos_iter(&y, k)); return; }
    let bd = asin_bound(x, k); let f = Fx::new(prec(bd)); let w = f.asin(x);
    if let Some(g) = cx.op("asin_iter", ar, || asin_iter(&y, k)) { near(cx, "asin_iter", &ar, f, &g, &w, bd); cx.eq("asin_iter odd", ar, || asin_iter(&y.neg(), k).rw(), &g.neg().rw()); }
    if k <= 255 { if let Some(g) = cx.op("acos_iter", ar, || acos_iter(&y, k)) { near(cx, "acos_iter", &ar, f, &g, &f.pi().shr(1).sub(&w), lsum(bd, pi_err(k) - 1.0)); } }
}
fn atan_case(x: &Q, k: usize, cx: &mut Cx) {
    let ar = || format!("{x:?}, {k}"); let y = r(x);
    let n = 4.0 * k as f64 + 5.0; let m = if x.is_zero() { f64::NEG_INFINITY } else { -lq(x).abs() };
    let bd = lsum(n * m - n.log2() + 0.1, if Q::one().lt(&x.abs()) { pi_err(k) - 1.0 } else { f64::NEG_INFINITY });
    let f = Fx::new(prec(bd)); let w = f.atan(&f.q(x));
    if let Some(g) = cx.op("atan_iter", ar, || atan_iter(&y, k)) { near(cx, "atan_iter", &ar, f, &g, &w, bd); cx.eq("atan_iter odd", ar, || atan_iter(&y.neg(), k).rw(), &g.neg().rw()); }
}
pub fn c19(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let ks: Vec<usize> = (0..=(if th { 10 } else { 5 })).collect();
    let v = fracs(if th { 60 } else { 30 }, if th { 12 } else { 6 });
    s.push(Suite::pairs("trig", "sine, cosine, tangent of every p/q with |p| <= 30 (60), q <= 6 (12): all quadrants and octants several times, counts 0..=5 (10)", v, ks.clone(), |x, k, cx| trig_case(x, *k, cx)));
    // around multiples of pi/4: rational approximations of j*pi/4 displaced by a hair
    let f = Fx::new(256); let p4 = f.to_q(&f.pi().shr(2)); let mut octs = vec![];
    for j in -(if th { 40i128 } else { 18 })..=(if th { 40 } else { 18 }) { let m = p4.mul(&Q::from_i128(j)); for (b, d) in [(1i128 << 20, 0), (1 << 20, 1), (1 << 20, -1), (1 << 40, 0), (1 << 40, 1), (1 << 8, 3)] { octs.push(Q::new(m.mul(&Q::from_i128(b)).round().add(&Z::from_i128(d)), Z::from_i128(b))); } }
    s.push(Suite::pairs("trig-octants", "arguments a hair off every multiple of pi/4 to 18*pi/4 (40)", dedup_q(octs), ks.clone(), |x, k, cx| trig_case(x, *k, cx)));
    let mut bigs = vec![]; for e in [6i64, 8, 10, 12, 16, 20, 24] { for n in [1i128, 3, 5, 7] { for d in [1i128, 3] { for sg in [1i128, -1] { bigs.push(Q::frac(sg * n, d).mul(&Q::pow2(e))); bigs.push(Q::frac(sg * n, d).mul(&Q::pow2(-e))); } } } }
    s.push(Suite::pairs("trig-magnitudes", "arguments from 2^-24 to 7*2^24", dedup_q(bigs.clone()), ks.clone(), |x, k, cx| trig_case(x, *k, cx)));
    let mut far = vec![]; for e in if th { vec![26i64, 30, 31, 32, 33, 47, 48, 62, 63, 64, 65, 96, 100] } else { vec![31, 32, 33, 48, 63, 64, 65] } { let ks = [(e as usize + 16) / 8]; for (n, d) in [(1i128, 1i128), (3, 1), (-5, 3), (-((1 << 20) + 1), 1 << 20)] { let q = Q::frac(n, d).mul(&Q::pow2(e)); for k in ks { far.push((q.clone(), k)); } far.push((q.reci(), 2)); } }
    s.push(Suite::list("trig-far", "arguments to 2^65 (2^100) with counts that resolve them, and down to 2^-65 (2^-100)", far.clone(), |(x, k), cx| trig_case(&x, k, cx)));
    s.push(Suite::list("inverse-far", "arc tangent of the same magnitudes, arc sine of their reciprocals, counts 0, 1, 5", far, |(x, _), cx| for k in [0, 1, 5] { atan_case(&x, k, cx); if x.abs().lt(&Q::one()) { asin_case(&x, k, cx); } else { asin_case(&x.reci(), k, cx); } }));
    let ak: Vec<usize> = (0..=(if th { 40 } else { 20 })).collect();
    let mut av = vec![]; let m = if th { 128 } else { 64 }; for d in [3i128, 5, 10, m] { for n in -(d + 2)..=(d + 2) { av.push(Q::frac(n, d)); } } for e in [8i64, 16, 31, 40, 63, 65, 100, 200] { for sg in [1i128, -1] { av.push(Q::from_i128(sg).mul(&Q::one().sub(&Q::pow2(-e)))); av.push(Q::from_i128(sg).mul(&Q::pow2(-e))); av.push(Q::from_i128(sg).mul(&Q::one().add(&Q::pow2(-e)))); } }
    let av: Vec<Q> = dedup_q(av);
    s.push(Suite::pairs("asin-acos", "every n/d in and just beyond [-1, 1] for d = 3, 5, 10, 64 (128), values a hair off 0 and 1, counts 0..=20 (40); arguments beyond 1 are refused", av.into_iter().filter(|x| !x.is_zero()).collect(), ak.clone(), |x, k, cx| asin_case(x, *k, cx)));
    s.push(Suite::list("asin-zero", "asin 0 = 0, acos 0 = pi/2", ak.clone(), |k, cx| { let z = Ratio::zero(); cx.check("asin_iter.zero", asin_iter(&z, k).is_zero(), || "asin(0) is not 0".into()); let f = Fx::new(600); if let Some(g) = cx.op("acos_iter", || "0".into(), || acos_iter(&z, k)) { super::iter::near(cx, "acos_iter", &|| "0".into(), f, &g, &f.pi().shr(1), pi_err(k)); } }));
    let mut tv = fracs(if th { 60 } else { 30 }, if th { 24 } else { 14 }); tv.extend(bigs); let tv = dedup_q(tv);
    let mut dc: Vec<(u8, Q, usize)> = vec![];
    for k in [30, 60, 100, 200, 300, 639, 640, 642, 643, 644, 645, 648, 660] { dc.push((0, Q::frac(1, 2), k)); if th || k < 300 { dc.push((0, Q::frac(-2, 3), k)); dc.push((0, Q::frac(1, 100), k)); } } if th { dc.push((0, Q::frac(1, 3), 900)); dc.push((0, Q::frac(1, 2), 1100)); }
    for k in [20, 40, 64, 100] { for x in [Q::frac(1, 2), Q::frac(-1, 3), Q::frac(2, 1)] { dc.push((1, x.clone(), k)); } for x in [Q::frac(1, 2), Q::frac(-2, 3)] { dc.push((2, x, k)); } }
    for k in [8, 9] { for x in [Q::frac(2, 1), Q::frac(5, 1), Q::frac(-11, 3)] { dc.push((2, x, k)); } } for x in [Q::frac(2, 1), Q::frac(-13, 2)] { dc.push((3, x.clone(), 12)); dc.push((3, x, 15)); }
    let mut tc: Vec<(Q, usize)> = vec![]; for k in 6..=(if th { 80 } else { 48usize }) { tc.push((Q::frac(1, 2), k)); tc.push((Q::frac(-2, 3), k)); if k <= (if th { 12 } else { 8 }) { tc.push((Q::frac(5, 4), k)); tc.push((Q::from_i128(-4), k)); } }
    s.push(Suite::list("trig-counts", "sine, cosine, tangent of small fractions of the first octant at every count from 6 to 48 (80), of other octants to 8 (12)", tc, |(x, k), cx| trig_case(&x, k, cx)));
    s.push(Suite::pairs("inverse-counts", "arc sine, cosine and tangent of a few fractions at every count from 15 to 100 (200)", if th { vec![Q::frac(1, 2), Q::frac(-3, 4)] } else { vec![Q::frac(1, 2)] }, (15..=(if th { 200 } else { 100 })).collect::<Vec<usize>>(), |x, k: &usize, cx| { asin_case(x, *k, cx); atan_case(x, *k, cx); if *k < 255 { atan_case(&x.reci(), *k, cx); } }));
    s.push(Suite::list("deep-counts", "a few arguments at iteration counts to 660 (1100) for the inverse sine, to 100 for the others", dc, |(f, x, k), cx| match f { 0 => asin_case(&x, k, cx), 1 => atan_case(&x, k, cx), 2 => trig_case(&x, k, cx), _ => {
        let ar = || format!("{x:?}, {k}"); let bd = trig_bound(&x, k); let f = Fx::new(prec(bd)); let (sn, cs) = f.sincos(&f.q(&x));
        if let Some(g) = cx.op("sin_iter", ar, || sin_iter(&r(&x), k)) { near(cx, "sin_iter", &ar, f, &g, &sn, bd); } if let Some(g) = cx.op("cos_iter", ar, || cos_iter(&r(&x), k)) { near(cx, "cos_iter", &ar, f, &g, &cs, bd); } } }));
    let tk: Vec<usize> = (0..=(if th { 30 } else { 14 })).collect();
    s.push(Suite::pairs("atan", "arc tangent of every p/q with |p| <= 30 (60), q <= 14 (24) and magnitudes 2^-24..2^26, counts 0..=14 (30)", tv, tk, |x, k, cx| atan_case(x, *k, cx)));
    s
}
