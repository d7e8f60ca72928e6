//! C26: undefined operations are refused.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use super::order::{crit_q, fracs};
use hmath::*;

pub fn underflow(a: &N, c: &N, cx: &mut Cx) {
    if !a.lt(c) { return; }
    let (x, y) = (u(a), u(c)); let ar = || format!("{a}, {c}");
    cx.refuses("sub", ar, || x.sub(&y)); cx.refuses("sub_mut", ar, || { let mut t = x.clone(); t.sub_mut(&y); t });
    if let Some(w) = c.to_u128() { if w <= MAX as u128 { let w = w as u32; cx.refuses("sub_u32", ar, || x.sub_u32(w)); cx.refuses("sub_u32_mut", ar, || { let mut t = x.clone(); t.sub_u32_mut(w); t }); } }
}
pub fn c26(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let v = cat(vec![smalls(if th { 3000 } else { 300 }), nats(A7, 3), nats(A4, 4), nats(A3, if th { 7 } else { 5 }), longs(&[8, 33, 65, 130], &[1, MAX], FILLS, &[0, MAX])]);
    s.push(Suite::list("unsigned-zero-divisor", "every critical dividend", v.clone(), |n, cx| {
        let x = u(&n); let z = UBigInt::zero(); let ar = || format!("{n}, 0");
        cx.refuses("div", ar, || x.div(&z)); cx.refuses("rem", ar, || x.rem(&z));
        cx.refuses("div_u32", ar, || x.div_u32(0)); cx.refuses("rem_u32", ar, || x.rem_u32(0));
        cx.refuses("div_mut", ar, || { let mut t = x.clone(); t.div_mut(&z); t }); cx.refuses("rem_mut", ar, || { let mut t = x.clone(); t.rem_mut(&z); t });
        cx.refuses("div_u32_mut", ar, || { let mut t = x.clone(); t.div_u32_mut(0); t }); cx.refuses("rem_u32_mut", ar, || { let mut t = x.clone(); t.rem_u32_mut(0); t });
    }));
    s.push(Suite::list("signed-zero-divisor", "every critical signed dividend", signed(&v), |n, cx| {
        let x = b(&n); let z = BigInt::zero(); let ar = || format!("{n}, 0");
        cx.refuses("BigInt.div", ar, || x.div(&z)); cx.refuses("BigInt.rem", ar, || x.rem(&z));
        cx.refuses("BigInt.div_i32", ar, || x.div_i32(0)); cx.refuses("BigInt.rem_i32", ar, || x.rem_i32(0));
        cx.refuses("BigInt.div_mut", ar, || { let mut t = x.clone(); t.div_mut(&z); t }); cx.refuses("BigInt.rem_mut", ar, || { let mut t = x.clone(); t.rem_mut(&z); t });
        cx.refuses("BigInt.div_i32_mut", ar, || { let mut t = x.clone(); t.div_i32_mut(0); t }); cx.refuses("BigInt.rem_i32_mut", ar, || { let mut t = x.clone(); t.rem_i32_mut(0); t });
        // a rational with zero denominator, from every constructor
        cx.refuses("from_denom_and_numer", ar, || Ratio::from_denom_and_numer(BigInt::zero(), x.clone()));
        cx.refuses("Ratio::try_from((d,n))", ar, || Ratio::try_from(("0", x.to_string_dec())).unwrap());
        if n.neg { cx.check("to_ubi", x.to_ubi().is_err() && UBigInt::try_from(&x).is_err() && UBigInt::try_from(x.clone()).is_err(), || format!("negative {n} accepted as unsigned")); }
    }));
    s.push(Suite::list("word-denominator", "zero denominator with every critical word numerator", iwords(), |w, cx| {
        let ar = || format!("0, {w}");
        cx.refuses("from_denom_and_numer_i32", ar, || Ratio::from_denom_and_numer_i32(0, w));
        cx.refuses("Ratio::try_from((0f64,w))", ar, || Ratio::try_from((0f64, w as f64)).unwrap()); cx.refuses("Ratio::try_from((-0f32,w))", ar, || Ratio::try_from((-0f32, w.to_string())).unwrap());
    }));
    let mut q = fracs(if th { 40 } else { 14 }, if th { 30 } else { 12 }); q.extend(crit_q(if th { A4 } else { A3 }, 2, 2)); let q = dedup_q(q);
    s.push(Suite::list("ratio-zero-divisor", "every critical rational divided by zero in every form", q, |n, cx| {
        let x = r(&n); let ar = || format!("{n:?}, 0");
        cx.refuses("Ratio.div", ar, || x.div(&Ratio::zero())); cx.refuses("Ratio.div_mut", ar, || { let mut t = x.clone(); t.div_mut(&Ratio::zero()); t });
        cx.refuses("Ratio.div_bi", ar, || x.div_bi(&BigInt::zero())); cx.refuses("Ratio.div_bi_mut", ar, || { let mut t = x.clone(); t.div_bi_mut(&BigInt::zero()); t });
        cx.refuses("Ratio.div_i32", ar, || x.div_i32(0)); cx.refuses("Ratio.div_i32_mut", ar, || { let mut t = x.clone(); t.div_i32_mut(0); t });
        if n.is_zero() { cx.refuses("Ratio.reci", ar, || x.reci()); cx.refuses("Ratio.reci_mut", ar, || { let mut t = x.clone(); t.reci_mut(); t }); }
        if n.n.neg { cx.check("UBigInt::try_from(Ratio)", n.trunc().is_zero() || UBigInt::try_from(&x).is_err(), || format!("negative {n:?} accepted as unsigned")); }
    }));
    s.push(Suite::list("zero-negative-power", "0^-e for every e to 64 and the extreme exponents", (1..=64).chain([1000, i32::MAX - 1, i32::MAX]).collect::<Vec<i32>>(), |e, cx| {
        cx.refuses("Ratio.pow_i32", || format!("0^-{e}"), || Ratio::zero().pow_i32(-e));
        cx.refuses("Ratio.pow_i32_mut", || format!("0^-{e}"), || { let mut t = Ratio::zero(); t.pow_i32_mut(-e); t });
    }));
    let v = if th { cat(vec![nats(A7, 3), nats(A4, 4), nats(A3, 5), smalls(200)]) } else { cat(vec![nats(A5, 3), nats(A3, 5), smalls(60)]) };
    s.push(Suite::pairs("unsigned-underflow", "a - b for every critical pair a < b", v.clone(), v.clone(), underflow));
    s.push(Suite::list("underflow-spotted", "a - (a + d) for a of 1..=8 and 40 limbs with each of 24 letters at each position, d = 1 or a one in each higher limb", spotted(&[1, 2, 3, 4, 5, 6, 8, 40], F3, A24), |a, cx| {
        let l = a.0.len(); let x = u(&a); for k in 0..=l { let c = a.add(&N::one().shl(32 * k as u64)); let y = u(&c); let ar = || format!("{a}, {c}");
            cx.refuses("sub", ar, || x.sub(&y)); cx.refuses("sub_mut", ar, || { let mut t = x.clone(); t.sub_mut(&y); t }); if k > 9 { break; } }
    }));
    s.push(Suite::list("zero-divisor-letters", "dividends of one to three limbs over 24 border letters", nats(A24, 3), |n, cx| {
        let x = u(&n); let z = UBigInt::zero(); let (p, y) = (b(&Z::new(!n.is_zero(), n.clone())), BigInt::zero()); let ar = || format!("{n}, 0");
        cx.refuses("div", ar, || x.div(&z)); cx.refuses("rem", ar, || x.rem(&z)); cx.refuses("div_u32", ar, || x.div_u32(0)); cx.refuses("rem_u32", ar, || x.rem_u32(0));
        cx.refuses("BigInt.div", ar, || p.div(&y)); cx.refuses("BigInt.rem", ar, || p.rem(&y)); cx.refuses("BigInt.div_i32", ar, || p.div_i32(0)); cx.refuses("BigInt.rem_i32", ar, || p.rem_i32(0));
        cx.refuses("from_denom_and_numer", ar, || Ratio::from_denom_and_numer(BigInt::zero(), p.clone()));
    }));
    s.push(Suite::pairs("word-underflow", "a - w for every critical pair a < w", smalls(40).into_iter().chain(words().into_iter().map(|w| N::from_u128(w as u128))).collect(), words(), |a, w, cx| {
        if !a.lt(&N::from_u128(*w as u128)) { return; }
        let x = u(a); let ar = || format!("{a}, {w}");
        cx.refuses("sub_u32", ar, || x.sub_u32(*w)); cx.refuses("sub_u32_mut", ar, || { let mut t = x.clone(); t.sub_u32_mut(*w); t });
    }));
    s.push(Suite::list("slice-too-long", "asking for more words than there are", v, |n, cx| {
        let x = u(&n); for k in [x.len() + 1, x.len() + 2, x.len() + 40] { cx.refuses("slice_right", || format!("{n}, {k}"), || x.slice_right(k)); cx.refuses("slice_right_mut", || format!("{n}, {k}"), || { let mut t = x.clone(); t.slice_right_mut(k); t }); }
    }));
    s.push(Suite::list("shape-errors", "determinant/inverse/sum/product of incompatible shapes, singular inverses", (0..5usize).flat_map(|a| (0..5usize).flat_map(move |b| (0..5usize).flat_map(move |c| (0..5usize).map(move |d| (a + 1, b + 1, c + 1, d + 1))))).collect::<Vec<_>>(), |(a, c, d, e), cx| {
        let m = Matrix::generate(a, c, |i, j| Ratio::from_i32((i * 7 + j * j + 1) as i32)); let k = Matrix::generate(d, e, |i, j| Ratio::from_i32((i + 2 * j) as i32));
        let ar = || format!("{a}x{c}, {d}x{e}");
        if (a, c) != (d, e) { cx.eq("Matrix.add", ar, || m.add(&k).is_err(), &true); cx.eq("Matrix.add_mut", ar, || { let mut t = m.clone(); t.add_mut(&k).is_err() }, &true); }
        if a != c { cx.eq("Matrix.determinant", ar, || m.determinant().is_err(), &true); cx.eq("Matrix.inverse", ar, || m.inverse().is_err(), &true); }
        if a == c { let z = Matrix::zeros(a, a); cx.eq("Matrix.inverse(0)", ar, || z.inverse().is_err(), &true); }
    }));
    s
}
