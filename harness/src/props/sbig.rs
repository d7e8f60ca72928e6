//! C05: signed integers.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use hmath::BigInt;

pub fn pair(a: &Z, c: &Z, cx: &mut Cx) {
    let (x, y) = (b(a), b(c)); let ar = || format!("{a}, {c}");
    let (s, d, p) = (a.add(c).rw(), a.sub(c).rw(), a.mul(c).rw());
    cx.eq("add", ar, || x.add(&y).rw(), &s);
    cx.eq("add_mut", ar, || { let mut z = x.clone(); z.add_mut(&y); z.rw() }, &s);
    cx.eq("sub", ar, || x.sub(&y).rw(), &d);
    cx.eq("sub_mut", ar, || { let mut z = x.clone(); z.sub_mut(&y); z.rw() }, &d);
    cx.eq("mul", ar, || x.mul(&y).rw(), &p);
    cx.eq("mul_mut", ar, || { let mut z = x.clone(); z.mul_mut(&y); z.rw() }, &p);
    if !c.is_zero() {
        let (q, r) = a.divrem(c); let (q, r) = (q.rw(), r.rw());
        cx.eq("div", ar, || x.div(&y).rw(), &q);
        cx.eq("div_mut", ar, || { let mut z = x.clone(); z.div_mut(&y); z.rw() }, &q);
        cx.eq("rem", ar, || x.rem(&y).rw(), &r);
        cx.eq("rem_mut", ar, || { let mut z = x.clone(); z.rem_mut(&y); z.rw() }, &r);
        if a.neg && r.0 != [0] { cx.hit("negative remainder"); }
        if a.neg != c.neg && q.0 == [0] && !a.is_zero() { cx.hit("quotient zero, signs differ"); }
    }
    cx.check("operands", x.rw() == a.rw() && y.rw() == c.rw(), || format!("operands changed: {a}, {c}"));
}
pub fn word(a: &Z, w: i32, cx: &mut Cx) {
    let x = b(a); let k = Z::from_i128(w as i128); let ar = || format!("{a}, {w}");
    let (s, d, p) = (a.add(&k).rw(), a.sub(&k).rw(), a.mul(&k).rw());
    cx.eq("add_i32", ar, || x.add_i32(w).rw(), &s);
    cx.eq("add_i32_mut", ar, || { let mut z = x.clone(); z.add_i32_mut(w); z.rw() }, &s);
    cx.eq("sub_i32", ar, || x.sub_i32(w).rw(), &d);
    cx.eq("sub_i32_mut", ar, || { let mut z = x.clone(); z.sub_i32_mut(w); z.rw() }, &d);
    cx.eq("mul_i32", ar, || x.mul_i32(w).rw(), &p);
    cx.eq("mul_i32_mut", ar, || { let mut z = x.clone(); z.mul_i32_mut(w); z.rw() }, &p);
    if w != 0 {
        let (q, r) = a.divrem(&k); let (q, r) = (q.rw(), r.rw());
        cx.eq("div_i32", ar, || x.div_i32(w).rw(), &q);
        cx.eq("div_i32_mut", ar, || { let mut z = x.clone(); z.div_i32_mut(w); z.rw() }, &q);
        cx.eq("rem_i32", ar, || x.rem_i32(w).rw(), &r);
        cx.eq("rem_i32_mut", ar, || { let mut z = x.clone(); z.rem_i32_mut(w); z.rw() }, &r);
        if w.unsigned_abs().is_power_of_two() { cx.eq("rem_pow2", ar, || x.rem_pow2(w).rw(), &r); }
    }
    if w == i32::MIN { cx.hit("i32::MIN"); }
}
fn unary(a: &Z, cx: &mut Cx) {
    let x = b(a); let ar = || format!("{a}");
    cx.eq("neg", ar, || x.neg().rw(), &a.negate().rw());
    cx.eq("neg_mut", ar, || { let mut z = x.clone(); z.neg_mut(); z.rw() }, &a.negate().rw());
    cx.eq("abs", ar, || x.abs().rw(), &a.abs().rw());
    cx.eq("abs_mut", ar, || { let mut z = x.clone(); z.abs_mut(); z.rw() }, &a.abs().rw());
    cx.eq("is_neg", ar, || x.is_neg(), &a.neg);
    cx.eq("is_zero", ar, || x.is_zero(), &a.is_zero());
    cx.eq("is_one", ar, || x.is_one(), &(*a == Z::one()));
    cx.eq("len", ar, || x.len(), &a.m.raw().len());
    for e in 0..6u32 {
        cx.eq("pow_u32", || format!("{a}, {e}"), || x.pow_u32(e).rw(), &a.pow(e).rw());
        cx.eq("pow_u32_mut", || format!("{a}, {e}"), || { let mut z = x.clone(); z.pow_u32_mut(e); z.rw() }, &a.pow(e).rw());
    }
    for e in [0u32, 1, 5, 31, 32, 33, 64, 100] {
        let w = Z::new(a.neg, a.m.shl(e as u64)).rw();
        cx.eq("mul_pow2", || format!("{a}, {e}"), || x.mul_pow2(e).rw(), &w);
        cx.eq("mul_pow2_mut", || format!("{a}, {e}"), || { let mut z = x.clone(); z.mul_pow2_mut(e); z.rw() }, &w);
    }
}

pub fn c05(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let k = if th { 900 } else { 200 };
    let v = signed(&smalls(k));
    s.push(Suite::pairs("small-table", "all pairs with magnitudes below the bound, all signs", v.clone(), v, pair));
    let v = signed(&if th { cat(vec![nats(A7, 3), nats(A4, 4), nats(A3, 5)]) } else { cat(vec![nats(A7, 2), nats(A5, 3), nats(A3, 4)]) });
    s.push(Suite::pairs("limb-pairs", "all signed pairs over critical limb alphabets", v.clone(), v.clone(), pair));
    let v = signed(&nats(A24, 1)); let w = signed(&cat(vec![nats(A24, 2)]));
    s.push(Suite::pairs("letters", "all signed pairs of a one- or two-limb and a one-limb magnitude over 24 border letters, both orders", w, v, |a, c, cx| { pair(a, c, cx); pair(c, a, cx); }));
    s.push(Suite::pairs("spotted", "magnitudes of 2..=6 and 20 limbs with each letter at each position, against short, equal-length and neighbouring magnitudes, all signs", spotted(&[2, 3, 4, 5, 6, 20], F3, A24), (0..20u32).collect(), |n, k, cx| {
        let l = n.0.len().max(1); let m = match k / 4 { 0 => N::from_u128(0x1_0000_0001), 1 => n.add_small(1), 2 => long(l, 1, Fill::Ones, MAX), 3 => n.clone(), _ => long((l + 1) / 2, H, Fill::Mix, 3) };
        pair(&Z::new(k % 2 == 1, n.clone()), &Z::new(k / 2 % 2 == 1, m), cx);
    }));
    s.push(Suite::pairs("spotted-words", "the same magnitudes x critical machine words", signed(&spotted(&[2, 3, 5, 9], F3, A24)), iwords(), |a, w, cx| word(a, *w, cx)));
    s.push(Suite::list("spotted-unary", "the same magnitudes: negation, absolute value, powers", signed(&spotted(&[1, 2, 3, 4, 7], F3, A24)), |a, cx| unary(&a, cx)));
    // near-equal magnitudes: x vs x+d
    let base = cat(vec![nats(A7, 3), nats(A4, 4), pow2_hood(200, 2)]);
    s.push(Suite::pairs("near-equal", "magnitudes differing by at most 2, all sign combinations", base, (0..20u32).collect(), |n, k, cx| {
        let d = (k / 4) as i128 - 2; let m = Z::new(false, n.clone()).add(&Z::from_i128(d)); if m.neg { return; }
        pair(&Z::new(k % 2 == 1, n.clone()), &Z::new(k / 2 % 2 == 1, m.m), cx);
    }));
    let wv = signed(&cat(vec![smalls(70), nats(A7, 2), nats(A5, 3), nats(A3, 4), pow2_hood(70, 2), longs(&[8, 40], &[1, MAX], FILLS, &[0, 1, MAX])]));
    s.push(Suite::pairs("word-operands", "critical signed integers x critical machine words including the most negative", wv, iwords(), |a, w, cx| word(a, *w, cx)));
    // word equal/near the magnitude
    let mut near = vec![]; for w in iwords() { for d in -2i128..=2 { near.push((Z::from_i128(w as i128 + d), w)); near.push((Z::from_i128(-(w as i128) + d), w)); } }
    s.push(Suite::list("word-near", "machine word within 2 of plus or minus the value", near, |(a, w), cx| word(&a, w, cx)));
    s.push(Suite::list("unary", "negation, absolute value, predicates, powers, power-of-two products", signed(&cat(vec![smalls(2000), nats(A7, 3), nats(A3, 5)])), |a, cx| unary(&a, cx)));
    let lm = if th { 48usize } else { 32 };
    s.push(Suite::new("all-length-pairs", "every pair of lengths to 32 (48) limbs x every combination of signs x 4 patterns", (lm * lm * 16) as u64,
        move |i| { let p = i % 16; let j = (i / 16) as usize; let (l1, l2) = (j / lm + 1, j % lm + 1); let fa = [Fill::Mix, Fill::Ones, Fill::Zero, Fill::Alt][(p / 4) as usize]; let fb = [Fill::MixB, Fill::Ones, Fill::Mix, Fill::Zero][(p / 4) as usize];
            (Z::new(p & 1 == 1, long(l1, [0x9e37_79b9, MAX, 1, H][(p / 4) as usize], fa, 7)), Z::new(p & 2 == 2, long(l2, [0x1357_9bdf, 1, 1, MAX][(p / 4) as usize], fb, MAX))) },
        |(a, c), cx| pair(&a, &c, cx)));
    let ls = signed(&longs(&[5, 9, 33, 65, 66, 130], &[1, MAX, H], FILLS, &[0, 1, MAX])); let sm = signed(&longs(&[1, 2, 3, 8, 33, 66], &[1, MAX], &[Fill::Ones, Fill::MixB, Fill::Zero], &[0, MAX]));
    s.push(Suite::pairs("long-pairs", "long patterned operands, all signs", ls, sm, pair));
    let ls = signed(&longs(&[200, 257, 400, 513, 1025], &[1, MAX], &[Fill::Ones, Fill::Mix, Fill::Zero], &[MAX]));
    s.push(Suite::pairs("huge", "patterned operands of 200 to 1025 limbs, all signs", ls.clone(), ls.into_iter().filter(|z| z.m.0.len() < 600).collect(), pair));
    s.push(Suite::pairs("word-lengths", "magnitudes of every length to 70 limbs, both signs x 17 words of both signs", signed(&every(70)), IW.to_vec(), |a, w, cx| word(a, *w, cx)));
    s.push(Suite::list("unary-lengths", "the same magnitudes: negation, absolute value, predicates, powers, power-of-two products", signed(&every(70)), |a, cx| unary(&a, cx)));
    s.push(Suite::pairs("pow2-lengths", "the same magnitudes x power-of-two remainders and products", signed(&every(40)), vec![1u32, 31, 32, 33, 64, 95, 96, 500, 1000, 2000], |a, e, cx| { let x = b(a); let ar = || format!("{a}, {e}"); let w = Z::new(a.neg, a.m.shl(*e as u64)).rw(); cx.eq("mul_pow2", ar, || x.mul_pow2(*e).rw(), &w); cx.eq("mul_pow2_mut", ar, || { let mut z = x.clone(); z.mul_pow2_mut(*e); z.rw() }, &w); }));
    let _ = BigInt::zero();
    s
}
