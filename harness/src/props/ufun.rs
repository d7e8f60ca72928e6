//! C16 (roots, logs, powers, shifts) and C17 (number theory).
use crate::engine::*;
use crate::real::Fx;
use crate::refm::*;
use crate::shapes::*;
use hmath::{gcd_bi, gcd_ubi, BigInt, UBigInt};

fn sqrt_case(n: &N, cx: &mut Cx) { let x = u(n); let w = n.isqrt(); cx.eq("sqrt", || format!("{n}"), || x.sqrt().rw(), &w.raw()); }
fn fast_sqrt(n: u64, cx: &mut Cx) {
    if let Some(s) = cx.op("sqrt", || format!("{n}"), || UBigInt::from_u64(n).sqrt().into_raw()) {
        let ok = s.len() == 1 && { let s = s[0] as u128; s * s <= n as u128 && (s + 1) * (s + 1) > n as u128 };
        if !ok { cx.fail("sqrt.value", || format!("sqrt({n}) returned {s:?}")); }
    }
}
/// s^2 + d around a root
fn around_squares(roots: Vec<N>) -> Vec<N> {
    let mut o = vec![];
    for s in roots { let q = s.mul(&s); if !q.is_zero() { o.push(q.sub(&N::one())); if N::one().lt(&q) { o.push(q.sub(&N::from_u128(2))); } } o.push(q.clone()); o.push(q.add_small(1)); o.push(q.add_small(2)); o.push(q.add(&s)); o.push(q.add(&s.shl(1)).add_small(1)); o.push(q.add(&s.shl(1))); o.push(q.add(&s).add_small(1)); }
    dedup(o)
}
fn log_case(n: &N, cx: &mut Cx) {
    let x = u(n); let ar = || format!("{n}");
    let fl = if n.is_zero() { 0 } else { n.bits() - 1 };
    cx.eq("log2", ar, || x.log2().rw(), &N::from_u128(fl as u128).raw());
    if n.is_zero() { cx.eq("log2_accurate", ar, || x.log2_accurate().rw(), &vec![0]); return; }
    if let Some(g) = cx.op("log2_accurate", ar, || mn(&x.log2_accurate())) {
        let f = Fx::new(160); let t = f.log2_q(&Q::from_z(Z::new(false, n.clone()))); // scaled 2^160
        // documented: truncate(log2 * 2^32); the working precision allows it to be low by LOG_SLACK
        let hi = t.add(&Z::one().shl(40)).shr(128); let lo = t.sub(&Z::one().shl(40)).shr(128).sub(&Z::from_i128(LOG_SLACK));
        let g = Z::new(false, g);
        let d = hi.sub(&g); if d.is_zero() { cx.hit("log exact"); } else { cx.hit("log low by few"); }
        if g.cmp(&hi) == std::cmp::Ordering::Greater || g.cmp(&lo) == std::cmp::Ordering::Less { cx.fail("log2_accurate.value", || format!("log2_accurate({n}) returned {g}, true floor is {hi}")); }
    }
}
const LOG_SLACK: i128 = 0;
fn shift_case(n: &N, k: usize, cx: &mut Cx) {
    let x = u(n); let ar = || format!("{n}, {k}"); let kb = k as u64 * 32;
    let (l, r) = (n.shl(kb).raw(), n.shr(kb).raw());
    cx.eq("shift_left", ar, || x.shift_left(k).rw(), &l);
    cx.eq("shift_left_mut", ar, || { let mut z = x.clone(); z.shift_left_mut(k); z.rw() }, &l);
    cx.eq("shift_right", ar, || x.shift_right(k).rw(), &r);
    cx.eq("shift_right_mut", ar, || { let mut z = x.clone(); z.shift_right_mut(k); z.rw() }, &r);
    if k <= x.len() {
        let s = n.low(kb).raw();
        cx.eq("slice_right", ar, || x.slice_right(k).rw(), &s);
        cx.eq("slice_right_mut", ar, || { let mut z = x.clone(); z.slice_right_mut(k); z.rw() }, &s);
    }
    // signed forms: magnitude shifted, sign kept unless the result is zero
    for neg in [false, true] {
        let z = Z::new(neg, n.clone()); let y = b(&z); let ar = || format!("{z}, {k}");
        let (l, r) = (Z::new(neg, n.shl(kb)).rw(), Z::new(neg, n.shr(kb)).rw());
        cx.eq("BigInt.shift_left", ar, || y.shift_left(k).rw(), &l);
        cx.eq("BigInt.shift_left_mut", ar, || { let mut z = y.clone(); z.shift_left_mut(k); z.rw() }, &l);
        cx.eq("BigInt.shift_right", ar, || y.shift_right(k).rw(), &r);
        cx.eq("BigInt.shift_right_mut", ar, || { let mut z = y.clone(); z.shift_right_mut(k); z.rw() }, &r);
        if k <= y.len() {
            let s = Z::new(neg, n.low(kb)).rw();
            cx.eq("BigInt.slice_right", ar, || y.slice_right(k).rw(), &s);
            cx.eq("BigInt.slice_right_mut", ar, || { let mut z = y.clone(); z.slice_right_mut(k); z.rw() }, &s);
        }
    }
}
fn pow_case(n: &N, e: u32, cx: &mut Cx) {
    let x = u(n); let w = n.pow(e); let ar = || format!("{n}, {e}");
    cx.eq("pow_u32", ar, || x.pow_u32(e).rw(), &w.raw());
    cx.eq("pow_u32_mut", ar, || { let mut z = x.clone(); z.pow_u32_mut(e); z.rw() }, &w.raw());
    for neg in [false, true] {
        let z = Z::new(neg, n.clone()); let y = b(&z); let w = z.pow(e).rw(); let ar = || format!("{z}, {e}");
        cx.eq("BigInt.pow_u32", ar, || y.pow_u32(e).rw(), &w);
        cx.eq("BigInt.pow_u32_mut", ar, || { let mut t = y.clone(); t.pow_u32_mut(e); t.rw() }, &w);
    }
}

pub fn c16(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let k: u64 = if th { 1 << 26 } else { 1 << 22 };
    s.push(Suite::new("sqrt-all-small", "every n below 2^22 (2^26)", k / 64, |i| i * 64, |b, cx| for n in b..b + 64 { fast_sqrt(n, cx); }));
    // all perfect squares and both neighbours below 2^64: every root in a window at each binade, exhaustively for small roots
    let kr: u64 = if th { 1 << 24 } else { 1 << 20 };
    s.push(Suite::new("sqrt-squares-small", "r^2-1, r^2, r^2+1, r^2+r, r^2+2r for every root r below 2^20 (2^24)", kr / 64, |i| i * 64, |b, cx| for r in b..b + 64 { let q = r * r; for n in [q.saturating_sub(1), q, q + 1, q + r, q + 2 * r] { fast_sqrt(n, cx); } }));
    let w: u64 = if th { 3000 } else { 300 };
    let mut roots = vec![]; for e in 16..=32u32 { for d in 0..w { for base in [1u64 << e, (1u64 << e) + (1 << (e - 1)), ((1u64 << e) as f64 * 1.414_213_56) as u64] { if base + d <= u32::MAX as u64 { roots.push(base + d); } if base - d <= u32::MAX as u64 { roots.push(base - d); } } } } roots.sort(); roots.dedup();
    s.push(Suite::list("sqrt-squares-u64", "r^2+{-1,0,1,r,2r} for roots r in windows around 2^e, 1.5*2^e, sqrt2*2^e, e=16..32 (up to the largest 64-bit square)", roots, |r, cx| { let q = r as u128 * r as u128; for n in [q - 1, q, q + 1, q + r as u128, q + 2 * r as u128] { if n <= u64::MAX as u128 { fast_sqrt(n as u64, cx); } } }));
    s.push(Suite::list("sqrt-u64-top", "the last values below 2^64 and around 2^63", (0..(if th { 200_000u64 } else { 20_000 })).collect(), |d, cx| { fast_sqrt(u64::MAX - d, cx); fast_sqrt((1 << 63) - 1 - d, cx); fast_sqrt((1 << 63) + d, cx); fast_sqrt((1u64 << 62) + d, cx); }));
    let v = if th { cat(vec![nats(A9, 4), nats(A5, 6), nats(A4, 7)]) } else { cat(vec![nats(A7, 4), nats(A5, 5), nats(A4, 6), nats(A3, 8)]) };
    s.push(Suite::list("sqrt-limbs", "every natural over critical limb alphabets", v, |n, cx| sqrt_case(&n, cx)));
    s.push(Suite::list("sqrt-spotted", "naturals of 3..=9 and 20, 33 limbs with each of 24 letters at each position: root and logarithms", spotted(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 33], F3, A24), |n, cx| { sqrt_case(&n, cx); log_case(&n, cx); }));
    s.push(Suite::list("sqrt-spotted-squares", "squares of such roots of 1..=6 and 17 limbs, and their neighbours", around_squares(spotted(&[1, 2, 3, 4, 5, 6, 17], F3, A24)), |n, cx| sqrt_case(&n, cx)));
    let rt = if th { cat(vec![nats(A9, 3), nats(A5, 5), nats(A3, 8)]) } else { cat(vec![nats(A7, 3), nats(A4, 4), nats(A3, 6)]) };
    s.push(Suite::list("sqrt-around-squares", "r^2+{-2..2, r, r+1, 2r, 2r+1} for every critical root r", around_squares(rt), |n, cx| sqrt_case(&n, cx)));
    let lens: Vec<usize> = if th { (3..=80).chain([100, 129, 150]).collect() } else { (3..=34).chain([50, 65, 66]).collect() };
    let ls = longs(&lens, &[1, H, MAX, 2, 3, 0x4000_0000], FILLS, &[0, 1, MAX]);
    s.push(Suite::list("sqrt-long", "every patterned natural at every length", ls.clone(), |n, cx| sqrt_case(&n, cx)));
    s.push(Suite::list("sqrt-long-squares", "squares of patterned roots and neighbours", around_squares(longs(&(3..=(if th { 40 } else { 17 })).collect::<Vec<_>>(), &[1, H, MAX], FILLS, &[0, 1, MAX])), |n, cx| sqrt_case(&n, cx)));
    s.push(Suite::list("sqrt-pow2", "2^k + d", pow2_hood(if th { 2000 } else { 500 }, 3), |n, cx| sqrt_case(&n, cx)));
    let lv = cat(vec![smalls(if th { 200_000 } else { 20_000 }), nats(A7, 3), nats(A4, 4), pow2_hood(if th { 1200 } else { 400 }, 3), longs(&(3..=(if th { 40 } else { 20 })).collect::<Vec<_>>(), &[1, H, MAX], FILLS, &[0, 1, MAX]), pow10_hood(120, 1)]);
    s.push(Suite::list("log2", "integer and fixed-point logarithm of every small, critical, power-of-two-neighbour and long patterned natural", lv, |n, cx| log_case(&n, cx)));
    let v = cat(vec![nats(A5, 3), nats(A3, 5), smalls(10), longs(&[8, 20], &[1, MAX], FILLS, &[0, 1])]);
    s.push(Suite::pairs("shifts", "word shifts and slices by every distance 0..=10", v, (0..=10usize).collect(), |n, k, cx| shift_case(n, *k, cx)));
    s.push(Suite::pairs("shifts-huge", "word shifts and slices of long naturals by distances to 600", longs(&[1, 3, 20, 63, 64, 65, 129, 257, 513], &[1, MAX], FILLS, &[0, 1]), vec![0usize, 1, 11, 12, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 127, 128, 129, 256, 257, 511, 512, 513, 600], |n, k, cx| shift_case(n, *k, cx)));
    s.push(Suite::list("roots-huge", "square root and logarithms of patterned naturals of 70 to 300 (600) limbs and of squares", { let l: &[usize] = if th { &[70, 90, 100, 128, 129, 200, 256, 257, 300, 513, 600] } else { &[90, 128, 129, 200, 257] }; let mut v = longs(l, &[1, H, MAX], &[Fill::Ones, Fill::Mix, Fill::Zero], &[0, MAX]); v.extend(around_squares(longs(&[33, 40, 64, 65, 100, 129], &[1, MAX], &[Fill::Ones, Fill::Mix, Fill::Zero], &[1]))); v }, |n, cx| { sqrt_case(&n, cx); log_case(&n, cx); }));
    s.push(Suite::list("pow-long", "2, 3, 10 and critical bases to long exponents; 0 and 1 to every exponent class up to the largest", { let mut v = vec![]; for e in [131u32, 200, 255, 256, 257, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2047, 2048, 3001] { for n in [2u128, 3, 10, 7, u32::MAX as u128, 1 << 32, 1 << 48] { v.push((N::from_u128(n), e)); } } for k in 0..32u32 { for d in [0u32, 1, 2] { let e = (1u32 << k).wrapping_sub(1).wrapping_add(d); for n in [0u128, 1] { v.push((N::from_u128(n), e)); } } } for n in [0u128, 1] { for e in [u32::MAX, u32::MAX - 1, 3 << 30] { v.push((N::from_u128(n), e)); } } v }, |(n, e), cx| { if n.0.len() == 0 || n.is_one() { let w = if n.is_zero() && e > 0 { N::zero() } else { N::one() }; let x = u(&n); let ar = || format!("{n}, {e}"); cx.eq("pow_u32", ar, || x.pow_u32(e).rw(), &w.raw()); let m = Z::new(true, n.clone()); let y = b(&m); cx.eq("BigInt.pow_u32", ar, || y.pow_u32(e).rw(), &Z::new(e % 2 == 1, w).rw()); } else { pow_case(&n, e, cx) } }));
    s.push(Suite::list("pow-far", "powers with exponents around 2^12..2^17 (2^18)", { let mut v = vec![]; for k in 12..=(if th { 18u32 } else { 17 }) { for d in [-1i64, 0, 1] { for n in [2u128, 3, 10] { if n == 2 || k < 15 || (n == 3 && k <= 16) || th && k <= 17 { v.push((n, ((1i64 << k) + d) as u32)); } } } } for e in [5000u32, 9999, 10_000, 30_000, 60_000, 99_999, 100_000] { v.push((2, e)); if e < 31_000 { v.push((5, e)); } } v }, |(n, e), cx| { let n = N::from_u128(n); let w = if n.is_one() { N::one() } else { n.pow(e) }; let x = u(&n); let ar = || format!("{n}, {e}"); cx.eq("pow_u32", ar, || x.pow_u32(e).rw(), &w.raw()); let y = b(&Z::new(true, n.clone())); cx.eq("BigInt.pow_u32", ar, || y.pow_u32(e).rw(), &Z::new(e % 2 == 1, w).rw()); }));
    let emax = if th { 260u32 } else { 130 };
    s.push(Suite::pairs("pow-small", "every base below 40 to every exponent up to 130 (260)", smalls(40), (0..=emax).collect(), |n, e, cx| pow_case(n, *e, cx)));
    s.push(Suite::pairs("pow-critical", "critical bases to every exponent 0..=18 (40)", cat(vec![nats(A7, 2), nats(A4, 3), nats(A3, 4)]), (0..=(if th { 40u32 } else { 18 })).collect(), |n, e, cx| pow_case(n, *e, cx)));
    s.push(Suite::list("pow2", "2^e for every e to 12000 (70000) and around every power of two to 2^20 (2^23): pow2, exp2, signed forms, log2 back", { let mut v: Vec<u32> = (0..=(if th { 70_000u32 } else { 12_000 })).collect(); for k in 13..=(if th { 23u32 } else { 20 }) { for d in [-33i64, -32, -31, -1, 0, 1, 31, 32, 33] { v.push(((1i64 << k) + d) as u32); v.push(((3i64 << (k - 1)) + d) as u32); } } v.sort(); v.dedup(); v }, |e, cx| {
        let w = N::pow2(e as u64); let ar = || format!("{e}");
        cx.eq("pow2", ar, || UBigInt::pow2(e).rw(), &w.raw());
        cx.eq("exp2", ar, || UBigInt::exp2(e as u64).rw(), &w.raw());
        cx.eq("BigInt.pow2", ar, || BigInt::pow2(e).rw(), &(w.raw(), false));
        cx.eq("BigInt.exp2", ar, || BigInt::exp2(e as u64).rw(), &(w.raw(), false));
        cx.eq("log2", ar, || u(&w).log2().rw(), &N::from_u128(e as u128).raw());
    }));
    // signed roots and logs
    let v = signed(&cat(vec![smalls(300), nats(A5, 3), nats(A3, 5), longs(&(6..=90).collect::<Vec<_>>(), &[1, MAX], FILLS, &[0, 1]), spotted(&[6, 12, 20], F3, A24)]));
    s.push(Suite::list("signed", "signed square root and logarithms: sign*isqrt|n|, log of the magnitude", v, |z, cx| {
        let y = b(&z); let ar = || format!("{z}");
        cx.eq("BigInt.sqrt", ar, || y.sqrt().rw(), &Z::new(z.neg, z.m.isqrt()).rw());
        let fl = if z.is_zero() { 0 } else { z.m.bits() - 1 };
        cx.eq("BigInt.log2", ar, || y.log2().rw(), &Z::from_i128(fl as i128).rw());
        cx.eq("BigInt.log2_accurate", ar, || y.log2_accurate().rw(), &(u(&z.m).log2_accurate().rw(), false));
    }));
    // exp2_accurate inverts log2_accurate within its stated small error
    s.push(Suite::list("exp2-accurate", "2^(n/2^32) truncated or rounded, relative error below 2^-28, in every cell of the 512-entry grid of fractions at eight positions x integer parts to 100 (200)", { let mut v = vec![]; let ts: Vec<u64> = if th { (0..200).collect() } else { vec![0, 1, 2, 5, 9, 16, 29, 30, 31, 32, 33, 40, 63, 64, 69, 100] }; for t in ts { for f in 0..512u64 { for o in [0u64, 1, 0x12_3457, 0x3f_ffff, 0x40_0000, 0x40_0001, 0x6f_0123, 0x7f_ffff] { v.push((t << 32) | (f << 23) | o); } } } v }, |n, cx| {
        if let Some(g) = cx.op("exp2_accurate", || format!("{n}"), || mn(&UBigInt::exp2_accurate(&UBigInt::from_u64(n)))) {
            let f = Fx::new(256); let x = f.mul(&f.q(&Q::new(Z::from_i128(n as i128), Z::from_i128(1 << 32))), &f.ln2()); let t = f.exp_q(&x);
            let tol = Q::one().add(&t.mul(&Q::pow2(-28))); let d = Q::from_z(Z::new(false, g.clone())).sub(&t).abs();
            if tol.lt(&d) { cx.fail("exp2_accurate.value", || format!("exp2_accurate({n}) returned {g}, true {:?}", t.approx())); }
        }
    }));
    s.push(Suite::pairs("shift-lengths", "word shifts and slices of naturals of every length to 70 limbs, by 0, 1, half, all but one and all of the limbs, and one more", longs(&(1..=70).collect::<Vec<_>>(), &[1, MAX], F3, &[0, MAX]), (0..6usize).collect(), |n, k, cx| { let l = n.0.len().max(1); shift_case(n, [0, 1, l / 2, l - 1, l, l + 1][*k], cx) }));
    s.push(Suite::pairs("pow-lengths", "naturals of every length to 40 limbs to the powers 0..=5", longs(&(1..=40).collect::<Vec<_>>(), &[1, MAX], F3, &[1, MAX]), (0..=5u32).collect(), |n, e, cx| pow_case(n, *e, cx)));
    s
}

fn gcd_case(a: &N, c: &N, cx: &mut Cx) {
    let g = a.gcd(c); let (x, y) = (u(a), u(c)); let ar = || format!("{a}, {c}");
    cx.eq("gcd_ubi", ar, || gcd_ubi(&x, &y).rw(), &g.raw());
    for (sa, sb) in [(true, false), (false, true), (true, true), (false, false)] {
        let (za, zb) = (Z::new(sa, a.clone()), Z::new(sb, c.clone())); let ar = || format!("{za}, {zb}");
        cx.eq("gcd_bi", ar, || gcd_bi(&b(&za), &b(&zb)).rw(), &(g.raw(), false));
    }
}
fn factor_ref(mut n: u64) -> Vec<u64> { let mut v = vec![]; let mut d = 2u64; while d * d <= n { while n % d == 0 { v.push(d); n /= d; } d += 1; } if n > 1 { v.push(n); } v }

pub fn c17(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let k = if th { 2500 } else { 1000 };
    s.push(Suite::pairs("gcd-small", "all pairs below the bound, all sign combinations", smalls(k), smalls(k), gcd_case));
    let v = cat(vec![nats(A7, 2), nats(A5, 3), nats(A3, 4)]);
    s.push(Suite::pairs("gcd-critical", "all pairs over critical limb alphabets", v.clone(), v, gcd_case));
    let g = cat(vec![smalls(13), nats(A4, 2), vec![N::from_u128(1 << 40), N::from_u128(10u128.pow(20))]]); let cop = cat(vec![smalls(30), nats(A3, 3)]);
    let gg = g.clone(); let cc = cop.clone(); let (ng, nc) = (g.len() as u64, cop.len() as u64);
    let w2 = nats(A24, 2);
    s.push(Suite::pairs("gcd-letters", "all pairs of one- and two-limb naturals over 24 border letters", w2.clone(), if th { w2.clone() } else { nats(A24, 1).into_iter().chain(nats(A9, 2)).collect() }, |a, c, cx| gcd_case(a, c, cx)));
    s.push(Suite::list("gcd-spotted", "naturals of 2..=6 limbs with each letter at each position, with and without a common factor", spotted(&[2, 3, 4, 5, 6], F3, A24), |a, cx| { let c = long(3, 0x1357_9bdf, Fill::MixB, 5); gcd_case(&a, &c, cx); gcd_case(&a.mul(&c), &c.mul_small(77), cx); }));
    s.push(Suite::new("gcd-common-factor", "(g*p, g*q) for all critical g, p, q", ng * nc * nc, move |i| (gg[(i % ng) as usize].clone(), cc[(i / ng % nc) as usize].clone(), cc[(i / ng / nc) as usize].clone()), |(g, p, q), cx| gcd_case(&g.mul(&p), &g.mul(&q), cx)));
    // consecutive Fibonacci numbers: the longest Euclid runs
    s.push(Suite::new("gcd-fibonacci", "consecutive Fibonacci numbers: longest division chains", if th { 1200 } else { 300 }, |i| i, |i, cx| { let (mut a, mut c) = (N::zero(), N::one()); for _ in 0..i { let t = a.add(&c); a = c; c = t; } gcd_case(&a, &c, cx); gcd_case(&c, &a, cx); }));
    let lm = if th { 40usize } else { 20 };
    s.push(Suite::new("gcd-lengths", "every pair of lengths to 20 (40) limbs x 3 patterns, with a common factor", (lm * lm * 3) as u64, move |i| { let p = i % 3; let j = (i / 3) as usize; let f = [Fill::Mix, Fill::Ones, Fill::Alt][p as usize]; let g = [N::from_u128(0xffff_fffb), N::from_u128(6 << 40), N::one()][p as usize].clone(); (long(j / lm + 1, 0x1357_9bdf, f, 6), long(j % lm + 1, MAX - 4, Fill::MixB, 9), g) }, |(a, c, g), cx| gcd_case(&a.mul(&g), &c.mul(&g), cx)));
    s.push(Suite::list("gcd-huge", "patterned operands of 50 to 130 limbs with a common factor of 1 to 40 limbs", { let mut v = vec![]; for a in [50usize, 65, 90] { for c in [1usize, 2, 50, 64, 65, 90] { for g in [1usize, 3, 40] { v.push((long(a, MAX, Fill::Mix, 1), long(c, 3, Fill::MixB, 7), long(g, 5, Fill::Mix, 12))); } } } v }, |(a, c, g), cx| gcd_case(&a.mul(&g), &c.mul(&g), cx)));
    let iw = iwords();
    s.push(Suite::pairs("gcd-i32", "machine-word gcd on all critical word pairs", iw.clone(), iw, |a, c, cx| {
        let g = N::from_u128(a.unsigned_abs() as u128).gcd(&N::from_u128(c.unsigned_abs() as u128)); let w = g.to_u128().unwrap();
        if w > i32::MAX as u128 { return; } // 2^31 is not representable as the result
        if *a == i32::MIN || *c == i32::MIN { cx.hit("i32::MIN operand"); }
        cx.eq("gcd_i32", || format!("{a}, {c}"), || hmath::utils::gcd_i32(*a, *c) as i128, &(w as i128));
    }));
    let nf = if th { 4000u64 } else { 1500 };
    s.push(Suite::new("factorial", "every n to 1500 (4000)", nf, |i| i as u32, |n, cx| {
        let w = (2..=n).fold(N::one(), |a, k| a.mul_small(k)); let ar = || format!("{n}");
        cx.eq("factorial", ar, || UBigInt::factorial(n).rw(), &w.raw());
        cx.eq("BigInt.factorial", ar, || BigInt::factorial(n).rw(), &(w.raw(), false));
    }));
    let nf = if th { 6000u64 } else { 2000 };
    s.push(Suite::new("fibonacci", "every n to 2000 (6000)", nf, |i| i as u32, |n, cx| {
        let (mut a, mut c) = (N::zero(), N::one()); for _ in 0..n { let t = a.add(&c); a = c; c = t; } let ar = || format!("{n}");
        cx.eq("fibonacci", ar, || UBigInt::fibonacci(n).rw(), &a.raw());
        cx.eq("BigInt.fibonacci", ar, || BigInt::fibonacci(n).rw(), &(a.raw(), false));
    }));
    s.push(Suite::list("factorial-far", "factorials around 2^12..2^16", { let mut v = vec![]; for k in 12..=(if th { 16u32 } else { 15 }) { for d in [-1i64, 0, 1] { v.push(((1i64 << k) + d) as u32); } } v.push(65_537); v.sort(); v.dedup(); v }, |n, cx| {
        // product of all k in 1..=n by halves
        fn prod(a: u32, c: u32) -> N { if c - a < 24 { (a..=c).fold(N::one(), |p, k| p.mul_small(k)) } else { let m = a + (c - a) / 2; prod(a, m).mul(&prod(m + 1, c)) } }
        let w = prod(1, n); cx.eq("factorial", || format!("{n}"), || UBigInt::factorial(n).rw(), &w.raw()); }));
    s.push(Suite::list("gcd-chains", "consecutive Fibonacci numbers to index 6000 (12000), alone and with a common factor: division chains of that many steps", (if th { vec![400usize, 700, 1000, 1500, 2000, 2500, 3000, 4000, 5000, 6000, 8000, 12_000] } else { vec![400, 700, 1000, 1500, 2001, 2500, 3000, 4000, 5000, 6000] }), |k, cx| { let (mut a, mut c) = (N::zero(), N::one()); for _ in 0..k { let t = a.add(&c); a = c; c = t; } gcd_case(&a, &c, cx); let g = long(3, 77, Fill::Mix, 9); gcd_case(&c.mul(&g), &a.mul(&g), cx); }));
    s.push(Suite::list("huge-index", "factorials of 1000 to 3000 (10000) and Fibonacci numbers to 20000 (50000)", if th { vec![(3001u32, 0u32), (4096, 7000), (5000, 10000), (8191, 20000), (10000, 50000)] } else { vec![(1000, 0), (1023, 2500), (1024, 3000), (1025, 4095), (1500, 4096), (2000, 4097), (2047, 5000), (2048, 8191), (2049, 8192), (2500, 10000), (3000, 20000)] }, |(k, f), cx| {
        let w = (2..=k).fold(N::one(), |a, k| a.mul_small(k)); cx.eq("factorial", || format!("{k}"), || UBigInt::factorial(k).rw(), &w.raw());
        let (mut a, mut c) = (N::zero(), N::one()); for _ in 0..f { let t = a.add(&c); a = c; c = t; } cx.eq("fibonacci", || format!("{f}"), || UBigInt::fibonacci(f).rw(), &a.raw());
    }));
    let np = if th { 2_000_000u64 } else { 200_000 };
    s.push(Suite::new("primes-small", "every n below the bound: primality and factorisation", np / 50, |i| i * 50, |b0, cx| for n in b0..b0 + 50 {
        let f = factor_ref(n); let x = UBigInt::from_u64(n); let ar = || format!("{n}");
        cx.eq("is_prime", ar, || x.is_prime(), &(f.len() == 1 && n > 1));
        if n > 1 { cx.eq("prime_factorial", ar, || x.prime_factorial().iter().map(|p| mn(p).to_u128().unwrap() as u64).collect::<Vec<_>>(), &f); cx.eq("BigInt.prime_factorial", ar, || BigInt::from_i64(-(n as i64)).prime_factorial().iter().map(|p| mz(p).to_i128().unwrap() as u64).collect::<Vec<_>>(), &f); }
        cx.eq("BigInt.is_prime", ar, || BigInt::from_i64(-(n as i64)).is_prime(), &(f.len() == 1 && n > 1));
    }));
    let mut big: Vec<u64> = vec![]; let w = if th { 300u64 } else { 60 };
    for c in [1u64 << 31, 1 << 32, 1 << 33, 65_521 * 65_521, 65_537 * 65_537, 1_000_000_007, 1 << 36, 1 << 40, 999_983 * 999_983, 1_000_003 * 1_000_003] { for d in 0..=w { big.push(c - w / 2 + d); } }
    s.push(Suite::list("primes-64bit", "every n in windows around 2^31..2^40 and squares of primes", big, |n, cx| {
        let f = factor_ref(n); let x = UBigInt::from_u64(n); let ar = || format!("{n}");
        cx.eq("is_prime", ar, || x.is_prime(), &(f.len() == 1));
        cx.eq("prime_factorial", ar, || x.prime_factorial().iter().map(|p| mn(p).to_u128().unwrap() as u64).collect::<Vec<_>>(), &f);
    }));
    // the word-size borders of trial division: sqrt(n) around 2^32, smallest factor small so that each case is quick
    let small_factor = |n: u128| -> Option<u128> { if n % 2 == 0 { return Some(2); } let mut d = 3; while d < 2000 { if n % d == 0 { return Some(d); } d += 2; } None };
    let mut edge: Vec<u128> = vec![]; let w = if th { 400u128 } else { 120 };
    for c in [((1u128 << 32) - 3).pow(2), ((1u128 << 32) - 2).pow(2), ((1u128 << 32) - 1).pow(2), 1 << 64, ((1u128 << 32) + 1).pow(2), 1 << 63, 1 << 65, 1 << 96, (1 << 96) + (1 << 64), 1 << 120] { for d in 0..=2 * w { let n = c - w + d; if small_factor(n).is_some() { edge.push(n); } } }
    for m in [(1u128 << 61) - 1, (1 << 64) + 13, (1 << 89) - 1, (1 << 107) - 1] { for p in [2u128, 3, 5, 7, 251, 257, 65_521, 65_537, 99_991, 1_000_003] { if let Some(n) = m.checked_mul(p) { edge.push(n); } } }
    s.push(Suite::list("composites-word-borders", "every n with a factor below 2000 in windows around the squares of 2^32-3..=2^32+1, 2^63..2^120, and small multiples of large primes: not prime", edge, |n, cx| {
        let x = u(&N::from_u128(n)); cx.eq("is_prime", || format!("{n}"), || x.is_prime(), &false); cx.eq("BigInt.is_prime", || format!("-{n}"), || BigInt::from_ubi(x.clone(), true).is_prime(), &false);
    }));
    // primes and prime products whose root nears 2^30 (2^32): the full length of the word loop
    let deep: Vec<(u64, bool)> = if th { vec![((1 << 56) - 5, true), ((1 << 58) - 27, true), ((1 << 60) - 93, true), ((1 << 62) - 57, true), (u64::MAX - 58, true), (4_294_967_291 * 4_294_967_291, false), (4_294_967_291 * 4_294_967_279, false), (1_073_741_827 * 1_073_741_827, false)] } else { vec![((1 << 50) - 27, true), ((1 << 52) - 47, true), ((1 << 54) - 33, true), ((1 << 56) - 5, true), ((1 << 58) - 27, true), ((1 << 60) - 93, true), (134_217_757 * 134_217_757, false), (1_073_741_827 * 1_073_741_827, false), (67_108_859 * 67_108_879, false)] };
    s.push(Suite::list("primes-deep", "primes and products of two close primes near 2^50..2^60 (2^64): primality", deep, |(n, pr), cx| { let x = UBigInt::from_u64(n); cx.eq("is_prime", || format!("{n}"), || x.is_prime(), &pr); }));
    if th {
        let p = 4_294_967_311u128;
        s.push(Suite::list("beyond-64-bit", "trial division running past every 32-bit divisor", vec![(p * p, 0, false), ((1u128 << 64) + 13, 0, true), (p * 4_294_967_357, 0, false), (p * p, 1, false), (p * 4_294_967_357, 1, false)], move |(n, what, pr), cx| { let x = u(&N::from_u128(n)); let ar = || format!("{n}");
            if what == 0 { cx.eq("is_prime", ar, || x.is_prime(), &pr); } else { cx.eq("prime_factorial", ar, || x.prime_factorial().iter().map(|p| mn(p).to_u128().unwrap()).collect::<Vec<_>>(), &vec![p, n / p]); } }));
    }
    // smooth composites of any size: products of small primes (multi-limb)
    let pr = [2u32, 3, 5, 7, 65521, 65537, 11]; let k = if th { 6u64 } else { 4 };
    s.push(Suite::new("factor-smooth", "p1^a*p2^b*... multi-limb smooth numbers, all exponent vectors", k.pow(7), move |mut i| { let mut v = vec![]; for _ in 0..7 { v.push((i % k) as u32); i /= k; } v }, move |e: Vec<u32>, cx| {
        let mut w: Vec<u64> = vec![]; let mut n = N::one(); for (p, k) in pr.iter().zip(&e) { for _ in 0..*k { w.push(*p as u64); n = n.mul_small(*p); } }
        if n.is_one() { return; } w.sort(); let x = u(&n); let ar = || format!("{n}");
        cx.eq("prime_factorial", ar, || x.prime_factorial().iter().map(|p| mn(p).to_u128().unwrap() as u64).collect::<Vec<_>>(), &w);
        if w.len() > 1 { cx.eq("is_prime", ar, || x.is_prime(), &false); }
    }));
    s.push(Suite::list("composites-long", "f * m for f in 2, 3, 5, 96, 2310 and patterned m of every length to 40 limbs: not prime", every(40), |m, cx| {
        for f in [2u32, 3, 5, 96, 2310] { let n = m.mul_small(f); if n.is_zero() || n.bits() < 8 { continue; } let x = u(&n); cx.eq("is_prime", || format!("{n}"), || x.is_prime(), &false); cx.eq("BigInt.is_prime", || format!("-{n}"), || BigInt::from_ubi(x.clone(), true).is_prime(), &false); }
    }));
    s.push(Suite::new("factor-long", "2^a * 3^b * 5^c for every length to 24 limbs x 6 mixes", 24 * 6, |i| ((i / 6 + 1) as u32 * 32 - 3, i % 6), |(bits, m), cx| {
        let (fa, fc) = match m { 0 => (1, 0), 1 => (0, 1), 2 => (1, 1), 3 => (3, 1), 4 => (1, 3), _ => (7, 2) }; let mut n = N::one(); let mut w = vec![]; let mut k = 0;
        while n.bits() < bits as u64 { let p = if m == 5 && k % 11 == 10 { 5u32 } else if k % (fa + fc) < fa { 2 } else { 3 }; n = n.mul_small(p); w.push(p as u64); k += 1; } w.sort();
        let x = u(&n); let ar = || format!("{n}"); cx.eq("prime_factorial", ar, || x.prime_factorial().iter().map(|p| mn(p).to_u128().unwrap() as u64).collect::<Vec<_>>(), &w);
        cx.eq("BigInt.prime_factorial", ar, || BigInt::from_ubi(x.clone(), true).prime_factorial().iter().map(|p| mz(p).to_i128().unwrap() as u64).collect::<Vec<_>>(), &w);
    }));
    s
}
