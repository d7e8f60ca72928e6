//! C10 rational arithmetic, C11 rational rounding.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use super::order::{crit_q, fracs};
use hmath::*;

/// value equal to the model and stored canonically: the raw parts must be exactly the model's
fn pair(a: &Q, c: &Q, cx: &mut Cx) {
    let (x, y) = (r(a), r(c)); let ar = || format!("{a:?}, {c:?}");
    let (s, d, p) = (a.add(c).rw(), a.sub(c).rw(), a.mul(c).rw());
    cx.eq("add", ar, || x.add(&y).rw(), &s); cx.eq("add_mut", ar, || { let mut z = x.clone(); z.add_mut(&y); z.rw() }, &s);
    cx.eq("sub", ar, || x.sub(&y).rw(), &d); cx.eq("sub_mut", ar, || { let mut z = x.clone(); z.sub_mut(&y); z.rw() }, &d);
    cx.eq("mul", ar, || x.mul(&y).rw(), &p); cx.eq("mul_mut", ar, || { let mut z = x.clone(); z.mul_mut(&y); z.rw() }, &p);
    if !c.is_zero() { let q = a.div(c).rw(); cx.eq("div", ar, || x.div(&y).rw(), &q); cx.eq("div_mut", ar, || { let mut z = x.clone(); z.div_mut(&y); z.rw() }, &q); }
    if a.d.gcd(&c.d) != N::one() { cx.hit("common denominator factor"); }
    if a.n.m.gcd(&c.d) != N::one() { cx.hit("cross factor"); }
    // a = v1/v3, b = v2/v3 with v3 the least common denominator
    let g = a.d.gcd(&c.d); let (ad, cd) = (a.d.divrem(&g).0, c.d.divrem(&g).0); let sc = |z: &Z, k: &N| Z::new(z.neg, z.m.mul(k)).rw();
    let w = (sc(&a.n, &cd), sc(&c.n, &ad), Z::new(false, a.d.mul(&cd)).rw());
    cx.eq("common_denom", ar, || { let (p, q, d) = common_denom(&x, &y); (p.rw(), q.rw(), d.rw()) }, &w);
    cx.check("operands", x.rw() == a.rw() && y.rw() == c.rw(), || format!("operands changed: {a:?}, {c:?}"));
}
fn with_int(a: &Q, c: &Z, cx: &mut Cx) {
    let x = r(a); let y = b(c); let k = Q::from_z(c.clone()); let ar = || format!("{a:?}, {c}");
    let (s, d, p) = (a.add(&k).rw(), a.sub(&k).rw(), a.mul(&k).rw());
    cx.eq("add_bi", ar, || x.add_bi(&y).rw(), &s); cx.eq("add_bi_mut", ar, || { let mut z = x.clone(); z.add_bi_mut(&y); z.rw() }, &s);
    cx.eq("sub_bi", ar, || x.sub_bi(&y).rw(), &d); cx.eq("sub_bi_mut", ar, || { let mut z = x.clone(); z.sub_bi_mut(&y); z.rw() }, &d);
    cx.eq("mul_bi", ar, || x.mul_bi(&y).rw(), &p); cx.eq("mul_bi_mut", ar, || { let mut z = x.clone(); z.mul_bi_mut(&y); z.rw() }, &p);
    if !c.is_zero() { let q = a.div(&k).rw(); cx.eq("div_bi", ar, || x.div_bi(&y).rw(), &q); cx.eq("div_bi_mut", ar, || { let mut z = x.clone(); z.div_bi_mut(&y); z.rw() }, &q); }
}
pub fn with_word(a: &Q, w: i32, cx: &mut Cx) {
    let x = r(a); let k = Q::from_i128(w as i128); let ar = || format!("{a:?}, {w}");
    let (s, d, p) = (a.add(&k).rw(), a.sub(&k).rw(), a.mul(&k).rw());
    cx.eq("add_i32", ar, || x.add_i32(w).rw(), &s); cx.eq("add_i32_mut", ar, || { let mut z = x.clone(); z.add_i32_mut(w); z.rw() }, &s);
    cx.eq("sub_i32", ar, || x.sub_i32(w).rw(), &d); cx.eq("sub_i32_mut", ar, || { let mut z = x.clone(); z.sub_i32_mut(w); z.rw() }, &d);
    cx.eq("mul_i32", ar, || x.mul_i32(w).rw(), &p); cx.eq("mul_i32_mut", ar, || { let mut z = x.clone(); z.mul_i32_mut(w); z.rw() }, &p);
    if w != 0 { let q = a.div(&k).rw(); cx.eq("div_i32", ar, || x.div_i32(w).rw(), &q); cx.eq("div_i32_mut", ar, || { let mut z = x.clone(); z.div_i32_mut(w); z.rw() }, &q); }
}
fn unary(a: &Q, cx: &mut Cx, emax: i32) {
    let x = r(a); let ar = || format!("{a:?}");
    cx.eq("neg", ar, || x.neg().rw(), &a.negate().rw()); cx.eq("neg_mut", ar, || { let mut z = x.clone(); z.neg_mut(); z.rw() }, &a.negate().rw());
    cx.eq("abs", ar, || x.abs().rw(), &a.abs().rw()); cx.eq("abs_mut", ar, || { let mut z = x.clone(); z.abs_mut(); z.rw() }, &a.abs().rw());
    if !a.is_zero() { cx.eq("reci", ar, || x.reci().rw(), &a.reci().rw()); cx.eq("reci_mut", ar, || { let mut z = x.clone(); z.reci_mut(); z.rw() }, &a.reci().rw()); }
    for e in -emax..=emax { if e < 0 && a.is_zero() { continue; } let w = a.pow(e).rw(); let ar = || format!("{a:?}, {e}");
        cx.eq("pow_i32", ar, || x.pow_i32(e).rw(), &w); cx.eq("pow_i32_mut", ar, || { let mut z = x.clone(); z.pow_i32_mut(e); z.rw() }, &w); }
}
fn build(d: &Z, n: &Z, cx: &mut Cx) {
    if d.is_zero() { return; }
    let w = Q::new(n.clone(), d.clone()); let ar = || format!("{d}, {n}");
    cx.eq("from_denom_and_numer", ar, || Ratio::from_denom_and_numer(b(d), b(n)).rw(), &w.rw());
    if let (Some(p), Some(q)) = (d.to_i128().and_then(|v| i32::try_from(v).ok()), n.to_i128().and_then(|v| i32::try_from(v).ok())) {
        cx.eq("from_denom_and_numer_i32", ar, || Ratio::from_denom_and_numer_i32(p, q).rw(), &w.rw());
        cx.eq("Ratio::try_from((d, n))", ar, || Ratio::try_from((p.to_string(), q.to_string().as_str())).map(|x| x.rw()).ok(), &Some(w.rw()));
    }
}
fn shrink(a: &Q, cx: &mut Cx) {
    for limit in [0usize, 1, 2, 3, 4, 5, 8, 16, 40] {
        let ar = || format!("{a:?}, {limit}");
        if let Some((res, x)) = cx.op("shrink", ar, || { let mut x = r(a); let k = x.shrink(limit); (k, x) }) {
            let raw = x.rw(); let g = mq(&x);
            if !canon_q(&raw) { cx.fail("shrink.canonical", || format!("shrink({}) left {raw:?}", ar())); continue; }
            if !g.sub(a).abs().le(&a.abs().mul(&Q::pow2(-60))) { cx.fail("shrink.value", || format!("shrink({}) changed the value beyond 2^-60: {g:?}", ar())); }
            let fits = raw.0.len() <= limit && raw.2.len() <= limit;
            match res { Ok(_) => { if g != *a { cx.hit("shrunk"); } if !fits { cx.fail("shrink.limit", || format!("shrink({}) = {res:?} but the sizes are {} and {}", ar(), raw.2.len(), raw.0.len())); } }
                Err(_) => { cx.hit("over the limit"); } }
        }
    }
}
/// fractions that share chosen factors: numerators and denominators are all products of the given factors
fn smooth(fs: &[u64], maxlen: usize) -> Vec<Q> {
    let mut prods = vec![N::one()]; let mut cur = vec![N::one()];
    for _ in 0..maxlen { let mut nx = vec![]; for p in &cur { for f in fs { nx.push(p.mul(&N::from_u128(*f as u128))); } } cur = dedup(nx); prods.extend(cur.clone()); }
    let prods = dedup(prods); let mut o = vec![Q::zero()];
    for n in &prods { for d in &prods { if n.gcd(d).is_one() { o.push(Q { n: Z::new(false, n.clone()), d: d.clone() }); o.push(Q { n: Z::new(true, n.clone()), d: d.clone() }); } } }
    dedup_q(o)
}
pub fn c10(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let f = if th { fracs(40, 24) } else { fracs(20, 14) };
    s.push(Suite::pairs("small-fractions", "all pairs p/q with |p| <= 20 (40), q <= 14 (24)", f.clone(), f.clone(), pair));
    let c = if th { crit_q(A4, 2, 2) } else { crit_q(A3, 2, 2) };
    s.push(Suite::pairs("limb-patterns", "all pairs of fractions whose parts have critical limbs", c.clone(), c.clone(), pair));
    let lt = crit_q(A24, 1, 1);
    s.push(Suite::pairs("letters", "fractions of one-limb parts over 24 border letters against the critical fractions, both orders", lt.clone(), if th { crit_q(A7, 1, 1) } else { crit_q(A5, 1, 1) }, |a, c, cx| { pair(a, c, cx); pair(c, a, cx); }));
    s.push(Suite::pairs("letters-words", "the same fractions x critical machine words", lt.clone(), iwords(), |a, w, cx| { with_word(a, *w, cx); with_int(a, &Z::from_i128(*w as i128), cx); }));
    s.push(Suite::list("letters-unary", "the same fractions and their two-limb extensions: unary operations, powers", { let mut v = lt; v.extend(crit_q(A9, 2, 1)); v.extend(crit_q(A9, 1, 2)); dedup_q(v) }, |a, cx| unary(&a, cx, 4)));
    let sm = if th { smooth(&[2, 3, 0x1_0000_0000, 0xffff_fffb], 3) } else { smooth(&[2, 3, 0x1_0000_0000, 0xffff_fffb], 2) };
    s.push(Suite::pairs("shared-factors", "all pairs of fractions built from products of 2, 3, 2^32 and a 32-bit prime: every cancellation pattern", sm.clone(), sm.clone(), pair));
    let zs = signed(&cat(vec![smalls(if th { 60 } else { 30 }), nats(A5, 2), nats(A3, 3), vec![N::from_u128(0xffff_fffb), N::from_u128(6 << 32)]]));
    let mut all = f.clone(); all.extend(c.clone()); all.extend(sm.clone()); let all = dedup_q(all);
    s.push(Suite::pairs("integer-operands", "fractions x integers, both as big integers", all.clone(), zs, with_int));
    s.push(Suite::pairs("word-operands", "fractions x critical machine words including the most negative", all.clone(), iwords(), |a, w, cx| with_word(a, *w, cx)));
    let e = if th { 12 } else { 6 };
    s.push(Suite::list("unary", "negation, absolute value, reciprocal, powers -6..=6 (12)", all.clone(), move |a, cx| unary(&a, cx, e)));
    s.push(Suite::pairs("high-powers", "small fractions to every power to 80 (300)", fracs(5, 4), (-(if th { 300 } else { 80 })..=(if th { 300 } else { 80 })).collect::<Vec<i32>>(), |a, e, cx| { if *e < 0 && a.is_zero() { return; } let w = a.pow(*e).rw(); let x = r(a); cx.eq("pow_i32", || format!("{a:?}, {e}"), || x.pow_i32(*e).rw(), &w); cx.eq("pow_i32_mut", || format!("{a:?}, {e}"), || { let mut z = x.clone(); z.pow_i32_mut(*e); z.rw() }, &w); }));
    let k = if th { 300 } else { 120 };
    let small: Vec<Z> = (-k..=k).map(Z::from_i128).collect();
    s.push(Suite::pairs("constructors-small", "every numerator and denominator in -120..=120 (300)", small.clone(), small, build));
    let bz = signed(&cat(vec![nats(A5, 2), nats(A3, 3), words().into_iter().map(|w| N::from_u128(w as u128)).collect()]));
    s.push(Suite::pairs("constructors-critical", "critical numerators and denominators of either sign", bz.clone(), bz, build));
    let ls: Vec<Q> = { let l = longs(&[1, 2, 3, 4, 5, 8, 9, 12, 20, 33], &[1, MAX], &[Fill::Mix, Fill::Ones, Fill::Zero], &[1, MAX]); let m = longs(&[1, 2, 3, 4, 5, 8, 9, 12, 20, 33], &[1, H], &[Fill::MixB, Fill::Zero], &[1, 2]); let mut o = vec![]; for a in &l { for c in &m { o.push(Q::new(Z::new(a.0[0] == 1, a.clone()), Z::new(false, c.clone()))); } } dedup_q(o) };
    let lp: Vec<Q> = ls.iter().step_by(if th { 5 } else { 47 }).cloned().collect();
    s.push(Suite::pairs("long-fractions", "patterned fractions up to 33 limbs", lp.clone(), lp, pair));
    let lens: &[usize] = if th { &[1, 2, 3, 7, 20, 41, 80, 160] } else { &[1, 2, 7, 20, 80] };
    let mut grid = vec![]; for (i, &p) in lens.iter().enumerate() { for (j, &q) in lens.iter().enumerate() { grid.push(Q::new(Z::new((i + j) % 2 == 1, long(p, MAX, Fill::Mix, 7)), Z::new(false, long(q, 1, Fill::MixB, 6)))); } }
    let com = long(9, 3, Fill::Ones, 5); for (i, &p) in lens.iter().enumerate() { grid.push(Q::new(Z::new(i % 2 == 0, long(p, 2, Fill::Alt, 3)), Z::new(false, com.mul(&long(p, H, Fill::Mix, 1))))); grid.push(Q::new(Z::new(i % 2 == 0, com.mul(&long(p, 2, Fill::Mix, 3))), Z::new(false, long(p, 1, Fill::High, 1)))); }
    s.push(Suite::pairs("length-grid", "every combination of the four part lengths from a ladder to 80 (160) limbs, some with a common nine-limb factor", dedup_q(grid.clone()), dedup_q(grid.clone()), pair));
    s.push(Suite::pairs("length-grid-integers", "fractions of every length combination x integers of every length, sharing factors with either part", qgrid(&[1, 2, 3, 5, 9, 20]), { let mut v = vec![]; for &l in &[1usize, 2, 3, 5, 9, 20, 40] { v.push(long(l, 1, Fill::MixB, 6)); v.push(long(l, MAX, Fill::Mix, 7)); v.push(long(l, 3, Fill::Zero, 0)); } v.push(long(9, 1, Fill::MixB, 6).mul_small(35)); signed(&dedup(v)) }, with_int));
    s.push(Suite::pairs("length-grid-words", "the same fractions x critical machine words", qgrid(&[1, 2, 3, 5, 9, 20]), iwords(), |a, w, cx| with_word(a, *w, cx)));
    s.push(Suite::new("all-lengths", "every pair of numerator and denominator lengths to 16 limbs against fractions sharing a denominator factor, a numerator factor, the reciprocal, the negative and a word", 256 * 2, |i| { let (l1, l2) = ((i / 2 / 16) as usize + 1, (i / 2 % 16) as usize + 1); Q::new(Z::new(i % 2 == 1, long(l1, 0x1357_9bdf, Fill::Mix, 3)), Z::new(false, long(l2, 0x9e37_79b9, Fill::MixB, 10))) }, |a, cx| {
        let f = Z::new(false, N::from_u128(0xffff_fffb)); for c in [Q::new(Z::from_i128(5), Z::new(false, a.d.mul_small(3))), Q::new(Z::new(true, a.n.m.mul_small(7)), f), a.reci(), a.negate(), Q::frac(-1, 2)] { pair(&a, &c, cx); } unary(&a, cx, 2); }));
    s.push(Suite::list("length-grid-unary", "the same fractions: negation, reciprocal, powers -3..=3", dedup_q(grid), |a, cx| unary(&a, cx, 3)));
    let ex: Vec<i32> = { let mut v = vec![]; for k in [16, 29, 30, 31] { for d in -2i64..=2 { for sg in [1, -1] { if let Ok(e) = i32::try_from(sg * ((1i64 << k) + d)) { v.push(e); } } } } v.extend([i32::MIN, i32::MAX]); v.sort(); v.dedup(); v };
    s.push(Suite::pairs("extreme-powers", "0, 1 and -1 to powers around 2^16 and 2^29 to 2^31, both signs", vec![Q::zero(), Q::from_i128(1), Q::from_i128(-1)], ex, |a, e, cx| { if a.is_zero() && *e < 0 { return; } let w = if a.n.neg && e % 2 == 0 { a.negate() } else { a.clone() }.rw(); let x = r(a); let ar = || format!("{a:?}, {e}");
        cx.eq("pow_i32", ar, || x.pow_i32(*e).rw(), &w); cx.eq("pow_i32_mut", ar, || { let mut z = x.clone(); z.pow_i32_mut(*e); z.rw() }, &w); }));
    s.push(Suite::pairs("complex", "complex numbers with every pair of small and critical parts", { let mut v = fracs(6, 5); v.extend(crit_q(A3, 2, 1)); dedup_q(v) }, { let mut v = fracs(6, 5); v.extend(crit_q(A3, 2, 1)); dedup_q(v) }, complex));
    s.push(Suite::list("shrink", "size reduction with every limit: canonical, within 2^-60, within the limit when it says so", ls.into_iter().chain(c).collect(), |a, cx| shrink(&a, cx)));
    let qe = qevery(if th { 60 } else { 36 });
    s.push(Suite::pairs("every-length-words", "fractions with every part length to 36 (60) limbs x 17 words of both signs", qe.clone(), IW.to_vec(), |a, w, cx| with_word(a, *w, cx)));
    s.push(Suite::pairs("every-length-integers", "the same fractions x integers of six lengths, sharing factors with a part, and near the value", qe.clone(), (0..9u32).collect(), |a, k, cx| { let c = match k { 0 => a.n.clone(), 1 => Z::new(true, a.d.clone()), 2 => Z::new(false, long(a.d.0.len(), 3, Fill::Alt, 2)), 3 => a.trunc(), 4 => a.floor(), 5 => Z::new(false, a.d.mul_small(6)), 6 => Z::new(true, long(1, 0x1357_9bdf, Fill::Zero, 0x1357_9bdf)), 7 => Z::new(true, long(9, MAX, Fill::Ones, MAX)), _ => Z::new(false, long(20, 1, Fill::Mix, 1)) }; with_int(a, &c, cx) }));
    s.push(Suite::list("every-length-pairs", "the same fractions against fractions sharing a factor, neighbours, reciprocal, negative and itself; unary forms; size reduction", qe, |a, cx| {
        let f = Z::new(false, N::from_u128(0xffff_fffb)); let l = a.d.0.len().max(1);
        for c in [Q::new(Z::from_i128(5), Z::new(false, a.d.mul_small(3))), Q::new(Z::new(true, a.n.m.mul_small(7)), f), a.reci(), a.negate(), a.clone(), Q::new(Z::new(true, long(l, 1, Fill::Alt, 9)), Z::new(false, long(l, 7, Fill::MixB, 4)))] { pair(&a, &c, cx); pair(&c, &a, cx); }
        unary(&a, cx, 2); shrink(&a, cx); cx.eq("parts", || format!("{a:?}"), || { let x = r(&a); (x.get_denom().rw(), x.get_numer().rw()) }, &(a.dz().rw(), a.n.rw()));
    }));
    s
}
/// complex numbers over the rationals: construction keeps the parts, addition is componentwise
fn complex(a: &Q, c: &Q, cx: &mut Cx) {
    let ar = || format!("{a:?}, {c:?}"); let parts = |z: &Complex| (z.real().rw(), z.imaginary().rw());
    let z = || Complex::from_real_and_imag(r(a), r(c)); let w = || Complex::from_real_and_imag(r(&c.negate()), r(a));
    cx.eq("Complex::from_real_and_imag", ar, || parts(&z()), &(a.rw(), c.rw()));
    if a.is_int() && c.is_int() { cx.eq("Complex::try_from_real_and_imag", ar, || Complex::try_from_real_and_imag(a.n.to_string(), c.n.to_string()).map(|k| parts(&k)).ok(), &Some((a.rw(), c.rw()))); }
    let s = (a.sub(c).rw(), c.add(a).rw());
    cx.eq("Complex.add", ar, || parts(&z().add(&w())), &s); cx.eq("Complex.add_mut", ar, || { let mut k = z(); k.add_mut(&w()); parts(&k) }, &s);
    for i in [0, 1, -1, i32::MAX, i32::MIN] { let s = (a.add(&Q::from_i128(i as i128)).rw(), c.rw()); let ar = || format!("{a:?}, {c:?}, {i}");
        cx.eq("Complex.add_i32", ar, || parts(&z().add_i32(i)), &s); cx.eq("Complex.add_i32_mut", ar, || { let mut k = z(); k.add_i32_mut(i); parts(&k) }, &s); }
}
pub fn rounding(q: &Q, cx: &mut Cx) {
    let x = r(q); let ar = || format!("{q:?}"); let (t, fl, ro) = (q.trunc(), q.floor(), q.round()); let f = q.sub(&Q::from_z(t.clone()));
    let rz = |z: &Z| Q::from_z(z.clone()).rw();
    cx.eq("truncate", ar, || x.truncate().rw(), &rz(&t)); cx.eq("truncate_bi", ar, || x.truncate_bi().rw(), &t.rw()); cx.eq("truncate_mut", ar, || { let mut z = x.clone(); z.truncate_mut(); z.rw() }, &rz(&t));
    cx.eq("floor", ar, || x.floor().rw(), &rz(&fl)); cx.eq("floor_bi", ar, || x.floor_bi().rw(), &fl.rw());
    cx.eq("round", ar, || x.round().rw(), &rz(&ro)); cx.eq("round_bi", ar, || x.round_bi().rw(), &ro.rw());
    cx.eq("frac", ar, || x.frac().rw(), &f.rw()); cx.eq("frac_mut", ar, || { let mut z = x.clone(); z.frac_mut(); z.rw() }, &f.rw());
    cx.eq("truncate_and_frac", ar, || { let (a, c) = x.truncate_and_frac(); (a.rw(), c.rw()) }, &(t.rw(), f.rw()));
    cx.eq("is_integer", ar, || x.is_integer(), &q.is_int());
    if q.d == N::from_u128(2) { cx.hit("halfway"); } if q.n.neg && !f.is_zero() { cx.hit("negative with fraction"); } if t.is_zero() && q.n.neg { cx.hit("truncates to zero from below"); }
}
pub fn c11(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let f = if th { fracs(3000, 120) } else { fracs(900, 50) };
    s.push(Suite::list("small-fractions", "every p/q with |p| <= 900 (3000), q <= 50 (120)", f, |q, cx| rounding(&q, cx)));
    s.push(Suite::list("limb-patterns", "fractions whose parts have critical limbs", if th { crit_q(A7, 3, 2) } else { crit_q(A5, 3, 2) }, |q, cx| rounding(&q, cx)));
    s.push(Suite::list("letters", "fractions whose parts range over 24 border letters, numerators of two limbs or denominators of two", { let mut v = crit_q(A24, 2, 1); v.extend(crit_q(A24, 1, 2)); dedup_q(v) }, |q, cx| rounding(&q, cx)));
    let lm = if th { 40usize } else { 24 };
    s.push(Suite::new("all-lengths", "for every pair of lengths of quotient and denominator to 24 (40) limbs: k + {0, 1/d, just below and above a half, exactly a half, 1 - 1/d}, both signs", (lm * lm * 10) as u64,
        move |i| { let p = i % 10; let j = (i / 10) as usize; let (l1, l2) = (j / lm + 1, j % lm + 1); let k = long(l1, 0x1357_9bdf, Fill::Mix, 3); let mut d = long(l2, 0x9e37_79b9, Fill::MixB, 6); if l2 == 1 { d = N::from_u128(0x9e37_79b8); }
            let h = d.shr(1); let off = match p % 5 { 0 => N::zero(), 1 => N::one(), 2 => h.sub(&N::one()), 3 => h.clone(), _ => d.sub(&N::one()) }; Q::new(Z::new(p >= 5, k.mul(&d).add(&off)), Z::new(false, d)) },
        |q, cx| { rounding(&q, cx); rounding(&q.add(&Q::new(Z::from_i128(if q.n.neg { -1 } else { 1 }), Z::new(false, q.d.shl(1)))), cx); }));
    s.push(Suite::new("halfway-lengths", "k + 1/2 for k of every length to 80 limbs x 4 patterns, both signs", 640, |i| { let l = (i / 8) as usize + 1; let f = [Fill::Mix, Fill::Ones, Fill::Zero, Fill::MixB][(i % 4) as usize]; Q::new(Z::new(i & 4 == 4, long(l, [1, MAX, H, 0x1234_5678][(i % 4) as usize], f, 5).shl(1).add_small(1)), Z::from_i128(2)) }, |q, cx| rounding(&q, cx)));
    s.push(Suite::list("limb-patterns-long", "fractions over a smaller alphabet, longer parts", crit_q(A3, if th { 5 } else { 4 }, 3), |q, cx| rounding(&q, cx)));
    let mut v = vec![]; for d in longs(&[1, 2, 8, 33, 65, 100, 150], &[1, MAX], &[Fill::Mix, Fill::Zero], &[2, MAX]) { let h = d.shr(1); for k in longs(&[1, 5, 40, 65, 130], &[1], &[Fill::Ones, Fill::MixB], &[0, 1]) { for off in [N::zero(), N::one(), h.clone(), h.add_small(1), d.sub(&N::one())] { for neg in [false, true] { v.push((Z::new(neg, k.mul(&d).add(&off)), d.clone())); } } } }
    s.push(Suite::list("huge", "k + off/d with k to 130 limbs, d to 150 limbs, off around 0, d/2 and d", v, |(n, d), cx| rounding(&Q::new(n, Z::new(false, d)), cx)));
    s.push(Suite::list("length-grid", "every combination of part lengths to 33 limbs", qgrid(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 33]), |q, cx| rounding(&q, cx)));
    let base = signed(&cat(vec![smalls(60), pow2_hood(if th { 200 } else { 100 }, 2), nats(A4, 3)]));
    let offs: Vec<Q> = { let mut o = vec![Q::zero()]; for d in [2i128, 3, 4, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) - 1, 1 << 64, (1 << 64) - 1, 1 << 100] { for n in [1, d / 2, d / 2 + 1, d / 2 - 1, d - 1] { if n > 0 && n < d { o.push(Q::frac(n, d)); o.push(Q::frac(-n, d)); } } } dedup_q(o) };
    s.push(Suite::pairs("near-boundaries", "critical integers plus or minus 0, 1/2, a hair off 1/2, a hair off an integer", base, offs, |z, o, cx| rounding(&Q::from_z(z.clone()).add(o), cx)));
    s
}
