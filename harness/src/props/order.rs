//! C06: comparisons and hashing.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use std::cmp::Ordering::{self, *};
use std::hash::{Hash, Hasher};

fn h<T: Hash>(x: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }

macro_rules! order_case { ($cx:ident, $x:expr, $y:expr, $o:expr, $ar:expr) => {{
    let (x, y, o, ar) = ($x, $y, $o, $ar);
    $cx.eq("lt", ar, || x.lt(&y), &(o == Less));
    $cx.eq("gt", ar, || x.gt(&y), &(o == Greater));
    $cx.eq("leq", ar, || x.leq(&y), &(o != Greater));
    $cx.eq("geq", ar, || x.geq(&y), &(o != Less));
    $cx.eq("eq", ar, || x.eq(&y), &(o == Equal));
    $cx.eq("neq", ar, || x.neq(&y), &(o != Equal));
    $cx.eq("comp", ar, || x.comp(&y), &o);
}}}
pub fn traits<T: Ord + Clone + Hash + std::fmt::Debug>(x: &T, y: &T, o: Ordering, ar: &dyn Fn() -> String, cx: &mut Cx) {
    cx.eq("Ord::cmp", ar, || Ord::cmp(x, y), &o);
    cx.eq("PartialOrd", ar, || PartialOrd::partial_cmp(x, y), &Some(o));
    cx.eq("operators", ar, || (x < y, x <= y, x > y, x >= y, x == y, x != y), &(o == Less, o != Greater, o == Greater, o != Less, o == Equal, o != Equal));
    cx.eq("max", ar, || Ord::max(x.clone(), y.clone()), if o == Less { y } else { x });
    cx.eq("min", ar, || Ord::min(x.clone(), y.clone()), if o == Greater { y } else { x });
    if o == Equal { cx.eq("hash", ar, || h(x) == h(y), &true); cx.hit("equal"); } else { cx.hit("unequal"); }
}
pub fn un(a: &N, c: &N, cx: &mut Cx) { let ar = || format!("{a}, {c}"); let (x, y) = (u(a), u(c)); order_case!(cx, &x, &y, a.cmp(c), ar); traits(&x, &y, a.cmp(c), &ar, cx); }
fn si(a: &Z, c: &Z, cx: &mut Cx) { let ar = || format!("{a}, {c}"); let (x, y) = (b(a), b(c)); order_case!(cx, &x, &y, a.cmp(c), ar); traits(&x, &y, a.cmp(c), &ar, cx); }
pub fn ra(a: &Q, c: &Q, cx: &mut Cx) { let ar = || format!("{a:?}, {c:?}"); let (x, y) = (r(a), r(c)); order_case!(cx, &x, &y, a.cmp(c), ar); traits(&x, &y, a.cmp(c), &ar, cx); }
macro_rules! word_case { ($cx:ident, $x:expr, $w:expr, $o:expr, $ar:expr, $lt:ident, $gt:ident, $leq:ident, $geq:ident, $eq:ident, $neq:ident, $comp:ident) => {{
    let (x, w, o, ar) = ($x, $w, $o, $ar);
    $cx.eq(stringify!($lt), ar, || x.$lt(w), &(o == Less));
    $cx.eq(stringify!($gt), ar, || x.$gt(w), &(o == Greater));
    $cx.eq(stringify!($leq), ar, || x.$leq(w), &(o != Greater));
    $cx.eq(stringify!($geq), ar, || x.$geq(w), &(o != Less));
    $cx.eq(stringify!($eq), ar, || x.$eq(w), &(o == Equal));
    $cx.eq(stringify!($neq), ar, || x.$neq(w), &(o != Equal));
    $cx.eq(stringify!($comp), ar, || x.$comp(w), &o);
}}}
pub fn uword(a: &N, w: u32, cx: &mut Cx) { let x = u(a); word_case!(cx, &x, w, a.cmp(&N::from_u128(w as u128)), || format!("{a}, {w}"), lt_u32, gt_u32, leq_u32, geq_u32, eq_u32, neq_u32, comp_u32); }
pub fn sword(a: &Z, w: i32, cx: &mut Cx) { let x = b(a); word_case!(cx, &x, w, a.cmp(&Z::from_i128(w as i128)), || format!("{a}, {w}"), lt_i32, gt_i32, leq_i32, geq_i32, eq_i32, neq_i32, comp_i32); }
pub fn rword(a: &Q, w: i32, cx: &mut Cx) {
    let x = r(a); word_case!(cx, &x, w, a.cmp(&Q::from_i128(w as i128)), || format!("{a:?}, {w}"), lt_i32, gt_i32, leq_i32, geq_i32, eq_i32, neq_i32, comp_i32);
    if w == 1 {
        cx.eq("lt_one", || format!("{a:?}"), || x.lt_one(), &a.lt(&Q::one()));
        cx.eq("gt_one", || format!("{a:?}"), || x.gt_one(), &Q::one().lt(a));
        cx.eq("Ratio.is_neg", || format!("{a:?}"), || x.is_neg(), &a.n.neg);
        cx.eq("Ratio.is_zero", || format!("{a:?}"), || x.is_zero(), &a.is_zero());
        cx.eq("Ratio.is_one", || format!("{a:?}"), || x.is_one(), &(*a == Q::one()));
        cx.eq("Ratio.is_integer", || format!("{a:?}"), || x.is_integer(), &a.is_int());
    }
}
/// all fractions p/q with |p| <= np, 1 <= q <= nq in lowest terms
pub fn fracs(np: i128, nq: i128) -> Vec<Q> { let mut o = vec![]; for q in 1..=nq { for p in 0..=np { if num_gcd(p as u128, q as u128) == 1 { o.push(Q::frac(p, q)); if p > 0 { o.push(Q::frac(-p, q)); } } } } o }
pub fn num_gcd(mut a: u128, mut c: u128) -> u128 { while c != 0 { let t = a % c; a = c; c = t; } a }
pub fn crit_q(alpha: &[u32], nl: usize, dl: usize) -> Vec<Q> { let mut o = vec![]; for d in nats(alpha, dl) { if d.is_zero() { continue; } for n in signed(&nats(alpha, nl)) { o.push(Q::new(n, Z::new(false, d.clone()))); } } dedup_q(o) }

/// 192-bit floats: (sign, exponent, 127-bit fraction)
pub fn c06(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let v = if th { cat(vec![smalls(300), nats(A7, 3), nats(A5, 4), nats(A4, 5)]) } else { cat(vec![smalls(60), nats(A7, 3), nats(A4, 4), nats(A3, 5)]) };
    s.push(Suite::pairs("unsigned", "all pairs over critical limb alphabets and small values", v.clone(), v, un));
    let ls = longs(&[1, 2, 3, 8, 31, 32, 33, 64, 65, 130], &[1, 2, MAX], FILLS, &[0, 1, MAX]);
    s.push(Suite::pairs("unsigned-long", "all pairs of patterned naturals up to 130 limbs (same and different lengths, same prefixes)", ls.clone(), ls.clone(), un));
    // same value except one limb
    let mut od = vec![]; for len in 1..=(if th { 9 } else { 7 }) { for i in 0..len { for f in [0u32, MAX, 5] { for x in [0u32, 1, 5, MAX - 1, MAX] { let mut v = vec![f; len]; v[len - 1] = v[len - 1].max(1); v[i] = x; if v[len - 1] != 0 { od.push(N(v)); } } } } } let od = dedup(od);
    s.push(Suite::pairs("unsigned-one-limb", "values that differ in single limbs", od.clone(), od.clone(), un));
    let le = nats(A24, 2);
    s.push(Suite::pairs("letters", "all pairs of one- and two-limb naturals over 24 border letters, as unsigned and as signed values of every sign", le.clone(), le, |a, c, cx| { un(a, c, cx); for k in 1..4 { si(&Z::new(k & 1 == 1 && !a.is_zero(), a.clone()), &Z::new(k & 2 == 2 && !c.is_zero(), c.clone()), cx); } }));
    for l in [3usize, 6] { let sp = spotted(&[l], F3, if th { A24 } else { A9 }); s.push(Suite::pairs(if l == 3 { "spotted-3" } else { "spotted-6" }, "all pairs of naturals of the same length with each letter at each position", sp.clone(), sp, un)); }
    let mut hu = vec![]; for len in [200usize, 256, 257, 513, 1025] { for f in [Fill::Zero, Fill::Ones, Fill::Mix] { let base = long(len, 7, f, 3); hu.push(base.clone()); for i in [0usize, 1, 31, 32, 63, 64, 127, 128, 199, len - 2, len - 1] { if i < len { let mut v = base.clone(); v.0[i] = v.0[i].wrapping_add(1).max(1); hu.push(v); } } } } let hu = dedup(hu);
    s.push(Suite::pairs("unsigned-huge", "naturals of 200 to 1025 limbs that differ in a single limb", hu.clone(), hu, un));
    let v = signed(&if th { cat(vec![smalls(120), nats(A7, 3), nats(A3, 5)]) } else { cat(vec![smalls(40), nats(A5, 3), nats(A3, 4)]) });
    s.push(Suite::pairs("signed", "all signed pairs", v.clone(), v, si));
    s.push(Suite::pairs("signed-one-limb", "signed values that differ in single limbs", signed(&od), signed(&od), si));
    let uw = cat(vec![smalls(50), nats(A7, 2), nats(A3, 4), words().into_iter().map(|w| N::from_u128(w as u128)).collect()]);
    s.push(Suite::pairs("unsigned-words", "critical naturals x critical words", uw.clone(), words(), |a, w, cx| uword(a, *w, cx)));
    let mut sw = uw; sw.extend(pow2_hood(70, 2)); let sw = signed(&dedup(sw));
    s.push(Suite::pairs("signed-words", "critical signed integers x critical words", sw, iwords(), |a, w, cx| sword(a, *w, cx)));
    let f = if th { fracs(30, 20) } else { fracs(14, 11) };
    s.push(Suite::pairs("ratio-small", "all pairs of fractions p/q with small p, q", f.clone(), f.clone(), ra));
    let f2 = if th { crit_q(A4, 2, 2) } else { crit_q(A3, 2, 2) };
    s.push(Suite::pairs("ratio-critical", "all pairs of fractions with critical multi-limb numerator and denominator", f2.clone(), f2.clone(), ra));
    let mut fw = f; fw.extend(f2); let mut nearw = vec![]; for w in iwords() { for d in [3i128, 1 << 32, 1 << 70] { for e in [-1i128, 0, 1] { nearw.push(Q::from_i128(w as i128).add(&Q::frac(e, d))); } } } fw.extend(nearw); let fw = dedup_q(fw);
    s.push(Suite::pairs("ratio-words", "fractions x critical words, including values a hair off the word", fw, iwords(), |a, w, cx| rword(a, *w, cx)));
    let g = qgrid(if th { &[1, 2, 3, 4, 5, 6, 7, 9, 12, 20] } else { &[1, 2, 3, 4, 6, 9] });
    s.push(Suite::pairs("ratio-lengths", "all pairs of fractions with every combination of part lengths to 9 (20) limbs", g.clone(), g.clone(), ra));
    let mut near = vec![]; for q in qgrid(&[1, 2, 3, 5, 9, 16]) { for k in [1u64, 32, 64, 200] { for e in [1i128, -1] { near.push((q.clone(), q.add(&Q::from_i128(e).mul(&Q::new(Z::from_i128(1), Z::new(false, q.d.shl(k))))))); } } }
    s.push(Suite::list("ratio-hairs", "fractions that differ by 2^-k of a unit of the denominator", near, |(a, c), cx| { ra(&a, &c, cx); ra(&c, &a, cx); }));
    s.push(Suite::pairs("ratio-near-words", "w + e/d for words w and e in {-1, 0, 1}, d of every length to 40 limbs: word comparisons and order against its neighbours", (1..=40usize).flat_map(|l| [long(l, 1, Fill::Zero, 1), long(l, 0x9e37_79b9, Fill::MixB, 7), long(l, MAX, Fill::Ones, MAX)]).collect(), iwords(), |d, w, cx| {
        for e in [-1i128, 0, 1] { let q = Q::from_i128(*w as i128).add(&Q::new(Z::from_i128(e), Z::new(false, d.clone()))); rword(&q, *w, cx); if w.unsigned_abs() < 3 { rword(&q, 1, cx); rword(&q, 0, cx); ra(&q, &Q::from_i128(*w as i128), cx); ra(&Q::from_i128(*w as i128), &q, cx); } }
    }));
    s.push(Suite::pairs("ratio-length-words", "fractions of every length combination x critical words", g, iwords(), |a, w, cx| rword(a, *w, cx)));
    s.extend(super::f192::order_suites(th));
    // a value of every length against itself, its neighbours and the same value with one limb changed
    s.push(Suite::list("every-length", "naturals of every length to 100 limbs against themselves, their neighbours, one limb more or less, and with the lowest, second, middle and top limb changed: unsigned and every combination of signs", every(100), |n, cx| {
        let l = n.0.len().max(1); let mut o = vec![n.clone(), n.add_small(1), n.shl(32), n.shr(32), long(l, 1, Fill::Zero, 0)];
        for i in [0, 1, l / 2, l - 1] { if i < n.0.len() { let mut v = n.clone(); v.0[i] ^= 2; o.push(N::from_limbs(&v.0)); } }
        for m in dedup(o) { un(&n, &m, cx); un(&m, &n, cx); for k in 0..4 { si(&Z::new(k & 1 == 1, n.clone()), &Z::new(k & 2 == 2, m.clone()), cx); } }
    }));
    s.push(Suite::pairs("word-lengths", "naturals of every length to 70 limbs, both signs x 17 words of both signs", signed(&every(70)), IW.to_vec(), |a, w, cx| { sword(a, *w, cx); if !a.neg { uword(&a.m, *w as u32, cx); } }));
    s.push(Suite::pairs("ratio-word-lengths", "fractions with every part length to 70 limbs x 17 words of both signs", qevery(70), IW.to_vec(), |a, w, cx| rword(a, *w, cx)));
    s.push(Suite::list("ratio-every-length", "the same fractions against themselves, their negatives, reciprocals and values that differ in the lowest bit of a part", qevery(50), |a, cx| {
        let nz = !a.is_zero(); let mut o = vec![a.clone(), a.negate(), Q::from_z(a.trunc()), Q::new(a.n.add(&Z::from_i128(1)), a.dz()), Q::new(a.n.clone(), a.dz().add(&Z::from_i128(1)))]; if nz { o.push(a.reci()); }
        for c in o { ra(&a, &c, cx); ra(&c, &a, cx); }
    }));
    s
}
