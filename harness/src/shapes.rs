//! Operand alphabets and bounded families. All are complete enumerations of a stated finite set.
use crate::refm::*;
use hmath::{BigInt, Ratio, UBigInt};

pub const MAX: u32 = u32::MAX;
pub const H: u32 = 0x8000_0000;
/// critical limb values, simplest first
pub const A3: &[u32] = &[0, 1, MAX];
pub const A4: &[u32] = &[0, 1, MAX, H];
pub const A5: &[u32] = &[0, 1, MAX, H, MAX - 1];
pub const A7: &[u32] = &[0, 1, MAX, H, 2, H - 1, MAX - 1];
pub const A9: &[u32] = &[0, 1, MAX, H, 2, H - 1, MAX - 1, 0x10000, 0x9e37_79b9];

/// a wider alphabet: byte, half-word and word borders, alternating bits, decimal borders
pub const A24: &[u32] = &[0, 1, MAX, H, 2, H - 1, MAX - 1, 0x10000, 0x9e37_79b9, 3, 10, 0xff, 0x100, 0xffff, 0xff_ffff, 0x100_0000, 0x4000_0000, 0x3fff_ffff, H + 1, 0x5555_5555, 0xaaaa_aaaa, 0xffff_0000, 1_000_000_000, 0xc000_0000];

/// all naturals whose limbs come from `alpha`, with at most `maxlen` limbs (zero included)
pub fn nats(alpha: &[u32], maxlen: usize) -> Vec<N> {
    let mut out = vec![N::zero()];
    for len in 1..=maxlen {
        let k = alpha.len(); let total = k.pow(len as u32);
        for c in 0..total {
            let mut x = c; let mut v = vec![0; len];
            for i in (0..len).rev() { v[i] = alpha[x % k]; x /= k; }
            v.reverse();
            if v[len - 1] != 0 { out.push(N(v)); }
        }
    }
    out
}
pub fn mixlimb(i: usize) -> u32 { let mut x = (i as u32).wrapping_mul(0x9e37_79b9).wrapping_add(0x7f4a_7c15); x ^= x >> 15; x = x.wrapping_mul(0x85eb_ca6b); x ^= x >> 13; x }
#[derive(Clone, Copy, Debug)]
pub enum Fill { Zero, Ones, Mix, One, High, Alt, MixB }
pub const F3: &[Fill] = &[Fill::Mix, Fill::Ones, Fill::Zero];
pub const FILLS: &[Fill] = &[Fill::Zero, Fill::Ones, Fill::Mix, Fill::One, Fill::High, Fill::Alt, Fill::MixB];
pub fn fill(f: Fill, i: usize) -> u32 { match f { Fill::Zero => 0, Fill::Ones => MAX, Fill::Mix => mixlimb(i), Fill::One => 1, Fill::High => H, Fill::Alt => if i % 2 == 0 { MAX } else { 0 }, Fill::MixB => !mixlimb(i + 1000) } }
/// len limbs: top limb, constant or mixed filling, lowest limb
pub fn long(len: usize, top: u32, f: Fill, low: u32) -> N {
    let mut v: Vec<u32> = (0..len).map(|i| fill(f, i)).collect(); v[0] = low; v[len - 1] = top; N::from_limbs(&v)
}
pub fn longs(lens: &[usize], tops: &[u32], fills: &[Fill], lows: &[u32]) -> Vec<N> {
    let mut o = vec![]; for &l in lens { for &t in tops { for &f in fills { for &w in lows { o.push(long(l, t, f, w)); } } } } dedup(o)
}
/// one letter at every position of operands filled with zeros, ones or mixed limbs
pub fn spotted(lens: &[usize], fills: &[Fill], letters: &[u32]) -> Vec<N> {
    let mut v = vec![]; for &l in lens { for p in 0..l { for &x in letters { for &f in fills { let mut a: Vec<u32> = (0..l).map(|i| fill(f, i)).collect(); a[l - 1] |= 1; a[p] = x; v.push(N::from_limbs(&a)); } } } } dedup(v)
}
pub fn dedup(v: Vec<N>) -> Vec<N> { let mut s = std::collections::HashSet::new(); v.into_iter().filter(|x| s.insert(x.clone())).collect() }
pub fn dedup_z(v: Vec<Z>) -> Vec<Z> { let mut s = std::collections::HashSet::new(); v.into_iter().filter(|x| s.insert(x.clone())).collect() }
pub fn dedup_q(v: Vec<Q>) -> Vec<Q> { let mut s = std::collections::HashSet::new(); v.into_iter().filter(|x| s.insert(x.clone())).collect() }
/// 2^k + d, k < kmax, |d| <= w
pub fn pow2_hood(kmax: u64, w: i128) -> Vec<N> {
    let mut o = vec![]; for k in 0..kmax { for d in -w..=w { let z = Z::new(false, N::pow2(k)).add(&Z::from_i128(d)); if !z.neg { o.push(z.m); } } } dedup(o)
}
pub fn pow10_hood(kmax: u32, w: i128) -> Vec<N> {
    let mut o = vec![]; for k in 0..kmax { for d in -w..=w { let z = Z::new(false, N::from_u128(10).pow(k)).add(&Z::from_i128(d)); if !z.neg { o.push(z.m); } } } dedup(o)
}
pub fn smalls(k: u128) -> Vec<N> { (0..k).map(N::from_u128).collect() }
pub fn cat(vs: Vec<Vec<N>>) -> Vec<N> { dedup(vs.into_iter().flatten().collect()) }
/// both signs
pub fn signed(v: &[N]) -> Vec<Z> { let mut o = vec![]; for n in v { o.push(Z::new(false, n.clone())); if !n.is_zero() { o.push(Z::new(true, n.clone())); } } o }

pub fn words() -> Vec<u32> {
    let mut o: Vec<u32> = (0..=20).collect();
    for k in [5u32, 7, 8, 9, 10, 12, 15, 16, 17, 20, 23, 24, 28, 29, 30, 31] { let p = 1u32 << k; o.extend([p - 1, p, p + 1]); }
    o.extend([100, 1000, 10_000, 99_999, 100_000, 1_000_000, 999_999_999, 1_000_000_000, 1_000_000_007, 3_000_000_000, 4_000_000_000, 0x9e37_79b9, 0x5555_5555, 0xaaaa_aaaa, MAX - 2, MAX - 1, MAX]);
    o.sort(); o.dedup(); o
}
pub fn iwords() -> Vec<i32> {
    let mut o: Vec<i32> = vec![];
    for w in words() { if w <= i32::MAX as u32 { o.push(w as i32); o.push(-(w as i32)); } }
    o.extend([i32::MIN, i32::MIN + 1, i32::MIN + 2]);
    o.sort_by_key(|x| (x.unsigned_abs(), *x < 0)); o.dedup(); o
}

/// fractions with every combination of numerator and denominator length from the ladder, three digit patterns, both signs
pub fn qgrid(lens: &[usize]) -> Vec<Q> {
    let mut o = vec![];
    for &p in lens { for &q in lens { for (n, d) in [(long(p, MAX, Fill::Mix, 7), long(q, 1, Fill::MixB, 6)), (long(p, 1, Fill::Ones, MAX), long(q, H, Fill::Zero, 1)), (long(p, 0x1234_5678, Fill::MixB, 9), long(q, 0x0fed_cba9, Fill::Mix, 10))] { for neg in [false, true] { o.push(Q::new(Z::new(neg, n.clone()), Z::new(false, d.clone()))); } } } }
    dedup_q(o)
}

/// patterned naturals of every length to `max` limbs
pub fn every(max: usize) -> Vec<N> { longs(&(1..=max).collect::<Vec<_>>(), &[1, MAX], F3, &[0, MAX]) }
/// fractions in which one part or both take every length to `max` limbs
pub fn qevery(max: usize) -> Vec<Q> {
    let mut o = vec![];
    for l in 1..=max { for (p, q) in [(l, l), (l, 1), (1, l), (l, l / 2 + 1), (l / 2 + 1, l)] { for (k, (n, d)) in [(long(p, MAX, Fill::Mix, 7), long(q, 1, Fill::MixB, 6)), (long(p, 1, Fill::Ones, MAX), long(q, H, Fill::Zero, 1))].into_iter().enumerate() { o.push(Q::new(Z::new((l + k) % 2 == 1, n), Z::new(false, d))); } } }
    dedup_q(o)
}
/// a short list of machine words: both signs, borders
pub const IW: &[i32] = &[0, 1, -1, 2, -2, 3, -7, 10, 255, -256, 65_536, -65_537, 0x4000_0000, -1_000_000_007, i32::MAX, i32::MIN + 1, i32::MIN];

// ---- bridges to the implementation ----
pub fn u(n: &N) -> UBigInt { UBigInt::from_raw(n.raw()) }
pub fn b(z: &Z) -> BigInt { BigInt::from_raw(z.m.raw(), z.neg) }
pub fn r(q: &Q) -> Ratio { Ratio::from_raw(q.d.raw(), false, q.n.m.raw(), q.n.neg) }
pub type RU = Vec<u32>;
pub type RB = (Vec<u32>, bool);
pub type RR = (Vec<u32>, bool, Vec<u32>, bool);
pub trait Raw { type O; fn rw(&self) -> Self::O; }
impl Raw for UBigInt { type O = RU; fn rw(&self) -> RU { self.clone().into_raw() } }
impl Raw for BigInt { type O = RB; fn rw(&self) -> RB { self.clone().into_raw() } }
impl Raw for Ratio { type O = RR; fn rw(&self) -> RR { self.clone().into_raw() } }
impl Raw for N { type O = RU; fn rw(&self) -> RU { self.raw() } }
impl Raw for Z { type O = RB; fn rw(&self) -> RB { (self.m.raw(), self.neg) } }
impl Raw for Q { type O = RR; fn rw(&self) -> RR { (self.d.raw(), false, self.n.m.raw(), self.n.neg) } }
/// model value of an implementation value (its canonical form is judged separately)
pub fn mn(x: &UBigInt) -> N { N::from_limbs(&x.clone().into_raw()) }
pub fn mz(x: &BigInt) -> Z { let (v, s) = x.clone().into_raw(); Z::new(s, N::from_limbs(&v)) }
pub fn mq(x: &Ratio) -> Q { let (d, dn, n, nn) = x.clone().into_raw(); Q::new(Z::new(nn, N::from_limbs(&n)), Z::new(dn, N::from_limbs(&d))) }
pub fn canon_n(v: &[u32]) -> bool { !v.is_empty() && (v.len() == 1 || *v.last().unwrap() != 0) }
pub fn canon_z(v: &RB) -> bool { canon_n(&v.0) && !(v.1 && v.0 == [0]) }
pub fn canon_q(v: &RR) -> bool {
    if !(canon_n(&v.0) && canon_n(&v.2)) || v.1 || v.0 == [0] { return false; }
    if v.2 == [0] { return !v.3 && v.0 == [1]; }
    N::from_limbs(&v.0).gcd(&N::from_limbs(&v.2)).is_one()
}
