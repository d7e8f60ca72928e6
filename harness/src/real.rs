//! Reference real functions in binary fixed point: values are integers scaled by 2^P.
//! Results are trusted to 2^-(P-64) (absolute, or relative where stated); every comparison leaves that margin.
use crate::refm::*;

#[derive(Clone, Copy)]
pub struct Fx { pub p: u64 }
impl Fx {
    pub fn new(p: u64) -> Fx { Fx { p } }
    pub fn one(&self) -> Z { Z::one().shl(self.p) }
    pub fn int(&self, k: i128) -> Z { Z::from_i128(k).shl(self.p) }
    pub fn q(&self, q: &Q) -> Z { q.n.shl(self.p).div_floor(&q.dz()) }
    pub fn to_q(&self, z: &Z) -> Q { Q::new(z.clone(), Z::new(false, N::pow2(self.p))) }
    pub fn mul(&self, a: &Z, b: &Z) -> Z { a.mul(b).shr(self.p) }
    pub fn div(&self, a: &Z, b: &Z) -> Z { a.shl(self.p).div_floor(b) }
    fn sdiv(&self, a: &Z, k: u32) -> Z { Z::new(a.neg, a.m.divrem_small(k).0) }
    fn tiny(&self, z: &Z) -> bool { z.m.bits() <= 1 }
    pub fn sqrt(&self, a: &Z) -> Z { assert!(!a.neg); Z::new(false, a.m.shl(self.p).isqrt()) }
    fn atan_inv(&self, k: u32) -> Z { // atan(1/k)
        let mut t = self.sdiv(&self.one(), k); let mut s = t.clone(); let mut n = 1u32;
        loop { t = self.sdiv(&self.sdiv(&t, k), k).negate(); n += 2; let u = self.sdiv(&t, n); if u.is_zero() { return s; } s = s.add(&u); }
    }
    pub fn pi(&self) -> Z {
        use std::sync::Mutex; static C: Mutex<Vec<(u64, Z)>> = Mutex::new(Vec::new());
        if let Some(x) = C.lock().unwrap().iter().find(|x| x.0 == self.p) { return x.1.clone(); }
        let g = Fx::new(self.p + 32);
        let v = g.atan_inv(5).shl(4).sub(&g.atan_inv(239).shl(2)).shr(32);
        C.lock().unwrap().push((self.p, v.clone())); v
    }
    pub fn ln2(&self) -> Z {
        use std::sync::Mutex; static C: Mutex<Vec<(u64, Z)>> = Mutex::new(Vec::new());
        if let Some(x) = C.lock().unwrap().iter().find(|x| x.0 == self.p) { return x.1.clone(); }
        let g = Fx::new(self.p + 32); let third = g.sdiv(&g.one(), 3);
        let v = g.atanh_small(&third).shl(1).shr(32);
        C.lock().unwrap().push((self.p, v.clone())); v
    }
    /// atanh(y) for |y| <= 1/2
    fn atanh_small(&self, y: &Z) -> Z {
        let y2 = self.mul(y, y); let mut t = y.clone(); let mut s = y.clone(); let mut n = 1u32;
        loop { t = self.mul(&t, &y2); n += 2; let u = self.sdiv(&t, n); if self.tiny(&u) { return s; } s = s.add(&u); }
    }
    /// natural logarithm of a positive rational
    pub fn ln_q(&self, x: &Q) -> Z {
        assert!(!x.n.neg && !x.is_zero());
        let k = x.ilog2(); let m = self.q(&x.mul(&Q::pow2(-k))); // [1,2)
        let y = self.div(&m.sub(&self.one()), &m.add(&self.one()));
        self.atanh_small(&y).shl(1).add(&self.ln2().mul(&Z::from_i128(k as i128)))
    }
    pub fn log2_q(&self, x: &Q) -> Z {
        let k = x.ilog2(); let m = self.q(&x.mul(&Q::pow2(-k)));
        let y = self.div(&m.sub(&self.one()), &m.add(&self.one()));
        self.div(&self.atanh_small(&y).shl(1), &self.ln2()).add(&self.int(k as i128))
    }
    /// e^x for x in fixed point: (mantissa in about [0.7, 1.42), binary exponent)
    pub fn exp(&self, x: &Z) -> (Z, i64) {
        let k = Q::new(x.clone(), self.ln2()).round(); let ki = k.to_i128().expect("model: exp range");
        let r = x.sub(&self.ln2().mul(&k)).shr(8);
        let mut t = self.one(); let mut s = self.one(); let mut n = 1u32;
        loop { t = self.sdiv(&self.mul(&t, &r), n); if self.tiny(&t) { break; } s = s.add(&t); n += 1; }
        for _ in 0..8 { s = self.mul(&s, &s); }
        (s, ki as i64)
    }
    pub fn exp_q(&self, x: &Z) -> Q { let (m, k) = self.exp(x); self.to_q(&m).mul(&Q::pow2(k)) }
    /// (sin, cos); |x| up to 2^32 keeps the trusted margin
    pub fn sincos(&self, x: &Z) -> (Z, Z) {
        let h = self.pi().shr(1); let k = Q::new(x.clone(), h.clone()).round();
        // reduce with extra precision of pi
        let g = Fx::new(self.p + 64); let r = x.shl(64).sub(&g.pi().shr(1).mul(&k)).shr(64);
        let r2 = self.mul(&r, &r);
        let (mut s, mut t, mut n) = (r.clone(), r.clone(), 1u32);
        loop { t = self.sdiv(&self.sdiv(&self.mul(&t, &r2), n + 1), n + 2).negate(); if self.tiny(&t) { break; } s = s.add(&t); n += 2; }
        let (mut c, mut t, mut n) = (self.one(), self.one(), 0u32);
        loop { t = self.sdiv(&self.sdiv(&self.mul(&t, &r2), n + 1), n + 2).negate(); if self.tiny(&t) { break; } c = c.add(&t); n += 2; }
        match k.m.0.first().copied().unwrap_or(0) % 4 * (if k.neg { 3 } else { 1 }) % 4 { 0 => (s, c), 1 => (c, s.negate()), 2 => (s.negate(), c.negate()), _ => (c.negate(), s) }
    }
    pub fn atan(&self, x: &Z) -> Z {
        if x.neg { return self.atan(&x.negate()).negate(); }
        if self.one().cmp(x) == std::cmp::Ordering::Less { let inv = self.div(&self.one(), x); return self.pi().shr(1).sub(&self.atan(&inv)); }
        let mut y = x.clone(); let k = 5;
        for _ in 0..k { let d = self.one().add(&self.sqrt(&self.one().add(&self.mul(&y, &y)))); y = self.div(&y, &d); }
        let y2 = self.mul(&y, &y); let (mut s, mut t, mut n) = (y.clone(), y.clone(), 1u32);
        loop { t = self.mul(&t, &y2).negate(); n += 2; let u = self.sdiv(&t, n); if self.tiny(&u) { break; } s = s.add(&u); }
        s.shl(k)
    }
    /// |x| <= 1
    pub fn asin(&self, x: &Q) -> Z {
        let o = Q::one().sub(&x.mul(x)); assert!(!o.n.neg, "model: asin domain");
        if o.is_zero() { let h = self.pi().shr(1); return if x.n.neg { h.negate() } else { h }; }
        let g = Fx::new(self.p + 64);
        let c = g.sqrt(&g.q(&o)); g.atan(&g.div(&g.q(x), &c)).shr(64)
    }
}
