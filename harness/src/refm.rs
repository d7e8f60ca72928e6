//! The reference model: boring arbitrary-precision naturals, integers and rationals.
//! Written for obviousness; shares nothing with hmath. Division checks its own certificate.
use std::cmp::Ordering;
use std::fmt;

/// natural number, little-endian base 2^32, no leading zero limb, zero = []
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct N(pub Vec<u32>);

impl N {
    pub fn zero() -> N { N(vec![]) }
    pub fn one() -> N { N(vec![1]) }
    pub fn from_limbs(v: &[u32]) -> N { let mut v = v.to_vec(); while v.last() == Some(&0) { v.pop(); } N(v) }
    pub fn from_u128(mut x: u128) -> N { let mut v = vec![]; while x > 0 { v.push(x as u32); x >>= 32; } N(v) }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 { return None; }
        let mut r = 0u128; for &l in self.0.iter().rev() { r = (r << 32) | l as u128; } Some(r)
    }
    /// canonical limb vector as hmath stores it: zero is [0]
    pub fn raw(&self) -> Vec<u32> { if self.0.is_empty() { vec![0] } else { self.0.clone() } }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_one(&self) -> bool { self.0 == [1] }
    pub fn is_even(&self) -> bool { self.0.is_empty() || self.0[0] % 2 == 0 }
    pub fn bits(&self) -> u64 { match self.0.last() { None => 0, Some(t) => self.0.len() as u64 * 32 - t.leading_zeros() as u64 } }
    pub fn bit(&self, i: u64) -> bool { let w = (i / 32) as usize; w < self.0.len() && (self.0[w] >> (i % 32)) & 1 == 1 }
    pub fn cmp(&self, o: &N) -> Ordering {
        if self.0.len() != o.0.len() { return self.0.len().cmp(&o.0.len()); }
        for i in (0..self.0.len()).rev() { if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); } }
        Ordering::Equal
    }
    pub fn lt(&self, o: &N) -> bool { self.cmp(o) == Ordering::Less }
    pub fn add(&self, o: &N) -> N {
        let n = self.0.len().max(o.0.len()); let mut v = Vec::with_capacity(n + 1); let mut c = 0u64;
        for i in 0..n { c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64; v.push(c as u32); c >>= 32; }
        if c > 0 { v.push(c as u32); }
        N(v)
    }
    /// self - o, o <= self
    pub fn sub(&self, o: &N) -> N {
        assert!(!self.lt(o), "model: negative natural");
        let mut v = Vec::with_capacity(self.0.len()); let mut b = 0i64;
        for i in 0..self.0.len() { let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b; b = 0; if d < 0 { d += 1 << 32; b = 1; } v.push(d as u32); }
        N::from_limbs(&v)
    }
    pub fn mul(&self, o: &N) -> N {
        if self.is_zero() || o.is_zero() { return N::zero(); }
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let a = self.0[i] as u64; if a == 0 { continue; }
            let mut c = 0u64;
            for j in 0..o.0.len() { c += v[i + j] as u64 + a * o.0[j] as u64; v[i + j] = c as u32; c >>= 32; }
            v[i + o.0.len()] = c as u32;
        }
        N::from_limbs(&v)
    }
    pub fn mul_small(&self, k: u32) -> N { self.mul(&N::from_u128(k as u128)) }
    pub fn add_small(&self, k: u32) -> N { self.add(&N::from_u128(k as u128)) }
    pub fn divrem_small(&self, d: u32) -> (N, u32) {
        assert!(d != 0); let mut v = vec![0u32; self.0.len()]; let mut r = 0u64;
        for i in (0..self.0.len()).rev() { r = (r << 32) | self.0[i] as u64; v[i] = (r / d as u64) as u32; r %= d as u64; }
        (N::from_limbs(&v), r as u32)
    }
    pub fn shl(&self, k: u64) -> N {
        if self.is_zero() { return N::zero(); }
        let w = (k / 32) as usize; let b = (k % 32) as u32; let mut v = vec![0u32; w]; let mut c = 0u64;
        for &l in &self.0 { c |= (l as u64) << b; v.push(c as u32); c >>= 32; }
        if c > 0 { v.push(c as u32); }
        N::from_limbs(&v)
    }
    pub fn shr(&self, k: u64) -> N {
        let w = (k / 32) as usize; let b = (k % 32) as u32; if w >= self.0.len() { return N::zero(); }
        let mut v = vec![];
        for i in w..self.0.len() { let lo = (self.0[i] >> b) as u64; let hi = if b == 0 || i + 1 >= self.0.len() { 0 } else { (self.0[i + 1] as u64) << (32 - b) }; v.push((lo | hi) as u32); }
        N::from_limbs(&v)
    }
    /// low k bits
    pub fn low(&self, k: u64) -> N { self.sub(&self.shr(k).shl(k)) }
    pub fn pow2(k: u64) -> N { N::one().shl(k) }
    pub fn divrem(&self, d: &N) -> (N, N) {
        assert!(!d.is_zero(), "model: division by zero");
        if self.lt(d) { return (N::zero(), self.clone()); }
        if d.0.len() == 1 { let (q, r) = self.divrem_small(d.0[0]); return (q, N::from_u128(r as u128)); }
        // Knuth D
        let s = d.0.last().unwrap().leading_zeros() as u64;
        let b = d.shl(s).0; let mut a = self.shl(s).0; let n = b.len();
        if a.len() == self.0.len() { a.push(0); }
        let m = a.len() - n; let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let num = ((a[j + n] as u64) << 32) | a[j + n - 1] as u64;
            let mut qh = num / b[n - 1] as u64; let mut rh = num % b[n - 1] as u64;
            while qh >= (1 << 32) || qh * b[n - 2] as u64 > ((rh << 32) | a[j + n - 2] as u64) { qh -= 1; rh += b[n - 1] as u64; if rh >= (1 << 32) { break; } }
            let mut bor = 0i64; let mut c = 0u64;
            for i in 0..n { c += qh * b[i] as u64; let t = a[i + j] as i64 - bor - (c as u32) as i64; c >>= 32; if t < 0 { a[i + j] = (t + (1 << 32)) as u32; bor = 1; } else { a[i + j] = t as u32; bor = 0; } }
            let t = a[j + n] as i64 - bor - c as i64; a[j + n] = t as u32;
            if t < 0 { qh -= 1; let mut c = 0u64; for i in 0..n { c += a[i + j] as u64 + b[i] as u64; a[i + j] = c as u32; c >>= 32; } a[j + n] = (a[j + n] as u64 + c) as u32; }
            q[j] = qh as u32;
        }
        let q = N::from_limbs(&q); let r = N::from_limbs(&a[..n]).shr(s);
        assert!(r.lt(d) && q.mul(d).add(&r) == *self, "model: division certificate");
        (q, r)
    }
    pub fn gcd(&self, o: &N) -> N { let (mut a, mut b) = (self.clone(), o.clone()); while !b.is_zero() { let r = a.divrem(&b).1; a = b; b = r; } a }
    pub fn pow(&self, e: u32) -> N { let mut r = N::one(); for i in (0..32).rev() { r = r.mul(&r); if (e >> i) & 1 == 1 { r = r.mul(self); } } r }
    pub fn isqrt(&self) -> N {
        if self.is_zero() { return N::zero(); }
        let mut x = N::pow2((self.bits() + 1) / 2 + 1);
        loop { let y = x.add(&self.divrem(&x).0).shr(1); if !y.lt(&x) { break; } x = y; }
        let x1 = x.add_small(1); assert!(!self.lt(&x.mul(&x)) && self.lt(&x1.mul(&x1)), "model: isqrt certificate");
        x
    }
    pub fn to_radix(&self, r: u32) -> String {
        if self.is_zero() { return "0".into(); }
        // peel chunks
        let (mut chunk, mut k) = (r, 1); while (chunk as u64) * (r as u64) < (1 << 32) { chunk *= r; k += 1; }
        let mut out: Vec<u8> = vec![]; let mut x = self.clone();
        while !x.is_zero() { let (q, mut m) = x.divrem_small(chunk); x = q; for _ in 0..k { if x.is_zero() && m == 0 { break; } out.push(std::char::from_digit(m % r, r).unwrap() as u8); m /= r; } }
        out.reverse(); String::from_utf8(out).unwrap()
    }
    pub fn from_digits(s: &str, r: u32) -> N { let mut x = N::zero(); for c in s.chars() { x = x.mul_small(r).add_small(c.to_digit(r).unwrap()); } x }
}
impl fmt::Debug for N { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.bits() <= 4096 { write!(f, "0x{}", self.to_radix(16)) } else { write!(f, "<{} bits>", self.bits()) } } }
impl fmt::Display for N { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self) } }

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Z { pub neg: bool, pub m: N }
impl Z {
    pub fn new(neg: bool, m: N) -> Z { Z { neg: neg && !m.is_zero(), m } }
    pub fn zero() -> Z { Z::new(false, N::zero()) }
    pub fn one() -> Z { Z::new(false, N::one()) }
    pub fn from_i128(x: i128) -> Z { Z::new(x < 0, N::from_u128(x.unsigned_abs())) }
    pub fn is_zero(&self) -> bool { self.m.is_zero() }
    pub fn negate(&self) -> Z { Z::new(!self.neg, self.m.clone()) }
    pub fn abs(&self) -> Z { Z::new(false, self.m.clone()) }
    pub fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg { Z::new(self.neg, self.m.add(&o.m)) }
        else if self.m.lt(&o.m) { Z::new(o.neg, o.m.sub(&self.m)) } else { Z::new(self.neg, self.m.sub(&o.m)) }
    }
    pub fn sub(&self, o: &Z) -> Z { self.add(&o.negate()) }
    pub fn mul(&self, o: &Z) -> Z { Z::new(self.neg != o.neg, self.m.mul(&o.m)) }
    /// truncating
    pub fn divrem(&self, o: &Z) -> (Z, Z) { let (q, r) = self.m.divrem(&o.m); (Z::new(self.neg != o.neg, q), Z::new(self.neg, r)) }
    pub fn div_floor(&self, o: &Z) -> Z { let (q, r) = self.divrem(o); if !r.is_zero() && (self.neg != o.neg) { q.sub(&Z::one()) } else { q } }
    pub fn pow(&self, e: u32) -> Z { Z::new(self.neg && e % 2 == 1, self.m.pow(e)) }
    pub fn cmp(&self, o: &Z) -> Ordering { match (self.neg, o.neg) { (true, false) => Ordering::Less, (false, true) => Ordering::Greater, (false, false) => self.m.cmp(&o.m), (true, true) => o.m.cmp(&self.m) } }
    pub fn shl(&self, k: u64) -> Z { Z::new(self.neg, self.m.shl(k)) }
    /// floor shift
    pub fn shr(&self, k: u64) -> Z { if self.neg { Z::new(true, self.m.add(&N::pow2(k)).sub(&N::one()).shr(k)) } else { Z::new(false, self.m.shr(k)) } }
    pub fn to_i128(&self) -> Option<i128> {
        let u = self.m.to_u128()?;
        if self.neg { if u <= 1 << 127 { Some((u as i128).wrapping_neg()) } else { None } } else if u < 1 << 127 { Some(u as i128) } else { None }
    }
}
impl fmt::Debug for Z { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}{:?}", if self.neg { "-" } else { "" }, self.m) } }
impl fmt::Display for Z { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self) } }

/// rational in lowest terms, d > 0
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Q { pub n: Z, pub d: N }
impl Q {
    pub fn new(n: Z, d: Z) -> Q {
        assert!(!d.is_zero(), "model: zero denominator");
        let g = n.m.gcd(&d.m);
        Q { n: Z::new(n.neg != d.neg, n.m.divrem(&g).0), d: d.m.divrem(&g).0 }
    }
    pub fn from_z(n: Z) -> Q { Q { n, d: N::one() } }
    pub fn from_i128(n: i128) -> Q { Q::from_z(Z::from_i128(n)) }
    pub fn frac(n: i128, d: i128) -> Q { Q::new(Z::from_i128(n), Z::from_i128(d)) }
    pub fn zero() -> Q { Q::from_i128(0) }
    pub fn one() -> Q { Q::from_i128(1) }
    pub fn dz(&self) -> Z { Z::new(false, self.d.clone()) }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
    pub fn is_int(&self) -> bool { self.d.is_one() }
    pub fn add(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.dz()).add(&o.n.mul(&self.dz())), self.dz().mul(&o.dz())) }
    pub fn sub(&self, o: &Q) -> Q { self.add(&o.negate()) }
    pub fn mul(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.n), self.dz().mul(&o.dz())) }
    pub fn div(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.dz()), self.dz().mul(&o.n)) }
    pub fn negate(&self) -> Q { Q { n: self.n.negate(), d: self.d.clone() } }
    pub fn abs(&self) -> Q { Q { n: self.n.abs(), d: self.d.clone() } }
    pub fn reci(&self) -> Q { Q::one().div(self) }
    pub fn pow(&self, e: i32) -> Q { let p = Q { n: self.n.pow(e.unsigned_abs()), d: self.d.pow(e.unsigned_abs()) }; if e < 0 { p.reci() } else { p } }
    pub fn cmp(&self, o: &Q) -> Ordering { self.n.mul(&o.dz()).cmp(&o.n.mul(&self.dz())) }
    pub fn lt(&self, o: &Q) -> bool { self.cmp(o) == Ordering::Less }
    pub fn le(&self, o: &Q) -> bool { self.cmp(o) != Ordering::Greater }
    pub fn trunc(&self) -> Z { self.n.divrem(&self.dz()).0 }
    pub fn floor(&self) -> Z { self.n.div_floor(&self.dz()) }
    /// nearest, halves away from zero
    pub fn round(&self) -> Z { let t = Q { n: self.n.abs(), d: self.d.clone() }.add(&Q::frac(1, 2)).floor(); Z::new(self.n.neg, t.m) }
    pub fn pow2(e: i64) -> Q { if e >= 0 { Q::from_z(Z::new(false, N::pow2(e as u64))) } else { Q { n: Z::one(), d: N::pow2(e.unsigned_abs()) } } }
    pub fn pow10(e: i64) -> Q { let p = N::from_u128(10).pow(e.unsigned_abs() as u32); if e >= 0 { Q::from_z(Z::new(false, p)) } else { Q { n: Z::one(), d: p } } }
    pub fn approx(&self) -> f64 {
        // coarse, for messages only
        let sh = self.n.m.bits() as i64 - self.d.bits() as i64 - 60;
        let q = if sh >= 0 { self.n.m.divrem(&self.d.shl(sh as u64)).0 } else { self.n.m.shl((-sh) as u64).divrem(&self.d).0 };
        let v = q.to_u128().unwrap_or(0) as f64 * 2f64.powi(sh.clamp(-1000, 900) as i32); if self.n.neg { -v } else { v }
    }
    /// floor(log2(|self|)), self != 0
    pub fn ilog2(&self) -> i64 {
        let e = self.n.m.bits() as i64 - self.d.bits() as i64;
        let ge = if e >= 0 { !self.n.m.lt(&self.d.shl(e as u64)) } else { !self.n.m.shl((-e) as u64).lt(&self.d) };
        if ge { e } else { e - 1 }
    }
}
impl fmt::Debug for Q { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.n.m.bits() + self.d.bits() > 6000 { write!(f, "Q~{:e}", self.approx()) } else if self.d.is_one() { write!(f, "{}{}", if self.n.neg { "-" } else { "" }, self.n.m.to_radix(10)) } else { write!(f, "{}{}/{}", if self.n.neg { "-" } else { "" }, self.n.m.to_radix(10), self.d.to_radix(10)) } } }
