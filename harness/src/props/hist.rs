//! C03: explicit-state exploration of operation histories on the real types.
//! A state is a pair of registers of one type; every public operation is a transition (the result replaces the first
//! register). From every root pair all histories up to a depth are explored breadth first with duplicate states merged.
//! In lock-step a reference tracks the mathematical value. In every state: canonical storage, and the value must
//! compare equal, hash equally and print the same as a value freshly built for the same number.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use super::order::{crit_q, fracs};
use hmath::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn h<T: Hash>(x: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }

pub struct Op<T, M> { name: &'static str, run: fn(&T, &T) -> T, model: fn(&M, &M) -> Option<M> }
fn op<T, M>(name: &'static str, run: fn(&T, &T) -> T, model: fn(&M, &M) -> Option<M>) -> Op<T, M> { Op { name, run, model } }

pub trait Reg: Clone + Eq + Hash + Sync + Send + 'static {
    type M: Clone + PartialEq + std::fmt::Debug + Sync + Send + 'static; type K: Hash + Eq + Clone + std::fmt::Debug;
    fn key(&self) -> Self::K; fn mkey(m: &Self::M) -> Self::K; fn canon(k: &Self::K) -> bool; fn fresh(m: &Self::M) -> Self; fn text(&self) -> String; fn bits(m: &Self::M) -> u64;
}
impl Reg for UBigInt { type M = N; type K = RU; fn key(&self) -> RU { self.rw() } fn mkey(m: &N) -> RU { m.raw() } fn canon(k: &RU) -> bool { canon_n(k) } fn fresh(m: &N) -> Self { UBigInt::from_raw(m.raw()) } fn text(&self) -> String { format!("{self}|{self:?}|{}", self.to_string_hex(true)) } fn bits(m: &N) -> u64 { m.bits() } }
impl Reg for BigInt { type M = Z; type K = RB; fn key(&self) -> RB { self.rw() } fn mkey(m: &Z) -> RB { m.rw() } fn canon(k: &RB) -> bool { canon_z(k) } fn fresh(m: &Z) -> Self { BigInt::from_raw(m.m.raw(), m.neg) } fn text(&self) -> String { format!("{self}|{self:?}|{}", self.to_string_hex(true)) } fn bits(m: &Z) -> u64 { m.m.bits() } }
impl Reg for Ratio { type M = Q; type K = RR; fn key(&self) -> RR { self.rw() } fn mkey(m: &Q) -> RR { m.rw() } fn canon(k: &RR) -> bool { canon_q(k) } fn fresh(m: &Q) -> Self { r(m) } fn text(&self) -> String { format!("{}|{}", self.to_ratio_string(), self.to_approx_string(16)) } fn bits(m: &Q) -> u64 { m.n.m.bits().max(m.d.bits()) } }

fn explore<T: Reg>(x0: &T::M, y0: &T::M, depth: usize, maxbits: u64, ops: &[Op<T, T::M>], cx: &mut Cx) {
    struct St<T: Reg> { x: T, y: T, mx: T::M, my: T::M, path: Vec<&'static str> }
    let mut seen: HashSet<(T::K, T::K)> = HashSet::new();
    let root = St::<T> { x: T::fresh(x0), y: T::fresh(y0), mx: x0.clone(), my: y0.clone(), path: vec![] };
    seen.insert((root.x.key(), root.y.key()));
    let mut front = vec![root]; let mut states = 1u64;
    for lvl in 0..depth {
        let mut next = vec![];
        for s in &front {
            // register moves
            let mut succ: Vec<St<T>> = vec![];
            if s.mx != s.my { let mut p = s.path.clone(); p.push("swap"); succ.push(St { x: s.y.clone(), y: s.x.clone(), mx: s.my.clone(), my: s.mx.clone(), path: p }); let mut p = s.path.clone(); p.push("copy"); succ.push(St { x: s.x.clone(), y: s.x.clone(), mx: s.mx.clone(), my: s.mx.clone(), path: p }); }
            for o in ops {
                let Some(m) = (o.model)(&s.mx, &s.my) else { continue };
                if T::bits(&m) > maxbits { cx.hit("beyond the size bound"); continue; }
                cx.transitions += 1;
                match catch_unwind(AssertUnwindSafe(|| (o.run)(&s.x, &s.y))) {
                    Err(p) => { let e = pmsg(p); cx.fail(&format!("{}.panic", o.name), || format!("history {:?} then {} from ({x0:?}, {y0:?}) panicked: {e}", s.path, o.name)); }
                    Ok(z) => {
                        let k = z.key();
                        let bad = if !T::canon(&k) { Some("is stored in a non-canonical form") } else if k != T::mkey(&m) { Some("is a different number from the one the history denotes") } else { None };
                        if let Some(w) = bad { cx.fail(&format!("{}.{}", o.name, if T::canon(&k) { "value" } else { "canonical" }), || format!("history {:?} then {} from ({x0:?}, {y0:?}): the result {w}: {k:?}, expected {:?}", s.path, o.name, T::mkey(&m))); continue; }
                        if s.x.key() != T::mkey(&s.mx) || s.y.key() != T::mkey(&s.my) { cx.fail(&format!("{}.operand", o.name), || format!("{} changed an operand", o.name)); return; }
                        let mut p = s.path.clone(); p.push(o.name); succ.push(St { x: z, y: s.y.clone(), mx: m, my: s.my.clone(), path: p });
                    }
                }
            }
            for n in succ {
                if !seen.insert((n.x.key(), n.y.key())) { cx.hit("merged with a state reached before"); continue; }
                states += 1;
                let f = T::fresh(&n.mx);
                let ok = catch_unwind(AssertUnwindSafe(|| (n.x == f, h(&n.x) == h(&f), n.x.text() == f.text())));
                match ok { Ok((true, true, true)) => {}, o => cx.fail("identity", || format!("history {:?} from ({x0:?}, {y0:?}): (eq, hash, text) against a freshly built value: {o:?}", n.path)) }
                if lvl + 1 < depth { next.push(n); }
            }
            cx.beat();
            if cx.fails.len() > 8 { cx.states = states; return; }
        }
        front = next;
    }
    cx.states = states;
}

fn fits(m: &N, b: u64) -> bool { m.bits() <= b }
macro_rules! mutated { ($m:ident) => { |x, y| { let mut z = x.clone(); z.$m(y); z } }; ($m:ident, $k:expr) => { |x, _| { let mut z = x.clone(); z.$m($k); z } } }
fn nu(k: u128) -> N { N::from_u128(k) }
fn u_ops() -> Vec<Op<UBigInt, N>> { vec![
    op("add", |x, y| x.add(y), |x, y| Some(x.add(y))), op("add_mut", mutated!(add_mut), |x, y| Some(x.add(y))),
    op("sub", |x, y| x.sub(y), |x, y| if x.lt(y) { None } else { Some(x.sub(y)) }), op("sub_mut", mutated!(sub_mut), |x, y| if x.lt(y) { None } else { Some(x.sub(y)) }),
    op("abs_diff", |x, y| x.abs_diff(y), |x, y| Some(if x.lt(y) { y.sub(x) } else { x.sub(y) })),
    op("mul", |x, y| x.mul(y), |x, y| Some(x.mul(y))), op("mul_mut", mutated!(mul_mut), |x, y| Some(x.mul(y))),
    op("div", |x, y| x.div(y), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).0) }), op("div_mut", mutated!(div_mut), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).0) }),
    op("rem", |x, y| x.rem(y), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).1) }), op("rem_mut", mutated!(rem_mut), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).1) }),
    op("gcd", |x, y| gcd_ubi(x, y), |x, y| Some(x.gcd(y))),
    op("add_u32(max)", mutated!(add_u32_mut, MAX), |x, _| Some(x.add_small(MAX))), op("sub_u32(1)", |x, _| x.sub_u32(1), |x, _| if x.is_zero() { None } else { Some(x.sub(&N::one())) }), op("sub_u32_mut(1)", mutated!(sub_u32_mut, 1), |x, _| if x.is_zero() { None } else { Some(x.sub(&N::one())) }),
    op("mul_u32(0)", |x, _| x.mul_u32(0), |_, _| Some(N::zero())), op("mul_u32_mut(max)", mutated!(mul_u32_mut, MAX), |x, _| Some(x.mul_small(MAX))), op("mul_u32_mut(0)", mutated!(mul_u32_mut, 0), |_, _| Some(N::zero())),
    op("div_u32(max)", |x, _| x.div_u32(MAX), |x, _| Some(x.divrem_small(MAX).0)), op("div_u32_mut(2)", mutated!(div_u32_mut, 2), |x, _| Some(x.divrem_small(2).0)), op("rem_u32_mut(max)", mutated!(rem_u32_mut, MAX), |x, _| Some(nu(x.divrem_small(MAX).1 as u128))), op("rem_pow2(8)", |x, _| x.rem_pow2(8), |x, _| Some(x.low(3))),
    op("shift_left_mut(1)", mutated!(shift_left_mut, 1), |x, _| Some(x.shl(32))), op("shift_left(1)", |x, _| x.shift_left(1), |x, _| Some(x.shl(32))), op("shift_right_mut(1)", mutated!(shift_right_mut, 1), |x, _| Some(x.shr(32))), op("shift_right(2)", |x, _| x.shift_right(2), |x, _| Some(x.shr(64))),
    op("slice_right(1)", |x, _| x.slice_right(1), |x, _| Some(x.low(32))), op("slice_right_mut(2)", mutated!(slice_right_mut, 2), |x, _| if x.0.len() >= 2 { Some(x.low(64)) } else { None }), op("slice_right(2)", |x, _| x.slice_right(2), |x, _| if x.0.len() >= 2 { Some(x.low(64)) } else { None }),
    op("slice_right(len-1)", |x, _| x.slice_right(x.len() - 1), |x, _| Some(x.low(32 * (x.raw().len() as u64 - 1)))), op("slice_right_mut(len-1)", |x, _| { let mut z = x.clone(); z.slice_right_mut(x.len() - 1); z }, |x, _| Some(x.low(32 * (x.raw().len() as u64 - 1)))), op("shift_right_mut(len-1)", |x, _| { let mut z = x.clone(); z.shift_right_mut(x.len() - 1); z }, |x, _| Some(x.shr(32 * (x.raw().len() as u64 - 1)))), op("shift_right_mut(len)", |x, _| { let mut z = x.clone(); z.shift_right_mut(x.len()); z }, |_, _| Some(N::zero())), op("slice_right_mut(0)", mutated!(slice_right_mut, 0), |_, _| Some(N::zero())),
    op("rem_pow2(2^31)", |x, _| x.rem_pow2(1 << 31), |x, _| Some(x.low(31))), op("div_u32_mut(max)", mutated!(div_u32_mut, MAX), |x, _| Some(x.divrem_small(MAX).0)), op("rem_u32(2^16)", |x, _| x.rem_u32(65536), |x, _| Some(x.low(16))), op("abs_diff_u32(max)", |x, _| x.abs_diff_u32(MAX), |x, _| { let m = nu(MAX as u128); Some(if x.lt(&m) { m.sub(x) } else { x.sub(&m) }) }), op("mul_pow2(31)", |x, _| x.mul_pow2(31), |x, _| Some(x.shl(31))), op("exp2(log2)", |x, _| UBigInt::exp2(x.log2().to_u64().unwrap()), |x, _| if x.is_zero() { None } else { Some(N::pow2(x.bits() - 1)) }), op("parse octal text", |x, _| UBigInt::from_string(&x.to_string_oct(true)).unwrap(), |x, _| Some(x.clone())),
    op("mul_pow2_mut(33)", mutated!(mul_pow2_mut, 33), |x, _| Some(x.shl(33))), op("pow_u32_mut(2)", mutated!(pow_u32_mut, 2), |x, _| Some(x.mul(x))), op("pow_u32(0)", |x, _| x.pow_u32(0), |_, _| Some(N::one())),
    op("sqrt", |x, _| x.sqrt(), |x, _| Some(x.isqrt())), op("log2", |x, _| x.log2(), |x, _| if x.is_zero() { None } else { Some(nu(x.bits() as u128 - 1)) }),
    op("parse decimal text", |x, _| UBigInt::from_string(&x.to_string_dec()).unwrap(), |x, _| Some(x.clone())), op("parse hexadecimal text", |x, _| UBigInt::from_string(&x.to_string_hex(true)).unwrap(), |x, _| Some(x.clone())), op("parse binary text", |x, _| UBigInt::from_string(&x.to_string_bin(true)).unwrap(), |x, _| Some(x.clone())),
    op("through u128", |x, _| UBigInt::from_u128(x.to_u128().unwrap()), |x, _| if fits(x, 128) { Some(x.clone()) } else { None }), op("through u64", |x, _| UBigInt::from_u64(x.to_u64().unwrap()), |x, _| if fits(x, 64) { Some(x.clone()) } else { None }),
    op("through BigInt", |x, _| BigInt::from_ubi(x.clone(), false).to_ubi().unwrap(), |x, _| Some(x.clone())), op("through Ratio", |x, _| UBigInt::try_from(&Ratio::from_ubi(x.clone())).unwrap(), |x, _| Some(x.clone())),
    op("through negated difference", |x, y| BigInt::from_ubi(x.clone(), false).sub(&BigInt::from_ubi(y.clone(), false)).abs().to_ubi().unwrap(), |x, y| Some(if x.lt(y) { y.sub(x) } else { x.sub(y) })),
    op("sum", |x, y| vec![x.clone(), y.clone(), x.clone()].into_iter().sum(), |x, y| Some(x.add(y).add(x))), op("product", |x, y| vec![x.clone(), y.clone()].into_iter().product(), |x, y| Some(x.mul(y))),
] }
fn zi(k: i128) -> Z { Z::from_i128(k) }
fn zmap(z: &Z, f: impl Fn(&N) -> N) -> Z { Z::new(z.neg, f(&z.m)) }
fn z_ops() -> Vec<Op<BigInt, Z>> { vec![
    op("add", |x, y| x.add(y), |x, y| Some(x.add(y))), op("add_mut", mutated!(add_mut), |x, y| Some(x.add(y))), op("sub", |x, y| x.sub(y), |x, y| Some(x.sub(y))), op("sub_mut", mutated!(sub_mut), |x, y| Some(x.sub(y))),
    op("mul", |x, y| x.mul(y), |x, y| Some(x.mul(y))), op("mul_mut", mutated!(mul_mut), |x, y| Some(x.mul(y))),
    op("div", |x, y| x.div(y), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).0) }), op("div_mut", mutated!(div_mut), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).0) }),
    op("rem", |x, y| x.rem(y), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).1) }), op("rem_mut", mutated!(rem_mut), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).1) }),
    op("neg", |x, _| x.neg(), |x, _| Some(x.negate())), op("neg_mut", |x, _| { let mut z = x.clone(); z.neg_mut(); z }, |x, _| Some(x.negate())), op("abs", |x, _| x.abs(), |x, _| Some(x.abs())), op("abs_mut", |x, _| { let mut z = x.clone(); z.abs_mut(); z }, |x, _| Some(x.abs())),
    op("gcd", |x, y| gcd_bi(x, y), |x, y| Some(Z::new(false, x.m.gcd(&y.m)))),
    op("add_i32_mut(1)", mutated!(add_i32_mut, 1), |x, _| Some(x.add(&zi(1)))), op("add_i32(-1)", |x, _| x.add_i32(-1), |x, _| Some(x.add(&zi(-1)))), op("sub_i32_mut(1)", mutated!(sub_i32_mut, 1), |x, _| Some(x.sub(&zi(1)))), op("sub_i32(min)", |x, _| x.sub_i32(i32::MIN), |x, _| Some(x.sub(&zi(i32::MIN as i128)))),
    op("mul_i32_mut(-1)", mutated!(mul_i32_mut, -1), |x, _| Some(x.negate())), op("mul_i32(0)", |x, _| x.mul_i32(0), |_, _| Some(Z::zero())), op("mul_i32_mut(0)", mutated!(mul_i32_mut, 0), |_, _| Some(Z::zero())), op("mul_i32(min)", |x, _| x.mul_i32(i32::MIN), |x, _| Some(x.mul(&zi(i32::MIN as i128)))),
    op("div_i32(-2)", |x, _| x.div_i32(-2), |x, _| Some(x.divrem(&zi(-2)).0)), op("div_i32_mut(max)", mutated!(div_i32_mut, i32::MAX), |x, _| Some(x.divrem(&zi(i32::MAX as i128)).0)), op("rem_i32_mut(-2)", mutated!(rem_i32_mut, -2), |x, _| Some(x.divrem(&zi(-2)).1)), op("rem_i32(3)", |x, _| x.rem_i32(3), |x, _| Some(x.divrem(&zi(3)).1)), op("rem_pow2(4)", |x, _| x.rem_pow2(4), |x, _| Some(zmap(x, |m| m.low(2)))),
    op("shift_left_mut(1)", mutated!(shift_left_mut, 1), |x, _| Some(zmap(x, |m| m.shl(32)))), op("shift_right(1)", |x, _| x.shift_right(1), |x, _| Some(zmap(x, |m| m.shr(32)))), op("shift_right_mut(1)", mutated!(shift_right_mut, 1), |x, _| Some(zmap(x, |m| m.shr(32)))), op("slice_right(1)", |x, _| x.slice_right(1), |x, _| Some(zmap(x, |m| m.low(32)))), op("slice_right_mut(1)", mutated!(slice_right_mut, 1), |x, _| Some(zmap(x, |m| m.low(32)))),
    op("slice_right(len-1)", |x, _| x.slice_right(x.len() - 1), |x, _| Some(zmap(x, |m| m.low(32 * (m.raw().len() as u64 - 1))))), op("slice_right_mut(len-1)", |x, _| { let mut z = x.clone(); z.slice_right_mut(x.len() - 1); z }, |x, _| Some(zmap(x, |m| m.low(32 * (m.raw().len() as u64 - 1))))), op("shift_right_mut(len)", |x, _| { let mut z = x.clone(); z.shift_right_mut(x.len()); z }, |_, _| Some(Z::zero())), op("shift_right(len)", |x, _| x.shift_right(x.len()), |_, _| Some(Z::zero())), op("slice_right_mut(0)", mutated!(slice_right_mut, 0), |_, _| Some(Z::zero())), op("div_i32_mut(min)", mutated!(div_i32_mut, i32::MIN), |x, _| Some(x.divrem(&zi(i32::MIN as i128)).0)), op("rem_i32(min)", |x, _| x.rem_i32(i32::MIN), |x, _| Some(x.divrem(&zi(i32::MIN as i128)).1)), op("add_i32_mut(min)", mutated!(add_i32_mut, i32::MIN), |x, _| Some(x.add(&zi(i32::MIN as i128)))), op("sub_i32_mut(min)", mutated!(sub_i32_mut, i32::MIN), |x, _| Some(x.sub(&zi(i32::MIN as i128)))), op("add_i32(max)", |x, _| x.add_i32(i32::MAX), |x, _| Some(x.add(&zi(i32::MAX as i128)))),
    op("mul_pow2_mut(31)", mutated!(mul_pow2_mut, 31), |x, _| Some(zmap(x, |m| m.shl(31)))), op("pow_u32(2)", |x, _| x.pow_u32(2), |x, _| Some(x.pow(2))), op("pow_u32_mut(3)", mutated!(pow_u32_mut, 3), |x, _| Some(x.pow(3))), op("pow_u32_mut(0)", mutated!(pow_u32_mut, 0), |_, _| Some(Z::one())),
    op("sqrt", |x, _| x.sqrt(), |x, _| Some(zmap(x, |m| m.isqrt()))),
    op("parse decimal text", |x, _| BigInt::from_string(&x.to_string_dec()).unwrap(), |x, _| Some(x.clone())), op("parse hexadecimal text", |x, _| BigInt::from_string(&x.to_string_hex(true)).unwrap(), |x, _| Some(x.clone())), op("parse -0", |x, _| BigInt::from_string(if x.is_neg() { "-0" } else { "0" }).unwrap(), |_, _| Some(Z::zero())),
    op("through i128", |x, _| BigInt::from_i128(x.to_i128().unwrap()), |x, _| x.to_i128().map(|_| x.clone())), op("through i64", |x, _| BigInt::from_i64(x.to_i64().unwrap()), |x, _| x.to_i128().and_then(|v| i64::try_from(v).ok()).map(|_| x.clone())), op("through i32", |x, _| BigInt::from_i32(x.to_i32().unwrap()), |x, _| x.to_i128().and_then(|v| i32::try_from(v).ok()).map(|_| x.clone())),
    op("through Ratio", |x, _| BigInt::from(Ratio::from_bi(x.clone())), |x, _| Some(x.clone())), op("quotient truncated", |x, y| Ratio::from_denom_and_numer(y.clone(), x.clone()).truncate_bi(), |x, y| if y.is_zero() { None } else { Some(x.divrem(y).0) }), op("quotient floored", |x, y| Ratio::from_denom_and_numer(y.clone(), x.clone()).floor_bi(), |x, y| if y.is_zero() { None } else { Some(Q::new(x.clone(), y.clone()).floor()) }), op("quotient rounded", |x, y| Ratio::from_denom_and_numer(y.clone(), x.clone()).round_bi(), |x, y| if y.is_zero() { None } else { Some(Q::new(x.clone(), y.clone()).round()) }), op("numerator", |x, y| Ratio::from_denom_and_numer(y.clone(), x.clone()).get_numer(), |x, y| if y.is_zero() { None } else { Some(Q::new(x.clone(), y.clone()).n) }), op("denominator", |x, y| Ratio::from_denom_and_numer(y.clone(), x.clone()).get_denom(), |x, y| if y.is_zero() { None } else { Some(Q::new(x.clone(), y.clone()).dz()) }),
    op("negative of nothing", |x, _| BigInt::from_ubi(UBigInt::zero(), !x.is_neg()), |_, _| Some(Z::zero())),
] }
fn qi(k: i128) -> Q { Q::from_i128(k) }
fn qz(z: Z) -> Q { Q::from_z(z) }
fn q_ops() -> Vec<Op<Ratio, Q>> { vec![
    op("add", |x, y| x.add(y), |x, y| Some(x.add(y))), op("add_mut", mutated!(add_mut), |x, y| Some(x.add(y))), op("sub", |x, y| x.sub(y), |x, y| Some(x.sub(y))), op("sub_mut", mutated!(sub_mut), |x, y| Some(x.sub(y))),
    op("mul", |x, y| x.mul(y), |x, y| Some(x.mul(y))), op("mul_mut", mutated!(mul_mut), |x, y| Some(x.mul(y))), op("div", |x, y| x.div(y), |x, y| if y.is_zero() { None } else { Some(x.div(y)) }), op("div_mut", mutated!(div_mut), |x, y| if y.is_zero() { None } else { Some(x.div(y)) }),
    op("neg", |x, _| x.neg(), |x, _| Some(x.negate())), op("neg_mut", |x, _| { let mut z = x.clone(); z.neg_mut(); z }, |x, _| Some(x.negate())), op("abs_mut", |x, _| { let mut z = x.clone(); z.abs_mut(); z }, |x, _| Some(x.abs())),
    op("reci", |x, _| x.reci(), |x, _| if x.is_zero() { None } else { Some(x.reci()) }), op("reci_mut", |x, _| { let mut z = x.clone(); z.reci_mut(); z }, |x, _| if x.is_zero() { None } else { Some(x.reci()) }),
    op("truncate", |x, _| x.truncate(), |x, _| Some(qz(x.trunc()))), op("truncate_mut", |x, _| { let mut z = x.clone(); z.truncate_mut(); z }, |x, _| Some(qz(x.trunc()))), op("frac", |x, _| x.frac(), |x, _| Some(x.sub(&qz(x.trunc())))), op("frac_mut", |x, _| { let mut z = x.clone(); z.frac_mut(); z }, |x, _| Some(x.sub(&qz(x.trunc())))), op("floor", |x, _| x.floor(), |x, _| Some(qz(x.floor()))), op("round", |x, _| x.round(), |x, _| Some(qz(x.round()))), op("truncate_and_frac.1", |x, _| x.truncate_and_frac().1, |x, _| Some(x.sub(&qz(x.trunc())))),
    op("add_i32(1)", |x, _| x.add_i32(1), |x, _| Some(x.add(&qi(1)))), op("add_i32_mut(-1)", mutated!(add_i32_mut, -1), |x, _| Some(x.add(&qi(-1)))), op("sub_i32_mut(1)", mutated!(sub_i32_mut, 1), |x, _| Some(x.sub(&qi(1)))), op("mul_i32(6)", |x, _| x.mul_i32(6), |x, _| Some(x.mul(&qi(6)))), op("mul_i32_mut(0)", mutated!(mul_i32_mut, 0), |_, _| Some(Q::zero())), op("mul_i32_mut(-4)", mutated!(mul_i32_mut, -4), |x, _| Some(x.mul(&qi(-4)))), op("div_i32(-6)", |x, _| x.div_i32(-6), |x, _| Some(x.div(&qi(-6)))), op("div_i32_mut(min)", mutated!(div_i32_mut, i32::MIN), |x, _| Some(x.div(&qi(i32::MIN as i128)))),
    op("add_bi(numerator)", |x, y| x.add_bi(&y.get_numer()), |x, y| Some(x.add(&qz(y.n.clone())))), op("sub_bi_mut(denominator)", |x, y| { let mut z = x.clone(); z.sub_bi_mut(&y.get_denom()); z }, |x, y| Some(x.sub(&qz(y.dz())))), op("mul_bi(denominator)", |x, y| x.mul_bi(&y.get_denom()), |x, y| Some(x.mul(&qz(y.dz())))), op("mul_bi_mut(numerator)", |x, y| { let mut z = x.clone(); z.mul_bi_mut(&y.get_numer()); z }, |x, y| Some(x.mul(&qz(y.n.clone())))), op("div_bi(numerator)", |x, y| x.div_bi(&y.get_numer()), |x, y| if y.is_zero() { None } else { Some(x.div(&qz(y.n.clone()))) }), op("div_bi_mut(denominator)", |x, y| { let mut z = x.clone(); z.div_bi_mut(&y.get_denom()); z }, |x, y| Some(x.div(&qz(y.dz())))),
    op("pow_i32(2)", |x, _| x.pow_i32(2), |x, _| Some(x.pow(2))), op("pow_i32_mut(-1)", mutated!(pow_i32_mut, -1), |x, _| if x.is_zero() { None } else { Some(x.reci()) }), op("pow_i32(-3)", |x, _| x.pow_i32(-3), |x, _| if x.is_zero() { None } else { Some(x.pow(-3)) }), op("pow_i32_mut(0)", mutated!(pow_i32_mut, 0), |_, _| Some(Q::one())),
    op("rebuild from parts", |x, _| Ratio::from_denom_and_numer(x.get_denom(), x.get_numer()), |x, _| Some(x.clone())), op("rebuild from doubled negated parts", |x, _| Ratio::from_denom_and_numer(x.get_denom().mul_i32(-6), x.get_numer().mul_i32(-6)), |x, _| Some(x.clone())), op("numerators' quotient", |x, y| Ratio::from_denom_and_numer(y.get_numer(), x.get_numer()), |x, y| if y.is_zero() { None } else { Some(Q::new(x.n.clone(), y.n.clone())) }),
    op("parse quotient text", |x, _| { let t = x.to_ratio_string(); match t.split_once('/') { Some((n, d)) => Ratio::try_from((d, n)).unwrap(), None => Ratio::from_string(&t).unwrap() } }, |x, _| Some(x.clone())), op("parse -0.0", |x, _| Ratio::from_string(if x.is_neg() { "-0.0" } else { "0.0e5" }).unwrap(), |_, _| Some(Q::zero())), op("parse 2.50", |_, _| Ratio::from_string("2.50").unwrap(), |_, _| Some(Q::frac(5, 2))),
    op("float 0.1", |_, _| Ratio::from_ieee754_f32(-0.75).unwrap(), |_, _| Some(Q::frac(-3, 4))), op("float -0.0", |_, _| Ratio::from_ieee754_f64(-0.0).unwrap(), |_, _| Some(Q::zero())),
    op("shrink(64)", |x, _| { let mut z = x.clone(); let _ = z.shrink(64); z }, |x, _| Some(x.clone())),
    op("common denominator", |x, y| { let (p, _, d) = common_denom(x, y); Ratio::from_denom_and_numer(d, p) }, |x, _| Some(x.clone())),
    op("from pair of integers", |x, _| Ratio::from_denom_and_numer_i32(-6, x.get_numer().to_i32().unwrap()), |x, _| x.n.to_i128().and_then(|v| i32::try_from(v).ok()).map(|v| Q::frac(v as i128, -6))),
    op("through F192", |x, _| Ratio::from(F192::from(x)), |x, _| { let d = x.d.bits(); if x.d == N::pow2(d - 1) && x.n.m.bits() <= 120 { Some(x.clone()) } else { None } }),
] }
pub fn c03(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let us = [nu(0), nu(1), nu(2), nu(MAX as u128), nu(1 << 32), nu(u64::MAX as u128), nu(1 << 64), nu(((MAX as u128) << 64) | 1), nu((1 << 96) - (1 << 32))];
    let mut up = vec![]; for a in &us { for c in &us { up.push((a.clone(), c.clone())); } }
    let (d, mb) = if th { (5, 192) } else { (4, 160) };
    s.push(Suite::list("unsigned", "all histories of 52 operations from 81 register pairs, depth 4 (5), values to 160 (192) bits", up, move |(a, c), cx| explore::<UBigInt>(&a, &c, d, mb, &u_ops(), cx)));
    let zs: Vec<Z> = [0i128, 1, -1, -2, 3, -(MAX as i128), 1 << 32, -(1 << 32), i32::MIN as i128, -(u64::MAX as i128), 1 << 64, i64::MIN as i128].iter().map(|k| zi(*k)).collect();
    let mut zp = vec![]; for a in &zs { for c in &zs { zp.push((a.clone(), c.clone())); } }
    s.push(Suite::list("signed", "all histories of 63 operations from 144 register pairs, depth 4 (5), values to 160 (192) bits", zp, move |(a, c), cx| explore::<BigInt>(&a, &c, d, mb, &z_ops(), cx)));
    let mut qs: Vec<Q> = vec![qi(0), qi(1), qi(-1), Q::frac(1, 2), Q::frac(-2, 3), Q::frac(-7, 6), Q::frac(6, 5), qi(-(1 << 32)), Q::frac(3, 1 << 32), Q::frac(-((1 << 64) - 1), 3), Q::frac((1 << 33) - 2, (1 << 40) + 2)];
    if th { qs.push(Q::frac(i32::MIN as i128, 9)); qs.push(Q::frac(5, u64::MAX as i128)); }
    let mut qp = vec![]; for a in &qs { for c in &qs { qp.push((a.clone(), c.clone())); } }
    let dq = if th { 4 } else { 3 };
    s.push(Suite::list("rational", "all histories of 51 operations from 121 (169) register pairs, depth 3 (4), parts to 128 bits", qp, move |(a, c), cx| explore::<Ratio>(&a, &c, dq, 128, &q_ops(), cx)));
    // one and two steps from many more states
    let uw = cat(vec![smalls(20), nats(A4, 4), if th { nats(A7, 3) } else { nats(A5, 3) }]);
    s.push(Suite::pairs("unsigned-wide", "single operations from every pair of critical naturals", uw.clone(), if th { cat(vec![smalls(20), nats(A4, 3)]) } else { cat(vec![smalls(6), nats(A3, 3)]) }, |a, c, cx| explore::<UBigInt>(a, c, 1, 512, &u_ops(), cx)));
    let zw = signed(&cat(vec![smalls(12), nats(A4, 3)]));
    s.push(Suite::pairs("signed-wide", "single operations from every pair of critical signed integers", zw.clone(), if th { zw } else { signed(&cat(vec![smalls(6), nats(A3, 2)])) }, |a, c, cx| explore::<BigInt>(a, c, 1, 512, &z_ops(), cx)));
    let mut qw = fracs(if th { 14 } else { 9 }, if th { 10 } else { 7 }); qw.extend(crit_q(A3, 2, 2)); let qw = dedup_q(qw); let qv = if th { qw.clone() } else { let mut v = fracs(6, 5); v.extend(crit_q(&[0, MAX], 2, 2)); dedup_q(v) };
    s.push(Suite::pairs("rational-wide", "single operations from every pair of small and critical fractions", qw, qv, |a, c, cx| explore::<Ratio>(a, c, 1, 512, &q_ops(), cx)));
    s
}
