//! C04: all forms of one operation agree, and the non-mutating forms leave their operands alone.
//! Only the implementation is compared with itself here: the outcome of a form is the value it yields or its refusal.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use super::order::{crit_q, fracs};
use hmath::*;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn out<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }
fn same<T: PartialEq + Debug>(cx: &mut Cx, key: &str, ar: &dyn Fn() -> String, base: &Option<T>, f: impl FnOnce() -> T) {
    cx.transitions += 1;
    let g = out(f);
    if g != *base { cx.fail(&format!("{key}.differs"), || format!("{key}({}) gives {g:?}, the general form gives {base:?} (None: refused)", ar())); }
    else if g.is_none() { cx.hit("both refused"); }
}
macro_rules! in_place { ($x:expr, $m:ident($($a:expr),*)) => {{ let mut z = $x.clone(); z.$m($($a),*); z.rw() }} }
macro_rules! two { ($cx:ident, $ar:expr, $x:expr, $y:expr, $($f:ident / $fm:ident),*) => { $( { let b = out(|| $x.$f($y).rw()); same($cx, stringify!($fm), $ar, &b, || in_place!($x, $fm($y))); } )* } }
macro_rules! one { ($cx:ident, $ar:expr, $x:expr, $($f:ident / $fm:ident),*) => { $( { let b = out(|| $x.$f().rw()); same($cx, stringify!($fm), $ar, &b, || in_place!($x, $fm())); } )* } }
/// general binary operation vs its in-place, word and in-place word forms
macro_rules! four { ($cx:ident, $ar:expr, $x:expr, $y:expr, $w:expr, $($f:ident, $fm:ident, $fw:ident, $fwm:ident);*) => { $( {
    let b = out(|| $x.$f($y).rw());
    same($cx, stringify!($fm), $ar, &b, || in_place!($x, $fm($y)));
    same($cx, stringify!($fw), $ar, &b, || $x.$fw($w).rw());
    same($cx, stringify!($fwm), $ar, &b, || in_place!($x, $fwm($w)));
} )* } }
macro_rules! cmps { ($cx:ident, $ar:expr, $x:expr, $y:expr, $w:expr, $($f:ident, $fw:ident);*) => { $( { let b = out(|| $x.$f($y)); same($cx, stringify!($fw), $ar, &b, || $x.$fw($w)); } )* } }

fn u_word(a: &N, w: u32, cx: &mut Cx) {
    let (x, y) = (u(a), UBigInt::from_u32(w)); let ar: &dyn Fn() -> String = &|| format!("{a}, {w}");
    four!(cx, ar, x, &y, w, add, add_mut, add_u32, add_u32_mut; sub, sub_mut, sub_u32, sub_u32_mut; mul, mul_mut, mul_u32, mul_u32_mut; div, div_mut, div_u32, div_u32_mut; rem, rem_mut, rem_u32, rem_u32_mut);
    let b = out(|| x.abs_diff(&y).rw()); same(cx, "abs_diff_u32", ar, &b, || x.abs_diff_u32(w).rw());
    cmps!(cx, ar, x, &y, w, lt, lt_u32; gt, gt_u32; leq, leq_u32; geq, geq_u32; eq, eq_u32; neq, neq_u32; comp, comp_u32);
    if w.is_power_of_two() { let b = out(|| x.rem(&y).rw()); same(cx, "rem_pow2", ar, &b, || x.rem_pow2(w).rw()); cx.hit("power of two"); }
    cx.check("operand", x.rw() == a.raw(), || format!("operand changed: {}", ar()));
}
fn u_pair(a: &N, c: &N, cx: &mut Cx) {
    let (x, y) = (u(a), u(c)); let ar: &dyn Fn() -> String = &|| format!("{a}, {c}");
    two!(cx, ar, x, &y, add / add_mut, sub / sub_mut, mul / mul_mut, div / div_mut, rem / rem_mut);
    let (s, p) = (out(|| x.add(&y).rw()), out(|| x.mul(&y).rw()));
    same(cx, "Sum", ar, &s, || vec![x.clone(), y.clone()].into_iter().sum::<UBigInt>().rw());
    same(cx, "Product", ar, &p, || vec![x.clone(), y.clone()].into_iter().product::<UBigInt>().rw());
    let d = out(|| if a.lt(c) { y.sub(&x).rw() } else { x.sub(&y).rw() }); same(cx, "abs_diff", ar, &d, || x.abs_diff(&y).rw());
    cx.check("operands", x.rw() == a.raw() && y.rw() == c.raw(), || format!("operands changed: {}", ar()));
}
fn u_small(a: &N, k: u32, cx: &mut Cx) {
    let x = u(a); let ar: &dyn Fn() -> String = &|| format!("{a}, {k}"); let n = k as usize;
    two!(cx, ar, x, n, shift_left / shift_left_mut, shift_right / shift_right_mut, slice_right / slice_right_mut);
    two!(cx, ar, x, k, mul_pow2 / mul_pow2_mut);
    let b = out(|| x.mul(&UBigInt::pow2(k)).rw()); same(cx, "mul_pow2", ar, &b, || x.mul_pow2(k).rw());
    let b = out(|| UBigInt::pow2(k).rw()); same(cx, "exp2", ar, &b, || UBigInt::exp2(k as u64).rw());
    if k <= 12 { two!(cx, ar, x, k, pow_u32 / pow_u32_mut); }
    // signed forms against unsigned
    for neg in [false, true] {
        let z = Z::new(neg, a.clone()); let y = crate::shapes::b(&z);
        two!(cx, ar, y, n, shift_left / shift_left_mut, shift_right / shift_right_mut, slice_right / slice_right_mut);
        two!(cx, ar, y, k, mul_pow2 / mul_pow2_mut);
        let bs = out(|| (x.mul_pow2(k).rw(), neg && !a.is_zero())); same(cx, "BigInt.mul_pow2", ar, &bs, || y.mul_pow2(k).rw());
        if k <= 12 { two!(cx, ar, y, k, pow_u32 / pow_u32_mut); }
        cx.check("operand", y.rw() == z.rw(), || format!("operand changed: {}", ar()));
    }
    cx.check("operand", x.rw() == a.raw(), || format!("operand changed: {}", ar()));
}
fn s_word(a: &Z, w: i32, cx: &mut Cx) {
    let (x, y) = (b(a), BigInt::from_i32(w)); let ar: &dyn Fn() -> String = &|| format!("{a}, {w}");
    four!(cx, ar, x, &y, w, add, add_mut, add_i32, add_i32_mut; sub, sub_mut, sub_i32, sub_i32_mut; mul, mul_mut, mul_i32, mul_i32_mut; div, div_mut, div_i32, div_i32_mut; rem, rem_mut, rem_i32, rem_i32_mut);
    cmps!(cx, ar, x, &y, w, lt, lt_i32; gt, gt_i32; leq, leq_i32; geq, geq_i32; eq, eq_i32; neq, neq_i32; comp, comp_i32);
    if w.unsigned_abs().is_power_of_two() { let b = out(|| x.rem(&y).rw()); same(cx, "BigInt.rem_pow2", ar, &b, || x.rem_pow2(w).rw()); }
    cx.check("operand", x.rw() == a.rw(), || format!("operand changed: {}", ar()));
}
fn s_pair(a: &Z, c: &Z, cx: &mut Cx) {
    let (x, y) = (b(a), b(c)); let ar: &dyn Fn() -> String = &|| format!("{a}, {c}");
    two!(cx, ar, x, &y, add / add_mut, sub / sub_mut, mul / mul_mut, div / div_mut, rem / rem_mut);
    // signed operations on non-negative operands against the unsigned ones
    if !a.neg && !c.neg { let (p, q) = (u(&a.m), u(&c.m));
        macro_rules! uns { ($($f:ident),*) => { $( { let b = out(|| (p.$f(&q).rw(), false)); same(cx, concat!("BigInt.", stringify!($f)), ar, &b, || x.$f(&y).rw()); } )* } }
        uns!(add, mul, div, rem); if !a.m.lt(&c.m) { uns!(sub); }
        let b = out(|| (gcd_ubi(&p, &q).rw(), false)); same(cx, "gcd_bi", ar, &b, || gcd_bi(&x, &y).rw());
    }
    cx.check("operands", x.rw() == a.rw() && y.rw() == c.rw(), || format!("operands changed: {}", ar()));
}
fn s_unary(a: &Z, cx: &mut Cx) {
    let x = b(a); let ar: &dyn Fn() -> String = &|| format!("{a}");
    one!(cx, ar, x, neg / neg_mut, abs / abs_mut);
    let q = Q::from_z(a.clone()); let y = r(&q);
    let b0 = out(|| Ratio::from_bi(x.neg()).rw()); same(cx, "Ratio.neg", ar, &b0, || y.neg().rw());
    let b0 = out(|| Ratio::from_bi(x.abs()).rw()); same(cx, "Ratio.abs", ar, &b0, || y.abs().rw());
    let b0 = out(|| x.to_string_dec()); same(cx, "BigInt Display", ar, &b0, || format!("{x}"));
    if !a.neg { let n = u(&a.m); same(cx, "UBigInt.to_string_dec", ar, &b0, || n.to_string_dec()); same(cx, "UBigInt Display", ar, &b0, || format!("{n}"));
        for p in [true, false] { for (k, f, g) in [("hex", n.to_string_hex(p), x.to_string_hex(p)), ("oct", n.to_string_oct(p), x.to_string_oct(p)), ("bin", n.to_string_bin(p), x.to_string_bin(p))] { cx.check("radix forms", f == g, || format!("to_string_{k}({}) differs between UBigInt and BigInt: {f} {g}", ar())); } }
        let b0 = out(|| n.sqrt().rw()); same(cx, "BigInt.sqrt", ar, &b0, || x.sqrt().rw().0);
        let b0 = out(|| n.log2().rw()); same(cx, "BigInt.log2", ar, &b0, || x.log2().rw().0);
        let b0 = out(|| n.log2_accurate().rw()); same(cx, "BigInt.log2_accurate", ar, &b0, || x.log2_accurate().rw().0);
    }
    cx.check("operand", x.rw() == a.rw(), || format!("operand changed: {}", ar()));
}
/// rational with an integer operand: rational, big-integer, machine-word and all in-place forms
fn r_int(a: &Q, c: &Z, cx: &mut Cx) {
    let (x, y, k) = (r(a), r(&Q::from_z(c.clone())), b(c)); let ar: &dyn Fn() -> String = &|| format!("{a:?}, {c}");
    let w = c.to_i128().and_then(|v| i32::try_from(v).ok());
    macro_rules! six { ($($f:ident, $fm:ident, $fb:ident, $fbm:ident, $fw:ident, $fwm:ident);*) => { $( {
        let b = out(|| x.$f(&y).rw());
        same(cx, stringify!($fm), ar, &b, || in_place!(x, $fm(&y))); same(cx, stringify!($fb), ar, &b, || x.$fb(&k).rw()); same(cx, stringify!($fbm), ar, &b, || in_place!(x, $fbm(&k)));
        if let Some(w) = w { same(cx, stringify!($fw), ar, &b, || x.$fw(w).rw()); same(cx, stringify!($fwm), ar, &b, || in_place!(x, $fwm(w))); }
    } )* } }
    six!(add, add_mut, add_bi, add_bi_mut, add_i32, add_i32_mut; sub, sub_mut, sub_bi, sub_bi_mut, sub_i32, sub_i32_mut; mul, mul_mut, mul_bi, mul_bi_mut, mul_i32, mul_i32_mut; div, div_mut, div_bi, div_bi_mut, div_i32, div_i32_mut);
    if let Some(w) = w { cx.hit("word operand"); cmps!(cx, ar, x, &y, w, lt, lt_i32; gt, gt_i32; leq, leq_i32; geq, geq_i32; eq, eq_i32; neq, neq_i32; comp, comp_i32); }
    if c.m.is_one() && !c.neg { cmps1(&x, &y, ar, cx); }
    cx.check("operands", x.rw() == a.rw() && k.rw() == c.rw(), || format!("operands changed: {}", ar()));
}
fn cmps1(x: &Ratio, one: &Ratio, ar: &dyn Fn() -> String, cx: &mut Cx) { let b = out(|| x.lt(one)); same(cx, "lt_one", ar, &b, || x.lt_one()); let b = out(|| x.gt(one)); same(cx, "gt_one", ar, &b, || x.gt_one()); }
fn r_pair(a: &Q, c: &Q, cx: &mut Cx) {
    let (x, y) = (r(a), r(c)); let ar: &dyn Fn() -> String = &|| format!("{a:?}, {c:?}");
    two!(cx, ar, x, &y, add / add_mut, sub / sub_mut, mul / mul_mut, div / div_mut);
    // complex numbers: both parts of the in-place and word forms
    let z = || Complex::from_real_and_imag(x.clone(), y.clone()); let z2 = || Complex::from_real_and_imag(y.clone(), x.neg());
    let parts = |c: &Complex| (c.real().rw(), c.imaginary().rw());
    let b = out(|| (x.add(&y).rw(), y.add(&x.neg()).rw()));
    same(cx, "Complex.add", ar, &b, || parts(&z().add(&z2()))); same(cx, "Complex.add_mut", ar, &b, || { let mut p = z(); p.add_mut(&z2()); parts(&p) });
    cx.check("operands", x.rw() == a.rw() && y.rw() == c.rw(), || format!("operands changed: {}", ar()));
}
fn r_unary(a: &Q, cx: &mut Cx) {
    let x = r(a); let ar: &dyn Fn() -> String = &|| format!("{a:?}");
    one!(cx, ar, x, neg / neg_mut, abs / abs_mut, truncate / truncate_mut, frac / frac_mut, reci / reci_mut);
    for e in -6..=6 { let ar: &dyn Fn() -> String = &|| format!("{a:?}, {e}"); two!(cx, ar, x, e, pow_i32 / pow_i32_mut); }
    let bi = |v: BigInt| Ratio::from_bi(v).rw();
    let b0 = out(|| x.truncate().rw()); same(cx, "truncate_bi", ar, &b0, || bi(x.truncate_bi())); same(cx, "truncate_and_frac.0", ar, &b0, || bi(x.truncate_and_frac().0));
    let b0 = out(|| x.frac().rw()); same(cx, "truncate_and_frac.1", ar, &b0, || x.truncate_and_frac().1.rw());
    let b0 = out(|| x.floor().rw()); same(cx, "floor_bi", ar, &b0, || bi(x.floor_bi()));
    let b0 = out(|| x.round().rw()); same(cx, "round_bi", ar, &b0, || bi(x.round_bi()));
    let b0 = out(|| x.neg().rw()); same(cx, "mul_i32(-1)", ar, &b0, || x.mul_i32(-1).rw());
    let b0 = out(|| x.reci().rw()); same(cx, "1 / x", ar, &b0, || Ratio::one().div(&x).rw()); same(cx, "pow_i32(-1)", ar, &b0, || x.pow_i32(-1).rw());
    let b0 = out(|| x.mul(&x).rw()); same(cx, "pow_i32(2)", ar, &b0, || x.pow_i32(2).rw());
    cx.check("operand", x.rw() == a.rw(), || format!("operand changed: {}", ar()));
}
fn c_word(a: &Q, w: i32, cx: &mut Cx) {
    let x = r(a); let ar: &dyn Fn() -> String = &|| format!("({a:?}, 1/2), {w}"); let im = r(&Q::frac(1, 2));
    let parts = |c: &Complex| (c.real().rw(), c.imaginary().rw());
    let z = || Complex::from_real_and_imag(x.clone(), im.clone());
    let b = out(|| parts(&z().add(&Complex::from_real_and_imag(Ratio::from_i32(w), Ratio::zero()))));
    same(cx, "Complex.add_i32", ar, &b, || parts(&z().add_i32(w))); same(cx, "Complex.add_i32_mut", ar, &b, || { let mut p = z(); p.add_i32_mut(w); parts(&p) });
}
fn mat_case(v: Vec<Q>, rows: usize, k: &Q, cx: &mut Cx) {
    let cols = v.len() / rows; let g = |o: usize| -> Matrix { Matrix::from_vec((0..rows).map(|i| (0..cols).map(|j| r(&v[(i * cols + j + o) % v.len()])).collect()).collect()).unwrap() };
    let (m, n) = (g(0), g(1)); let ar: &dyn Fn() -> String = &|| format!("{v:?} in {rows} rows, {k:?}"); let kr = r(k);
    let show = |m: &Matrix| m.to_ratio_string();
    let b = out(|| show(&m.add(&n).unwrap())); same(cx, "Matrix.add_mut", ar, &b, || { let mut z = m.clone(); z.add_mut(&n).unwrap(); show(&z) });
    let b = out(|| show(&m.mul_k(kr.clone()))); same(cx, "Matrix.mul_k_mut", ar, &b, || { let mut z = m.clone(); z.mul_k_mut(kr.clone()); show(&z) });
    let b = out(|| show(&m.transpose())); same(cx, "Matrix.transpose_mut", ar, &b, || { let mut z = m.clone(); z.transpose_mut(); show(&z) });
    if let Some(w) = k.n.to_i128().and_then(|v| i32::try_from(v).ok()) { if k.is_int() { let b = out(|| show(&m.mul_k(kr.clone()))); same(cx, "Matrix.mul_k word", ar, &b, || show(&m.mul_k(w))); } }
    let p = Polynomial::from_vec(v.iter().map(r).collect()); let ps = |p: &Polynomial| p.to_vec().iter().map(|x| x.rw()).collect::<Vec<_>>();
    let b = out(|| ps(&p.mul_k(kr.clone()))); same(cx, "Polynomial.mul_k_mut", ar, &b, || { let mut z = p.clone(); z.mul_k_mut(kr.clone()); ps(&z) });
    let b = out(|| ps(&p.differentiate())); same(cx, "Polynomial.differentiate_mut", ar, &b, || { let mut z = p.clone(); z.differentiate_mut(); ps(&z) });
    cx.check("operand", m == g(0) && n == g(1), || format!("operand changed: {}", ar()));
}
pub fn c04(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let uw = cat(vec![smalls(50), nats(A7, 2), nats(A5, 3), nats(A3, 5), words().into_iter().map(|w| N::from_u128(w as u128)).collect(), if th { nats(A7, 4) } else { vec![] }]);
    s.push(Suite::pairs("unsigned-words", "critical naturals x critical words: five operations in four forms, seven comparisons, absolute difference, power-of-two remainder", uw.clone(), words(), |a, w, cx| u_word(a, *w, cx)));
    let up = if th { cat(vec![smalls(100), nats(A7, 3), nats(A5, 4), nats(A4, 5)]) } else { cat(vec![smalls(60), nats(A7, 3), nats(A4, 4), nats(A3, 5)]) };
    s.push(Suite::pairs("unsigned-pairs", "all pairs of critical naturals: in-place forms, Sum, Product, absolute difference", up.clone(), up.clone(), u_pair));
    let lp = longs(&[1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 80], &[1, MAX], &[Fill::Zero, Fill::Ones, Fill::Mix], &[0, MAX]);
    s.push(Suite::pairs("unsigned-long", "all pairs of patterned naturals up to 80 limbs", lp.clone(), lp.clone(), u_pair));
    let mut sm = cat(vec![smalls(20), nats(A4, 3), nats(A3, 4)]); sm.extend(longs(&[8, 40], &[1, MAX], &[Fill::Ones, Fill::Mix], &[0, 1]));
    s.push(Suite::pairs("shifts-and-powers", "shifts, slices, power-of-two products and powers: in-place, signed and unsigned forms", sm, (0..=(if th { 200u32 } else { 70 })).collect(), |a, k, cx| u_small(a, *k, cx)));
    let mut sw = uw.clone(); sw.extend(pow2_hood(70, 2)); let sw = signed(&dedup(sw));
    s.push(Suite::pairs("signed-words", "critical signed integers x critical words incl. the most negative", sw.clone(), iwords(), |a, w, cx| s_word(a, *w, cx)));
    let sp = signed(&if th { cat(vec![smalls(60), nats(A7, 3), nats(A4, 4), nats(A3, 5)]) } else { cat(vec![smalls(40), nats(A5, 3), nats(A3, 5)]) });
    s.push(Suite::pairs("signed-pairs", "all signed pairs: in-place forms, agreement with the unsigned type", sp.clone(), sp, s_pair));
    s.push(Suite::list("signed-unary", "negation, absolute value, printing, roots and logarithms across types", sw, |a, cx| s_unary(&a, cx)));
    let mut f = if th { fracs(20, 14) } else { fracs(12, 9) }; f.extend(if th { crit_q(A5, 2, 2) } else { crit_q(A3, 2, 2) }); let f = dedup_q(f);
    let zs = signed(&cat(vec![smalls(12), nats(A5, 2), words().into_iter().map(|w| N::from_u128(w as u128)).collect()]));
    s.push(Suite::pairs("rational-integer", "fractions x integers: rational, big-integer, word forms, each also in place", f.clone(), zs, r_int));
    let f2 = if th { fracs(14, 9) } else { fracs(8, 6) }; let mut f2 = f2; f2.extend(crit_q(A3, 2, 1)); let f2 = dedup_q(f2);
    s.push(Suite::pairs("rational-pairs", "all pairs of fractions: in-place forms; complex addition forms", f2.clone(), f2, r_pair));
    let mut ru = fracs(60, 20); ru.extend(crit_q(A5, 2, 2)); let ru = dedup_q(ru);
    s.push(Suite::list("rational-unary", "negation, absolute value, truncation, fraction, reciprocal, powers, rounding forms", ru, |a, cx| r_unary(&a, cx)));
    s.push(Suite::pairs("complex-words", "complex numbers plus a machine word", f, iwords(), |a, w, cx| c_word(a, *w, cx)));
    let es = [Q::zero(), Q::one(), Q::from_i128(-1), Q::frac(3, 2), Q::frac(-5, 7)]; let ks = vec![Q::zero(), Q::one(), Q::from_i128(-1), Q::frac(2, 3), Q::from_i128(1 << 40), Q::from_i128(i32::MIN as i128)];
    let shapes: Vec<(usize, usize)> = vec![(1, 1), (2, 2), (2, 4), (1, 3), (3, 3), (2, 6), (3, 6)]; // (rows, cells)
    let mut cases = vec![]; for (rows, cells) in shapes { let total = 5u64.pow(cells as u32); for i in 0..total { cases.push((rows, cells, i)); } }
    s.push(Suite::pairs("matrix-polynomial", "matrices and polynomials over five entries in seven shapes: in-place forms", cases, ks, move |(rows, cells, i), k, cx| { let mut x = *i; let v: Vec<Q> = (0..*cells).map(|_| { let q = es[(x % 5) as usize].clone(); x /= 5; q }).collect(); mat_case(v, *rows, k, cx) }));
    let ue = every(50); let se = signed(&ue); let qe = qevery(24);
    s.push(Suite::pairs("word-lengths", "integers of every length to 50 limbs, both signs x 17 words", se.clone(), IW.to_vec(), |a, w, cx| { s_word(a, *w, cx); if !a.neg { u_word(&a.m, *w as u32, cx); } }));
    s.push(Suite::pairs("pair-lengths", "the same integers against operands of the same length, one limb, half the length and themselves", se.clone(), (0..6u32).collect(), |a, k, cx| { let l = a.m.0.len().max(1); let m = match k { 0 => a.m.clone(), 1 => a.m.add_small(1), 2 => long(l, 3, Fill::MixB, 9), 3 => long(1, 77, Fill::Mix, 77), 4 => long(l / 2 + 1, H, Fill::Alt, 1), _ => long(l + 1, 1, Fill::Mix, 5) }; if !a.neg { u_pair(&a.m, &m, cx); u_pair(&m, &a.m, cx); } for n in [false, true] { s_pair(a, &Z::new(n, m.clone()), cx); s_pair(&Z::new(n, m.clone()), a, cx); } }));
    s.push(Suite::list("unary-lengths", "the same integers: negation, absolute value, printing, roots and logarithms across types", se, |a, cx| s_unary(&a, cx)));
    s.push(Suite::pairs("shift-lengths", "naturals of every length to 50 limbs: shifts, slices, power-of-two products and powers", longs(&(1..=50).collect::<Vec<_>>(), &[1, MAX], &[Fill::Mix], &[0, MAX]), vec![0u32, 1, 2, 3, 16, 32], |a, k, cx| u_small(a, *k, cx)));
    s.push(Suite::list("rational-lengths", "fractions with every part length to 24 limbs against words, integers and fractions; unary forms", qe, |a, cx| {
        for w in [1i128, -1, 7, i32::MIN as i128, i32::MAX as i128] { r_int(&a, &Z::from_i128(w), cx); } for c in [a.n.clone(), a.dz(), Z::new(true, a.d.mul_small(6))] { r_int(&a, &c, cx); }
        for c in [a.clone(), a.negate(), a.reci(), Q::new(Z::from_i128(5), Z::new(false, a.d.mul_small(3)))] { r_pair(&a, &c, cx); } r_unary(&a, cx);
    }));
    s
}
