//! C09: conversions with machine integers and between the number types.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use hmath::*;

/// one machine type: into the big types when the value fits, back out always
macro_rules! machine { ($t:ty, $uns:tt, $z:expr, $cx:expr) => {{
    let (z, cx): (&Z, &mut Cx) = ($z, $cx);
    let n = stringify!($t);
    let fit: Option<$t> = if z.neg { z.to_i128().and_then(|v| <$t>::try_from(v).ok()) } else { z.m.to_u128().and_then(|v| <$t>::try_from(v).ok()) };
    let ar = || format!("{z}: {n}"); let big = b(z); let rat = Ratio::from_raw(vec![1], false, z.m.raw(), z.neg);
    cx.eq(concat!(stringify!($t), " from &BigInt"), ar, || <$t>::try_from(&big).ok(), &fit);
    cx.eq(concat!(stringify!($t), " from BigInt"), ar, || <$t>::try_from(big.clone()).ok(), &fit);
    cx.eq(concat!(stringify!($t), " from &Ratio"), ar, || <$t>::try_from(&rat).ok(), &fit);
    cx.eq(concat!(stringify!($t), " from Ratio"), ar, || <$t>::try_from(rat.clone()).ok(), &fit);
    if !z.neg { let ub = u(&z.m);
        cx.eq(concat!(stringify!($t), " from &UBigInt"), ar, || <$t>::try_from(&ub).ok(), &fit);
        cx.eq(concat!(stringify!($t), " from UBigInt"), ar, || <$t>::try_from(ub.clone()).ok(), &fit); }
    if let Some(v) = fit {
        cx.hit("fits");
        cx.eq(concat!("BigInt from ", stringify!($t)), ar, || BigInt::from(v).rw(), &z.rw());
        cx.eq(concat!("BigInt from &", stringify!($t)), ar, || BigInt::from(&v).rw(), &z.rw());
        cx.eq(concat!("Ratio from ", stringify!($t)), ar, || Ratio::from(v).rw(), &Q::from_z(z.clone()).rw());
        cx.eq(concat!("Ratio from &", stringify!($t)), ar, || Ratio::from(&v).rw(), &Q::from_z(z.clone()).rw());
        machine!(@u $uns, $t, v, z, cx, ar);
    } else { cx.hit("does not fit"); }
}};
(@u true, $t:ty, $v:ident, $z:ident, $cx:ident, $ar:ident) => {
    $cx.eq(concat!("UBigInt from ", stringify!($t)), $ar, || UBigInt::from($v).rw(), &$z.m.rw());
    $cx.eq(concat!("UBigInt from &", stringify!($t)), $ar, || UBigInt::from(&$v).rw(), &$z.m.rw());
};
(@u false, $t:ty, $v:ident, $z:ident, $cx:ident, $ar:ident) => {
    let w = if $z.neg { None } else { Some($z.m.rw()) };
    $cx.eq(concat!("UBigInt try_from ", stringify!($t)), $ar, || UBigInt::try_from($v).ok().map(|x| x.rw()), &w);
    $cx.eq(concat!("UBigInt try_from &", stringify!($t)), $ar, || UBigInt::try_from(&$v).ok().map(|x| x.rw()), &w);
};
}
pub fn all(z: &Z, cx: &mut Cx) {
    machine!(u8, true, z, cx); machine!(u16, true, z, cx); machine!(u32, true, z, cx); machine!(u64, true, z, cx); machine!(u128, true, z, cx); machine!(usize, true, z, cx);
    machine!(i8, false, z, cx); machine!(i16, false, z, cx); machine!(i32, false, z, cx); machine!(i64, false, z, cx); machine!(i128, false, z, cx); machine!(isize, false, z, cx);
    named(z, cx);
}
fn named(z: &Z, cx: &mut Cx) {
    let ar = || format!("{z}"); let big = b(z); let q = Q::from_z(z.clone()); let rat = r(&q); let i = z.to_i128();
    macro_rules! sg { ($t:ty, $from:ident, $to:ident) => {
        let fit = i.and_then(|v| <$t>::try_from(v).ok());
        cx.eq(concat!("BigInt::", stringify!($to)), ar, || big.$to().ok(), &fit);
        if let Some(v) = fit { cx.eq(concat!("BigInt::", stringify!($from)), ar, || BigInt::$from(v).rw(), &z.rw()); cx.eq(concat!("Ratio::", stringify!($from)), ar, || Ratio::$from(v).rw(), &q.rw()); }
    } }
    sg!(i32, from_i32, to_i32); sg!(i64, from_i64, to_i64); sg!(i128, from_i128, to_i128);
    let un = if z.neg { None } else { Some(z.m.rw()) };
    cx.eq("BigInt::to_ubi", ar, || big.to_ubi().ok().map(|x| x.rw()), &un);
    cx.eq("UBigInt from &BigInt", ar, || UBigInt::try_from(&big).ok().map(|x| x.rw()), &un);
    cx.eq("UBigInt from BigInt", ar, || UBigInt::try_from(big.clone()).ok().map(|x| x.rw()), &un);
    cx.eq("UBigInt from &Ratio", ar, || UBigInt::try_from(&rat).ok().map(|x| x.rw()), &un);
    cx.eq("UBigInt from Ratio", ar, || UBigInt::try_from(rat.clone()).ok().map(|x| x.rw()), &un);
    cx.eq("BigInt from &Ratio", ar, || BigInt::from(&rat).rw(), &z.rw());
    cx.eq("BigInt from Ratio", ar, || BigInt::from(rat.clone()).rw(), &z.rw());
    cx.eq("Ratio from &BigInt", ar, || Ratio::from(&big).rw(), &q.rw());
    cx.eq("Ratio from BigInt", ar, || Ratio::from(big.clone()).rw(), &q.rw());
    cx.eq("Ratio::from_bi", ar, || Ratio::from_bi(big.clone()).rw(), &q.rw());
    cx.eq("bool from BigInt", ar, || (bool::from(&big), bool::from(big.clone())), &(!z.is_zero(), !z.is_zero()));
    cx.eq("(BigInt, BigInt) from Ratio", ar, || { let (d, n): (BigInt, BigInt) = (&rat).into(); let (e, m): (BigInt, BigInt) = rat.clone().into(); (d.rw(), n.rw(), e.rw(), m.rw()) }, &(Z::one().rw(), z.rw(), Z::one().rw(), z.rw()));
    if !z.neg {
        let ub = u(&z.m); let m = z.m.to_u128();
        macro_rules! us { ($t:ty, $from:ident, $to:ident) => {
            let fit = m.and_then(|v| <$t>::try_from(v).ok());
            cx.eq(concat!("UBigInt::", stringify!($to)), ar, || ub.$to().ok(), &fit);
            if let Some(v) = fit { cx.eq(concat!("UBigInt::", stringify!($from)), ar, || UBigInt::$from(v).rw(), &z.m.rw()); }
        } }
        us!(u32, from_u32, to_u32); us!(u64, from_u64, to_u64); us!(u128, from_u128, to_u128);
        for neg in [false, true] { if neg && z.is_zero() { continue; } cx.eq("BigInt::from_ubi", || format!("{z}, {neg}"), || BigInt::from_ubi(ub.clone(), neg).rw(), &Z::new(neg, z.m.clone()).rw()); }
        cx.eq("BigInt from UBigInt", ar, || (BigInt::from(&ub).rw(), BigInt::from(ub.clone()).rw()), &(z.rw(), z.rw()));
        cx.eq("Ratio from UBigInt", ar, || (Ratio::from(&ub).rw(), Ratio::from(ub.clone()).rw(), Ratio::from_ubi(ub.clone()).rw()), &(q.rw(), q.rw(), q.rw()));
        cx.eq("bool from UBigInt", ar, || (bool::from(&ub), bool::from(ub.clone())), &(!z.is_zero(), !z.is_zero()));
    }
    if let Some(v) = i { if v == 0 || v == 1 { let t = v == 1;
        cx.eq("from bool", ar, || (UBigInt::from(t).rw(), UBigInt::from(&t).rw(), BigInt::from(t).rw(), BigInt::from(&t).rw(), Ratio::from(t).rw(), Ratio::from(&t).rw()), &(z.m.rw(), z.m.rw(), z.rw(), z.rw(), q.rw(), q.rw())); } }
}
/// a rational converts like its truncation
fn rational(q: &Q, cx: &mut Cx) {
    let x = r(q); let t = q.trunc(); let ar = || format!("{q:?}"); let i = t.to_i128(); let m = if t.neg { None } else { t.m.to_u128() };
    macro_rules! go { ($($t:ty),*) => { $( let fit: Option<$t> = if t.neg { i.and_then(|v| <$t>::try_from(v).ok()) } else { m.and_then(|v| <$t>::try_from(v).ok()) };
        cx.eq(concat!(stringify!($t), " from &Ratio"), ar, || <$t>::try_from(&x).ok(), &fit); cx.eq(concat!(stringify!($t), " from Ratio"), ar, || <$t>::try_from(x.clone()).ok(), &fit); )* } }
    go!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    cx.eq("BigInt from Ratio", ar, || (BigInt::from(&x).rw(), BigInt::from(x.clone()).rw()), &(t.rw(), t.rw()));
    let un = if t.neg { None } else { Some(t.m.rw()) };
    cx.eq("UBigInt from Ratio", ar, || (UBigInt::try_from(&x).ok().map(|x| x.rw()), UBigInt::try_from(x.clone()).ok().map(|x| x.rw())), &(un.clone(), un));
    cx.eq("parts", ar, || { let (d, n): (BigInt, BigInt) = (&x).into(); (d.rw(), n.rw(), x.get_denom().rw(), x.get_numer().rw()) }, &(q.dz().rw(), q.n.rw(), q.dz().rw(), q.n.rw()));
}
pub fn c09(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let k: i64 = if th { 200_000 } else { 70_000 };
    s.push(Suite::new("small-integers", "every integer in -70000..=70000 (200000): all 8- and 16-bit values and their surroundings", (2 * k + 1) as u64, move |i| i as i64 - k, |v, cx| all(&Z::from_i128(v as i128), cx)));
    let w = if th { 40 } else { 12 };
    let v = signed(&cat(vec![pow2_hood(if th { 300 } else { 140 }, w), pow10_hood(45, 3)]));
    s.push(Suite::list("power-neighbourhoods", "every integer within 12 (40) of a power of two below 2^140 (2^300), and around powers of ten, both signs", v.clone(), |z, cx| all(&z, cx)));
    let l = signed(&if th { cat(vec![nats(A9, 4), nats(A7, 5), nats(A3, 8)]) } else { cat(vec![nats(A9, 3), nats(A7, 4), nats(A5, 5), nats(A3, 6)]) });
    s.push(Suite::list("limb-patterns", "every signed integer over critical limb alphabets", l, |z, cx| all(&z, cx)));
    s.push(Suite::list("letters", "every signed integer of one to three limbs over 24 border letters, and of 4 to 9 limbs with each letter at each position", signed(&cat(vec![nats(A24, 3), spotted(&[4, 5, 6, 9], F3, A24)])), |z, cx| all(&z, cx)));
    let mut q = vec![]; let fr = [(1, 2), (1, 3), (2, 3), (1, 1i128 << 40), ((1i128 << 40) - 1, 1 << 40), (1, (1i128 << 100) - 1)];
    for z in &v { if z.m.bits() > 140 { continue; } for (n, d) in fr { q.push(Q::from_z(z.clone()).add(&Q::frac(n, d))); q.push(Q::from_z(z.clone()).sub(&Q::frac(n, d))); } }
    s.push(Suite::list("rationals", "every boundary integer plus or minus 1/2, 1/3, 2/3 and hair-thin fractions", q, |q, cx| rational(&q, cx)));
    s.push(Suite::list("every-length", "patterned integers of every length to 70 limbs, both signs", signed(&every(70)), |z, cx| all(&z, cx)));
    s.push(Suite::list("rational-every-length", "fractions with every part length to 60 limbs", { let mut v = qevery(60); for l in 1..=40usize { for k in [i32::MAX as i128, -(1i128 << 63), (1i128 << 64) - 1, 255, -129, 0] { v.push(Q::from_i128(k).add(&Q::new(Z::from_i128(if k < 0 { -1 } else { 1 }), Z::new(false, long(l, 3, Fill::Mix, 5))))); } } v }, |q, cx| rational(&q, cx)));
    s
}
