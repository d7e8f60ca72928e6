//! C07, C08, C12, C13: text.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use super::order::{crit_q, fracs};
use hmath::{BigInt, Ratio, UBigInt};
use std::str::FromStr;

// ---------- C07 ----------
pub fn render(n: &N, cx: &mut Cx) {
    let x = u(n); let ar = || format!("{n}");
    let (d, h, o, b2) = (n.to_radix(10), n.to_radix(16), n.to_radix(8), n.to_radix(2));
    cx.eq("to_string_dec", ar, || x.to_string_dec(), &d);
    cx.eq("Display", ar, || format!("{x}"), &d);
    cx.eq("to_string_hex", ar, || (x.to_string_hex(false), x.to_string_hex(true)), &(h.clone(), format!("0x{h}")));
    cx.eq("to_string_oct", ar, || (x.to_string_oct(false), x.to_string_oct(true)), &(o.clone(), format!("0o{o}")));
    cx.eq("to_string_bin", ar, || (x.to_string_bin(false), x.to_string_bin(true)), &(b2.clone(), format!("0b{b2}")));
    cx.eq("LowerHex", ar, || (format!("{x:x}"), format!("{x:#x}")), &(h.clone(), format!("0x{h}")));
    cx.eq("Octal", ar, || (format!("{x:o}"), format!("{x:#o}")), &(o.clone(), format!("0o{o}")));
    cx.eq("Binary", ar, || (format!("{x:b}"), format!("{x:#b}")), &(b2.clone(), format!("0b{b2}")));
    let w = Ok(n.raw());
    for t in [d.clone(), format!("0x{h}"), format!("0X{}", h.to_uppercase()), format!("0o{o}"), format!("0O{o}"), format!("0b{b2}"), format!("0B{b2}")] {
        cx.eq("UBigInt::from_string", || t.clone(), || UBigInt::from_string(&t).map(|x| x.rw()), &w);
    }
    cx.eq("UBigInt parse forms", ar, || (UBigInt::from_str(&d).map(|x| x.rw()), UBigInt::try_from(d.as_str()).map(|x| x.rw()), UBigInt::try_from(d.clone()).map(|x| x.rw())), &(w.clone(), w.clone(), w));
    for neg in [false, true] {
        if neg && n.is_zero() { continue; }
        let z = Z::new(neg, n.clone()); let x = b(&z); let s = if neg { "-" } else { "" }; let ar = || format!("{z}");
        cx.eq("BigInt.to_string_dec", ar, || (x.to_string_dec(), format!("{x}")), &(format!("{s}{d}"), format!("{s}{d}")));
        cx.eq("BigInt.hex", ar, || (x.to_string_hex(false), x.to_string_hex(true), format!("{x:x}"), format!("{x:#x}")), &(format!("{s}{h}"), format!("{s}0x{h}"), format!("{s}{h}"), format!("{s}0x{h}")));
        cx.eq("BigInt.oct", ar, || (x.to_string_oct(false), x.to_string_oct(true), format!("{x:o}"), format!("{x:#o}")), &(format!("{s}{o}"), format!("{s}0o{o}"), format!("{s}{o}"), format!("{s}0o{o}")));
        cx.eq("BigInt.bin", ar, || (x.to_string_bin(false), x.to_string_bin(true), format!("{x:b}"), format!("{x:#b}")), &(format!("{s}{b2}"), format!("{s}0b{b2}"), format!("{s}{b2}"), format!("{s}0b{b2}")));
        let w = Ok(z.rw());
        for t in [format!("{s}{d}"), format!("{s}0x{h}"), format!("{s}0o{o}"), format!("{s}0b{b2}")] { cx.eq("BigInt::from_string", || t.clone(), || BigInt::from_string(&t).map(|x| x.rw()), &w); }
        let t = format!("{s}{d}");
        cx.eq("BigInt parse forms", ar, || (BigInt::from_str(&t).map(|x| x.rw()), BigInt::try_from(t.as_str()).map(|x| x.rw()), BigInt::try_from(t.clone()).map(|x| x.rw())), &(w.clone(), w.clone(), w));
        let wq = Ok(Q::from_z(z.clone()).rw());
        cx.eq("Ratio::from_string(int)", ar, || Ratio::from_string(&t).map(|x| x.rw()), &wq);
        cx.eq("Ratio.to_ratio_string(int)", ar, || Ratio::from_bi(x.clone()).to_ratio_string(), &t);
    }
}
pub fn c07(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    s.push(Suite::new("small", "every integer below the bound", if th { 400_000 } else { 60_000 }, |i| N::from_u128(i as u128), |n, cx| render(&n, cx)));
    s.push(Suite::list("limb-patterns", "all values over critical limb alphabets", if th { cat(vec![nats(A9, 4), nats(A5, 5), nats(A3, 8)]) } else { cat(vec![nats(A7, 3), nats(A4, 4), nats(A3, 6)]) }, |n, cx| render(&n, cx)));
    s.push(Suite::list("letters", "24 border letters to 2 limbs; each letter at each position of 3..=7 and 20 limbs", cat(vec![nats(A24, 2), spotted(&[3, 4, 5, 6, 7, 20], F3, A24)]), |n, cx| render(&n, cx)));
    s.push(Suite::list("powers", "2^k and 10^k and their neighbours (digit-group boundaries)", cat(vec![pow2_hood(if th { 1400 } else { 500 }, 2), pow10_hood(if th { 420 } else { 150 }, 2)]), |n, cx| render(&n, cx)));
    // decimal strings with one non-zero digit pair at each position: zero padding inside groups
    let k = if th { 60u32 } else { 40 };
    let mut v = vec![]; for i in 0..k { for j in 0..=i { for (a, c) in [(1u128, 1u128), (9, 5), (1, 9)] { v.push(N::from_u128(10).pow(i).mul(&N::from_u128(a)).add(&N::from_u128(10).pow(j).mul(&N::from_u128(c)))); } } }
    for r in [2u32, 8, 16] { let m = if r == 2 { 140 } else { 45 }; for i in 0..m { for j in 0..=i { v.push(N::from_u128(r as u128).pow(i).add(&N::from_u128(r as u128).pow(j).mul_small(r - 1))); } } }
    s.push(Suite::list("sparse-digits", "a*r^i + c*r^j for every i >= j, radices 2 8 10 16", dedup(v), |n, cx| render(&n, cx)));
    s.push(Suite::list("long", "patterned values of every length to 70 (200) limbs", longs(&(1..=(if th { 200 } else { 70 })).collect::<Vec<_>>(), &[1, 9, MAX], FILLS, &[0, 1, MAX]), |n, cx| render(&n, cx)));
    s.push(Suite::list("huge", "patterned values of 100 to 1025 (2049) limbs", longs(if th { &[256, 257, 300, 500, 512, 513, 1000, 1024, 1025, 2049] } else { &[100, 128, 129, 200, 256, 257, 300, 513, 1025] }, &[1, MAX], &[Fill::Ones, Fill::Mix, Fill::Zero, Fill::Alt], &[0, 1]), |n, cx| render(&n, cx)));
    s
}

// ---------- C08 ----------
#[derive(Clone, Debug, PartialEq)]
pub enum Lit<T> { Yes(T), No, Open }
/// the documented literal grammar of UBigInt::from_string
pub fn ulit(s: &[char]) -> Lit<N> {
    if s.is_empty() { return Lit::No; }
    if s[0] == '0' {
        if s[1..].iter().all(|c| *c == '_') { return Lit::Yes(N::zero()); }
        let r = match s[1] { 'x' | 'X' => 16, 'b' | 'B' => 2, 'o' | 'O' => 8, '_' => {
            // an underscore inside the prefix: not documented, left open
            let t: Vec<char> = std::iter::once('0').chain(s[1..].iter().copied().filter(|c| *c != '_')).collect();
            return if matches!(ulit(&t), Lit::Yes(_)) { Lit::Open } else { Lit::No };
        } _ => return Lit::No };
        let d: Vec<char> = s[2..].iter().copied().filter(|c| *c != '_').collect();
        if d.is_empty() || !d.iter().all(|c| c.is_ascii() && c.is_digit(r)) { return Lit::No; }
        return Lit::Yes(N::from_digits(&d.iter().collect::<String>(), r));
    }
    if !('1'..='9').contains(&s[0]) { return Lit::No; }
    let d: Vec<char> = s.iter().copied().filter(|c| *c != '_').collect();
    if !d.iter().all(|c| c.is_ascii_digit()) { return Lit::No; }
    Lit::Yes(N::from_digits(&d.iter().collect::<String>(), 10))
}
pub fn zlit(s: &[char]) -> Lit<Z> { let (neg, r) = if s.first() == Some(&'-') { (true, &s[1..]) } else { (false, s) }; match ulit(r) { Lit::Yes(n) => Lit::Yes(Z::new(neg, n)), Lit::No => Lit::No, Lit::Open => Lit::Open } }
fn judge<T: PartialEq + std::fmt::Debug>(cx: &mut Cx, key: &str, s: &str, want: &Lit<T>, f: impl FnOnce() -> Option<T>) {
    if let Some(g) = cx.op(key, || format!("{s:?}"), f) {
        match (want, g) {
            (Lit::Yes(w), Some(g)) => { cx.hit("accepted"); if g != *w { cx.fail(&format!("{key}.value"), || format!("{key}({s:?}) returned {g:?}, expected {w:?}")); } }
            (Lit::Yes(w), None) => cx.fail(&format!("{key}.rejected"), || format!("{key}({s:?}) is an error, expected {w:?}")),
            (Lit::No, None) => cx.hit("rejected"),
            (Lit::No, Some(g)) => cx.fail(&format!("{key}.accepted"), || format!("{key}({s:?}) returned {g:?}, expected an error")),
            (Lit::Open, _) => cx.hit("undocumented form, only panic-freedom decided"),
        }
    }
}
fn map<T, U>(l: Lit<T>, f: impl FnOnce(T) -> U) -> Lit<U> { match l { Lit::Yes(x) => Lit::Yes(f(x)), Lit::No => Lit::No, Lit::Open => Lit::Open } }
fn parse_int(s: String, cx: &mut Cx) {
    let c: Vec<char> = s.chars().collect();
    let un = map(ulit(&c), |n| n.raw()); let si = map(zlit(&c), |z| z.rw());
    judge(cx, "UBigInt::from_string", &s, &un, || UBigInt::from_string(&s).ok().map(|x| x.rw()));
    judge(cx, "BigInt::from_string", &s, &si, || BigInt::from_string(&s).ok().map(|x| x.rw()));
    judge(cx, "UBigInt::from_str", &s, &un, || UBigInt::from_str(&s).ok().map(|x| x.rw()));
    judge(cx, "BigInt::try_from", &s, &si, || BigInt::try_from(s.as_str()).ok().map(|x| x.rw()));
}
pub fn strings(alpha: &'static str, maxlen: u32) -> (u64, impl Fn(u64) -> String + Send + Sync + Clone + 'static) {
    let a: Vec<char> = alpha.chars().collect(); let k = a.len() as u64;
    let n = (0..=maxlen).map(|l| k.pow(l)).sum();
    (n, move |mut i: u64| { let mut l = 0; while i >= k.pow(l) { i -= k.pow(l); l += 1; } let mut v = vec!['?'; l as usize]; for p in (0..l as usize).rev() { v[p] = a[(i % k) as usize]; i /= k; } v.into_iter().collect() })
}
pub fn c08(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let (n, d) = strings("019aF_-xXbBoO7+ .e/é８", if th { 6 } else { 5 });
    s.push(Suite::new("all-texts", "every text to length 5 (6) over 20 characters: digits, radix letters, signs, separators, blanks, punctuation, non-ASCII digits and letters", n, d, parse_int));
    let (n, d) = strings("01_x-b", if th { 9 } else { 8 });
    s.push(Suite::new("deep-texts", "every text to length 8 (9) over 0 1 _ x - b", n, d, parse_int));
    // long literals with one character replaced by each of a set, at each position
    let mut v: Vec<String> = vec![];
    for base in ["123456789012345678901234567890", "-98765432109876543210", "0xdeadBEEF0123456789abcdef55", "-0XfFfFfFfFfFfFfFfF", "0b1011011101111011111011111101111111", "0o76543210123456701234567", "1_000_000_007_000_000", "0x_f_f_0_0_", "100000000000000000000000000000000000000000000000000"] {
        let c: Vec<char> = base.chars().collect(); v.push(base.into());
        for i in 0..c.len() { for r in "0189afgGxXo_-+. \u{0}é٣".chars() { let mut t = c.clone(); t[i] = r; v.push(t.iter().collect()); } let mut t = c.clone(); t.remove(i); v.push(t.iter().collect()); }
        for i in 0..=c.len() { for r in "_-0x \n".chars() { let mut t = c.clone(); t.insert(i, r); v.push(t.iter().collect()); } }
    }
    s.push(Suite::list("edited-literals", "long literals with every single-character replacement, insertion and deletion from a set", v, parse_int));
    // lengths: every digit count
    let mut v: Vec<String> = vec![]; for l in 1..(if th { 300 } else { 120 }) { for (p, ds) in [("", "91"), ("0x", "f01"), ("0b", "10"), ("0o", "70")] { for dg in ds.chars() { if p.is_empty() && dg == '0' { continue; } v.push(format!("{p}{}", dg.to_string().repeat(l))); v.push(format!("-{p}{}", dg.to_string().repeat(l))); v.push(format!("{p}{}_{}", dg, dg.to_string().repeat(l))); } } }
    s.push(Suite::list("all-lengths", "every literal length to 120 (300) digits in each radix", v, parse_int));
    let mut v: Vec<String> = vec![]; for l in [200usize, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1024, 2000, 3000, 5000] { for (p, ds) in [("", "918"), ("0x", "fA1"), ("0b", "10"), ("0o", "701")] { for dg in ds.chars() { if p.is_empty() && dg == '0' { continue; } let t = dg.to_string().repeat(l); v.push(format!("{p}{t}")); v.push(format!("-{p}{dg}_{t}")); v.push(format!("{p}{t}g")); v.push(format!("{p}{}-{}", &t[..l / 2], &t[l / 2..])); } } for k in [1usize, 3, 7] { v.push((0..l).map(|i| char::from(b'1' + ((i * k) % 9) as u8)).collect()); v.push(format!("0x{}", (0..l).map(|i| char::from(b"123456789abcdef0"[(i * k) % 16])).collect::<String>())); } }
    s.push(Suite::list("huge", "literals of 200 to 5000 digits, valid and with one bad character", v, parse_int));
    s
}

// ---------- C12 ----------
pub fn qlit(s: &str) -> Lit<Q> {
    let c: Vec<char> = s.chars().collect();
    match zlit(&c) { Lit::Yes(z) => return Lit::Yes(Q::from_z(z)), Lit::Open => return Lit::Open, Lit::No => {} }
    if !c.iter().all(|c| c.is_ascii_digit() || "._-eE".contains(*c)) {
        // letters of a radix may only form a prefixed integer; a prefixed exponent is left open
        if let Some(i) = c.iter().position(|c| *c == 'e' || *c == 'E') { if c[..i].iter().all(|c| c.is_ascii_digit() || "._-".contains(*c)) && matches!(zlit(&c[i + 1..]), Lit::Yes(_) | Lit::Open) { return Lit::Open; } }
        return Lit::No;
    }
    let (neg, body) = if c.first() == Some(&'-') { (true, &c[1..]) } else { (false, &c[..]) };
    let (mant, exp) = match body.iter().position(|c| *c == 'e' || *c == 'E') { Some(i) => (&body[..i], Some(&body[i + 1..])), None => (body, None) };
    let (ip, fp) = match mant.iter().position(|c| *c == '.') { Some(i) => (&mant[..i], Some(&mant[i + 1..])), None => (mant, None) };
    let mut open = false;
    let iz = if ip.is_empty() { if fp.map_or(true, |f| f.is_empty()) { return Lit::No; } open = true; N::zero() } else { match ulit(ip) { Lit::Yes(n) => n, Lit::No => return Lit::No, Lit::Open => { open = true; N::zero() } } };
    let mut q = Q::from_z(Z::new(false, iz));
    if let Some(f) = fp {
        if !f.iter().all(|c| c.is_ascii_digit() || *c == '_') { return Lit::No; }
        if f.is_empty() || f[0] == '_' { open = true; }
        let d: String = f.iter().filter(|c| **c != '_').collect();
        q = q.add(&Q::from_z(Z::new(false, N::from_digits(&d, 10))).mul(&Q::pow10(-(d.len() as i64))));
    }
    if let Some(e) = exp {
        match zlit(e) {
            Lit::Yes(z) => match z.to_i128() { Some(k) if k.abs() <= 100_000 => { if !open { q = q.mul(&Q::pow10(k as i64)); } } _ => open = true },
            Lit::No => return Lit::No, Lit::Open => open = true,
        }
    }
    if open { return Lit::Open; }
    Lit::Yes(if neg { q.negate() } else { q })
}
fn parse_q(s: String, cx: &mut Cx) {
    let w = map(qlit(&s), |q| q.rw());
    // an exponent beyond the practical range is not run
    if let Lit::Open = w { if s.chars().filter(|c| c.is_ascii_digit()).count() > 5 && s.to_ascii_lowercase().contains('e') { return; } }
    judge(cx, "Ratio::from_string", &s, &w, || Ratio::from_string(&s).ok().map(|x| x.rw()));
    judge(cx, "Ratio::from_str", &s, &w, || Ratio::from_str(&s).ok().map(|x| x.rw()));
    if s.len() < 40 { judge(cx, "Ratio::try_from(&str)", &s, &w, || Ratio::try_from(s.as_str()).ok().map(|x| x.rw())); judge(cx, "Ratio::try_from(String)", &s, &w, || Ratio::try_from(s.clone()).ok().map(|x| x.rw())); }
}
pub fn c12(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let (n, d) = strings("0159.eE-_x b+", if th { 6 } else { 5 });
    s.push(Suite::new("all-texts", "every text to length 5 (6) over 0 1 5 9 . e E - _ x b + blank", n, d, parse_q));
    let (n, d) = strings("025.e-", if th { 8 } else { 7 });
    s.push(Suite::new("deep-texts", "every text to length 7 (8) over 0 2 5 . e -", n, d, parse_q));
    let ints = ["0", "1", "5", "10", "25", "1024", "999999999", "1000000000", "4294967295", "4294967296", "123456789012345678901234567890", "1_000"];
    let fr = ["", ".0", ".5", ".25", ".125", ".1", ".50", ".05", ".005", ".999999999", ".0000000001", ".3333333333333333333333333333", ".1_5", ".78125", ".00", ".10000000000000000000"];
    let mut ex: Vec<String> = vec!["".into()]; for k in [0i32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 18, 19, 20, 27, 28, 29, 31, 32, 33, 50, 64, 100, 128, 200, 308, 324, 500, 1000] { ex.push(format!("e{k}")); ex.push(format!("E-{k}")); }
    if th { for k in [2000, 4999, 10000, 20000] { ex.push(format!("e{k}")); ex.push(format!("e-{k}")); } }
    let mut v = vec![]; for i in ints { for f in fr { for e in &ex { for g in ["", "-"] { v.push(format!("{g}{i}{f}{e}")); } } } }
    s.push(Suite::list("literals", "sign x integer part x fraction x exponent (31 magnitudes, both signs)", v, parse_q));
    let mut v = vec![]; for k in 1..(if th { 200 } else { 70 }) { for d in ["1", "9", "5", "2"] { v.push(format!("0.{}{d}", "0".repeat(k))); v.push(format!("0.{}", d.repeat(k))); v.push(format!("{}.{}", d.repeat(k), d.repeat(k))); v.push(format!("-{}.{}e-{k}", d.repeat(k), d.repeat(k))); v.push(format!("0.{}e{k}", d.repeat(k))); v.push(format!("{d}{}e-{k}", "0".repeat(k))); } }
    s.push(Suite::list("all-lengths", "every number of integer, fraction and zero digits to 70 (200)", v, parse_q));
    let mut v = vec![]; for l in [100usize, 127, 128, 129, 200, 255, 256, 257, 300, 400, 512, 700, 1000] { for d in ["1", "9", "5", "2"] { let t = d.repeat(l); v.push(format!("0.{t}")); v.push(format!("-{t}.{}", d.repeat(7))); v.push(format!("7.{}{d}", "0".repeat(l))); v.push(format!("{t}e-{l}")); v.push(format!("-0.{t}e{l}")); v.push(format!("3.{t}E-{}", l / 2)); v.push(format!("{t}.{t}.")); v.push(format!("1e{l}")); v.push(format!("-1.5e-{l}")); } }
    s.push(Suite::list("huge", "literals of 100 to 1000 digits in each part", v, parse_q));
    let mut v: Vec<String> = vec![];
    for base in ["123.456e7", "-0.00125E-12", "31415926535.8979323846", "0xfe", "1_0.0_5e-3"] {
        let c: Vec<char> = base.chars().collect();
        for i in 0..c.len() { for r in "059.eE-+_xbfg \u{0}é٣".chars() { let mut t = c.clone(); t[i] = r; v.push(t.iter().collect()); } let mut t = c.clone(); t.remove(i); v.push(t.iter().collect()); }
        for i in 0..=c.len() { for r in "05.eE-_x ".chars() { let mut t = c.clone(); t.insert(i, r); v.push(t.iter().collect()); } }
    }
    s.push(Suite::list("edited-literals", "literals with every single-character replacement, insertion and deletion from a set", v, parse_q));
    s
}

// ---------- C13 ----------
/// (value, sign length, mantissa integer digits, mantissa fraction digits, exponent text length, exponent)
struct Ren { v: Q, sign: usize, ip: usize, el: usize, e: i64 }
/// the value is divided by 10^at, so that huge magnitudes stay cheap to compare
fn read(s: &str, at: i64) -> Option<Ren> {
    let (neg, b) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, s) };
    let (m, e) = match b.split_once('e') { Some((m, e)) => (m, Some(e)), None => (b, None) };
    let (i, f) = match m.split_once('.') { Some((i, f)) => (i, Some(f)), None => (m, None) };
    if i.is_empty() || !i.bytes().all(|c| c.is_ascii_digit()) || f.map_or(false, |f| f.is_empty() || !f.bytes().all(|c| c.is_ascii_digit())) { return None; }
    if i.len() > 1 && i.starts_with('0') { return None; }
    let ev = match e { None => 0i64, Some(e) => { let d = e.strip_prefix('-').unwrap_or(e); if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) || d.len() > 1 && d.starts_with('0') { return None; } e.parse().ok()? } };
    let fd = f.unwrap_or("");
    let n = N::from_digits(&format!("{i}{fd}"), 10);
    let v = Q::from_z(Z::new(neg, n)).mul(&Q::pow10(ev - fd.len() as i64 - at));
    Some(Ren { v, sign: neg as usize, ip: i.len(), el: e.map_or(0, |e| e.len() + 1), e: ev })
}
/// shown is x cut toward zero with an error below 10^unit; `over` allows exceeding by x*2^-over
fn cut(cx: &mut Cx, key: &str, x: &Q, s: &str, shown: &Q, unit: i64, over: Option<i64>, arg: &dyn Fn() -> String) {
    let (ax, as_) = (x.abs(), shown.abs());
    cx.check(&format!("{key}.sign"), shown.is_zero() || shown.n.neg == x.n.neg, || format!("{key}({}) = {s:?} has the wrong sign", arg()));
    let d = ax.sub(&as_);
    let lo = match over { None => !d.n.neg, Some(b) => !d.n.neg || d.abs().le(&ax.mul(&Q::pow2(-b))) };
    cx.check(&format!("{key}.exceeds"), lo, || format!("{key}({}) = {s:?} exceeds the true value", arg()));
    cx.check(&format!("{key}.short"), d.lt(&Q::pow10(unit)), || format!("{key}({}) = {s:?} is {d:?} below the true value, a unit of the last permitted digit is 10^{unit}", arg()));
}
fn approx(x: &Q, len: usize, cx: &mut Cx) { approx_at(x, 0, &r(x), len, cx) }
/// x * 10^at, y its implementation value
fn approx_at(x: &Q, at: i64, y: &Ratio, len: usize, cx: &mut Cx) {
    let ar = || if at == 0 { format!("{x:?}, {len}") } else { format!("{x:?} * 10^{at}, {len}") };
    let s = match cx.op("to_approx_string", ar, || y.to_approx_string(len)) { Some(s) => s, None => return };
    if len == 12 { cx.eq("Display", ar, || (y.to_string(), format!("{y}")), &(s.clone(), s.clone())); }
    let t = match read(&s, at) { Some(t) => t, None => { cx.fail("to_approx_string.form", || format!("to_approx_string({}) = {s:?} is not a decimal", ar())); return; } };
    if x.is_zero() { cx.check("to_approx_string.zero", t.v.is_zero() && t.sign == 0, || format!("zero renders as {s:?}")); return; }
    let l = len.max(6).max(if t.el > 0 { t.el + 3 } else { 0 });
    cx.check("to_approx_string.length", s.len() <= l, || format!("to_approx_string({}) = {s:?} is longer than {l}", ar()));
    let unit = if t.el > 0 {
        cx.check("to_approx_string.mantissa", t.ip == 1 && !s.trim_start_matches('-').starts_with('0'), || format!("{s:?} mantissa"));
        let mut m = (l - t.el - t.sign - 1).min(if t.e < 0 { 8 } else { 9 }) as i64; if (-8..=-4).contains(&t.e) { m = m.min(t.e + 10); }
        cx.hit("scientific"); t.e - m + 1
    } else { cx.hit("plain"); -((l as i64 - t.sign as i64 - t.ip as i64 - 1).max(0)) };
    cut(cx, "to_approx_string", x, &s, &t.v, unit - at, None, &ar);
}
/// beyond 10^9990 only about three digits are promised
fn approx_huge(x: &Q, at: i64, y: &Ratio, len: usize, cx: &mut Cx) {
    let ar = || format!("{x:?} * 10^{at}, {len}");
    let s = match cx.op("to_approx_string", ar, || y.to_approx_string(len)) { Some(s) => s, None => return };
    let t = match read(&s, at) { Some(t) => t, None => { cx.fail("to_approx_string.form", || format!("to_approx_string({}) = {s:?} is not a decimal", ar())); return; } };
    cx.check("to_approx_string.sign", t.v.n.neg == x.n.neg && !t.v.is_zero(), || format!("to_approx_string({}) = {s:?}", ar()));
    let d = t.v.sub(x).abs(); cx.hit("huge");
    measure("huge", || d.div(&x.abs()).approx());
    cx.check("to_approx_string.huge", d.le(&x.abs().mul(&Q::frac(3, 1000))), || format!("to_approx_string({}) = {s:?} is off by more than 0.3 percent", ar()));
}
/// n/d * 10^at with d coprime to 10n and, for negative at, n coprime to 10
fn scaled(x: &Q, at: i64) -> Ratio { let t = N::from_u128(10).pow(at.unsigned_abs() as u32); if at >= 0 { Ratio::from_raw(x.d.raw(), false, x.n.m.mul(&t).raw(), x.n.neg) } else { Ratio::from_raw(x.d.mul(&t).raw(), false, x.n.m.raw(), x.n.neg) } }
fn sci(x: &Q, k: usize, cx: &mut Cx) { sci_at(x, 0, &r(x), k, cx) }
fn sci_at(x: &Q, at: i64, y: &Ratio, k: usize, cx: &mut Cx) {
    let ar = || if at == 0 { format!("{x:?}, {k}") } else { format!("{x:?} * 10^{at}, {k}") };
    let mut go = |key: &str, s: Option<String>, cap: i64, over: Option<i64>, cx: &mut Cx| {
        let s = match s { Some(s) => s, None => return };
        let t = match read(&s, at) { Some(t) => t, None => { cx.fail(&format!("{key}.form"), || format!("{key}({}) = {s:?}", ar())); return; } };
        if x.is_zero() { cx.check(&format!("{key}.zero"), t.v.is_zero() && t.sign == 0, || format!("{key}(0) = {s:?}")); return; }
        let mant = s.trim_start_matches('-').split('e').next().unwrap().chars().filter(|c| *c != '.').count();
        cx.check(&format!("{key}.digits"), t.el > 0 && t.ip == 1 && mant <= k && !s.trim_start_matches('-').starts_with('0'), || format!("{key}({}) = {s:?}", ar()));
        cut(cx, key, x, &s, &t.v, t.e - (k as i64).min(cap) + 1 - at, over, &ar);
    };
    let (yd, _, yn, yneg) = y.clone().into_raw(); let big = yn.len() > 4 && yd.len() > 4;
    let s = cx.op("Ratio.to_scientific_notation", ar, || y.to_scientific_notation(k)); go("Ratio.to_scientific_notation", s, 16, if big { Some(90) } else { None }, cx);
    if yd == [1] {
        let y = BigInt::from_raw(yn.clone(), yneg); let s = cx.op("BigInt.to_scientific_notation", ar, || y.to_scientific_notation(k)); go("BigInt.to_scientific_notation", s, 10, None, cx);
        if k == 5 { let w = y.to_scientific_notation(5); cx.eq("BigInt LowerExp", ar, || format!("{y:e}"), &w); }
        if !x.n.neg { let y = UBigInt::from_raw(yn); let s = cx.op("UBigInt.to_scientific_notation", ar, || y.to_scientific_notation(k)); go("UBigInt.to_scientific_notation", s, 10, None, cx); if k == 5 { let w = y.to_scientific_notation(5); cx.eq("UBigInt LowerExp", ar, || format!("{y:e}"), &w); } }
    }
}
fn exact(x: &Q, cx: &mut Cx) {
    let y = r(x); let w = if x.is_int() { format!("{}{}", if x.n.neg { "-" } else { "" }, x.n.m.to_radix(10)) } else { format!("{}{}/{}", if x.n.neg { "-" } else { "" }, x.n.m.to_radix(10), x.d.to_radix(10)) };
    cx.eq("to_ratio_string", || format!("{x:?}"), || y.to_ratio_string(), &w);
}
/// values near every power of ten and the two of every decimal magnitude
fn decs(lo: i64, hi: i64, step: usize) -> Vec<Q> {
    let mut o = vec![];
    for e in (lo..=hi).step_by(step) { let p = Q::pow10(e); for (n, d) in [(1, 1), (-1, 1), (9, 1), (3, 1), (1, 3), (2, 3), (-5, 7), (123456789123, 100000000000), (999999999999999999, 100000000000000000), (-999999999999, 100000000000), (101, 100), (1000000001, 1000000000)] { o.push(p.mul(&Q::frac(n, d))); } let t = Q::pow10(e - 30); o.push(p.sub(&t)); o.push(p.add(&t)); o.push(p.sub(&t).negate()); }
    o
}
pub fn c13(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let f = if th { fracs(150, 60) } else { fracs(90, 40) };
    let lens: Vec<usize> = if th { (0..=48).collect() } else { (0..=24).chain([30, 40]).collect() };
    let ks: Vec<usize> = if th { (1..=20).collect() } else { (1..=18).collect() };
    let mut q = f.clone(); q.extend(crit_q(if th { A5 } else { A3 }, 2, 2)); q.extend(signed(&cat(vec![pow2_hood(if th { 500 } else { 200 }, 1), pow10_hood(if th { 120 } else { 60 }, 2), longs(&[9, 10, 16, 33], &[1, MAX], FILLS, &[0, MAX])])).into_iter().map(Q::from_z)); let q = dedup_q(q);
    s.push(Suite::list("exact", "exact rendering of every fraction", q.clone(), |x, cx| exact(&x, cx)));
    s.push(Suite::pairs("limited", "length-limited rendering: fractions, critical words, powers of 2 and 10 with neighbours x lengths", q.clone(), lens.clone(), |x, l, cx| approx(x, *l, cx)));
    s.push(Suite::pairs("scientific", "scientific notation of the same values x digit limits", q, ks.clone(), |x, k, cx| sci(x, *k, cx)));
    let d = dedup_q(if th { decs(-400, 400, 1) } else { decs(-110, 110, 1) });
    s.push(Suite::pairs("limited-magnitudes", "values around every power of ten from 10^-110 to 10^110 (400) x lengths", d.clone(), lens, |x, l, cx| approx(x, *l, cx)));
    s.push(Suite::pairs("scientific-magnitudes", "scientific notation of the same x digit limits", d, ks, |x, k, cx| sci(x, *k, cx)));
    let g = qgrid(if th { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 33] } else { &[1, 2, 3, 4, 5, 6, 8, 12, 20] });
    s.push(Suite::pairs("limited-lengths", "fractions with every combination of part lengths to 20 (33) limbs x lengths", g.clone(), vec![0usize, 6, 8, 9, 10, 12, 15, 20, 24, 40], |x, l, cx| approx(x, *l, cx)));
    s.push(Suite::pairs("scientific-lengths", "scientific notation of the same x digit limits", g.clone(), (1..=20).collect::<Vec<usize>>(), |x, k, cx| sci(x, *k, cx)));
    s.push(Suite::pairs("scientific-all-lengths", "scientific notation and limited rendering of fractions whose parts have every length 1..=140 (260) limbs, differing by -2..=2 limbs", (1..=(if th { 260usize } else { 140 })).collect::<Vec<_>>(), (-2i64..=2).collect::<Vec<_>>(), |l, d, cx| { let m = *l as i64 + d; if m < 1 { return; } for (t, f) in [(1, Fill::Mix), (MAX, Fill::MixB), (H, Fill::Zero)] { let x = Q::new(Z::new(t == H, long(*l, t, f, 3)), Z::new(false, long(m as usize, 0x1234_5677, Fill::Mix, 1))); sci(&x, 9, cx); sci(&x, 17, cx); approx(&x, 12, cx); } }));
    s.push(Suite::list("exact-lengths", "exact rendering of the same", g, |x, cx| exact(&x, cx)));
    // far magnitudes: x * 10^at compared after division by 10^at
    let m: Vec<Q> = [(1, 1), (-1, 1), (3, 1), (7, 3), (-11, 7), (999999999999999999, 1), (-999999999, 1), (1000000001, 1), (101, 1), (1, 3), (123456789123456789, 1), (-99, 7)].into_iter().map(|(n, d)| Q::frac(n, d)).collect();
    let st = if th { 31usize } else { 331 };
    let ats: Vec<i64> = (111..=9960i64).step_by(st).chain(9961..=9969).flat_map(|e| [e, -e]).collect(); let c = (m.clone(), ats);
    let lk: Vec<usize> = if th { vec![0, 7, 9, 12, 20] } else { vec![0, 9, 12] }; let (nm, nl) = (m.len() as u64, lk.len() as u64);
    s.push(Suite::new("far-magnitudes", "12 mantissas x exponents from 10^-9969 to 10^9969 in steps of 331 (31) x limits, both renderings", nm * nl * c.1.len() as u64, move |i| (c.0[(i % nm) as usize].clone(), c.1[(i / nm / nl) as usize], lk[(i / nm % nl) as usize]), |(x, at, l), cx| { let y = scaled(&x, at); approx_at(&x, at, &y, l, cx); if l > 0 { sci_at(&x, at, &y, l, cx); } }));
    let ats: Vec<i64> = if th { (9992..=10100).chain((10200..=60000).step_by(331)).chain([65536, 99999, 100000, 131072]).flat_map(|e| [e, -e]).collect() } else { (9992..=10012).chain((11000..=40000).step_by(1777)).flat_map(|e| [e, -e]).collect() };
    s.push(Suite::pairs("huge-magnitudes", "mantissas x exponents beyond 10^9990, to 10^40000 (131072): sign and about three digits", m, ats, |x, at, cx| { let y = scaled(x, *at); for l in [12usize, 30] { approx_huge(x, *at, &y, l, cx); } }));
    s.push(Suite::list("exact-every-length", "exact rendering of fractions with every part length to 80 limbs and of integers of every length", { let mut v = qevery(80); v.extend(signed(&every(80)).into_iter().map(Q::from_z)); v }, |x, cx| exact(&x, cx)));
    s.push(Suite::pairs("integer-lengths", "integers of every length to 120 limbs, both signs: scientific notation x digit limits, and limited rendering", signed(&longs(&(1..=120).collect::<Vec<_>>(), &[1, MAX], F3, &[MAX])), vec![1usize, 4, 5, 8, 9, 10, 12], |z, k, cx| { let x = Q::from_z(z.clone()); sci(&x, *k, cx); approx(&x, *k + 4, cx); }));
    s
}
