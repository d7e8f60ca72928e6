//! C20 matrices, C21 polynomials and interpolation.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use hmath::*;

type MM = Vec<Vec<Q>>;
fn im(v: &MM) -> Matrix { Matrix::from_vec(v.iter().map(|x| x.iter().map(r).collect()).collect()).expect("rectangular") }
fn back(m: &Matrix, rows: usize, cols: usize) -> Vec<Vec<RR>> { (0..rows).map(|i| (0..cols).map(|j| m.get(i, j).rw()).collect()).collect() }
fn rwm(v: &MM) -> Vec<Vec<RR>> { v.iter().map(|x| x.iter().map(|q| q.rw()).collect()).collect() }
fn prod(a: &MM, c: &MM) -> MM { let n = c.len(); a.iter().map(|x| (0..c[0].len()).map(|j| (0..n).fold(Q::zero(), |s, k| s.add(&x[k].mul(&c[k][j])))).collect()).collect() }
fn tr(a: &MM) -> MM { (0..a[0].len()).map(|j| a.iter().map(|x| x[j].clone()).collect()).collect() }
/// alternating sum over all permutations
fn det(a: &MM) -> Q {
    let n = a.len(); let mut s = Q::zero(); let mut p: Vec<usize> = (0..n).collect();
    fn go(k: usize, p: &mut Vec<usize>, sg: bool, a: &MM, s: &mut Q) {
        let n = p.len(); if k == n { let mut t = Q::one(); for i in 0..n { t = t.mul(&a[i][p[i]]); if t.is_zero() { return; } } *s = if sg { s.sub(&t) } else { s.add(&t) }; return; }
        for i in k..n { if a[k][p[i]].is_zero() { continue; } p.swap(k, i); go(k + 1, p, sg != (i != k), a, s); p.swap(k, i); }
    }
    go(0, &mut p, false, a, &mut s); s
}
fn square(a: &MM, cx: &mut Cx) {
    let n = a.len(); let m = im(a); let ar = || format!("{a:?}"); let d = det(a);
    cx.eq("determinant", ar, || m.determinant().map(|x| x.rw()), &Ok(d.rw()));
    match n { 2 => { cx.eq("determinant_2_by_2", ar, || m.determinant_2_by_2().rw(), &d.rw()); } 3 => { cx.eq("determinant_3_by_3", ar, || m.determinant_3_by_3().rw(), &d.rw()); } 4 => { cx.eq("determinant_4_by_4", ar, || m.determinant_4_by_4().rw(), &d.rw()); } _ => {} }
    if d.is_zero() { cx.hit("singular"); cx.eq("inverse(singular)", ar, || m.inverse().is_err(), &true); }
    else if let Some(inv) = cx.op("inverse", ar, || m.inverse()) {
        cx.hit("invertible");
        match inv { Err(e) => cx.fail("inverse.error", || format!("inverse({}) = {e:?}, determinant {d:?}", ar())), Ok(i) => {
            let raw = back(&i, n, n); let iv: MM = raw.iter().map(|x| x.iter().map(|q| Q::new(Z::new(q.3, N::from_limbs(&q.2)), Z::new(q.1, N::from_limbs(&q.0)))).collect()).collect();
            let id: MM = (0..n).map(|i| (0..n).map(|j| if i == j { Q::one() } else { Q::zero() }).collect()).collect();
            if prod(a, &iv) != id || prod(&iv, a) != id { cx.fail("inverse.value", || format!("inverse({}) = {iv:?} is not an inverse", ar())); }
            else if rwm(&iv) != raw { cx.fail("inverse.canonical", || format!("inverse({}) holds non-canonical entries", ar())); }
            cx.eq("m * inverse", ar, || m.mul(&i).map(|x| x == Matrix::identity(n)), &Ok(true));
        } }
    }
    cx.check("operand", back(&m, n, n) == rwm(a), || format!("operand changed {}", ar()));
}
fn entries(k: u64, base: &[Q], cells: usize) -> Vec<Q> { let mut x = k; (0..cells).map(|_| { let q = base[(x % base.len() as u64) as usize].clone(); x /= base.len() as u64; q }).collect() }
fn grid(v: Vec<Q>, cols: usize) -> MM { v.chunks(cols).map(|c| c.to_vec()).collect() }
/// the k-th patterned n x m matrix
fn patterned(n: usize, m: usize, k: u32) -> MM {
    (0..n).map(|i| (0..m).map(|j| { let (i, j) = (i as i128, j as i128); match k {
        0 => Q::frac(1, i + j + 1), 1 => Q::from_i128((i + 1).pow(j as u32 % 20)), 2 => if i == j { Q::from_i128(i + 2) } else { Q::zero() }, 3 => if i <= j { Q::frac(i + 1, j + 1) } else { Q::zero() }, 4 => if i >= j { Q::frac(j - 3, i + 2) } else { Q::zero() },
        5 => Q::from_i128(i * m as i128 + j), 6 => Q::from_i128(if (i + 1) % m as i128 == j { 1 } else { 0 }), 7 => Q::from_i128(if i + j == n as i128 - 1 { -1 } else { 0 }), 8 => Q::from_i128(if i == j { 0 } else { 1 }), 9 => Q::frac(mixlimb((i * 31 + j) as usize) as i128 - (1 << 31), 1 + (mixlimb((i + j * 17) as usize) % 1000) as i128),
        10 => Q::from_i128((i - j) * (1i128 << 70) + i * j + 1), 11 => Q::frac(if (i * 3 + j * 5) % 7 < 3 { i - 2 * j } else { 0 }, 3 + i), 12 => Q::from_i128(-(i + 1) * (j + 2)), 13 => Q::frac((mixlimb((i * 7 + j * 13 + 5) as usize) % 19) as i128 - 9, 1), 14 => Q::from_i128(if i == j { i - 2 } else if i == j + 1 { 3 } else { 0 }), _ => Q::frac((mixlimb((i * 11 + j * 29 + 7 * k as i128) as usize) % 9) as i128 - 4, 1 + ((i + j) % 3)) } }).collect()).collect()
}
/// entries of one to four limbs, integers or fractions, mixed signs
fn bigpat(n: usize, m: usize, k: u32) -> MM {
    (0..n).map(|i| (0..m).map(|j| { let h = mixlimb(i * 97 + j * 13 + k as usize * 1009); let l = 1 + (h % 4) as usize; let neg = h & 64 != 0; let x = long(l, 1 + (h >> 8), if h & 128 != 0 { Fill::Mix } else { Fill::Ones }, h | 1);
        match k % 4 { 0 => Q::from_z(Z::new(neg, x)), 1 => Q::new(Z::new(neg, x), Z::new(false, long(1 + (h % 3) as usize, 1 + (h >> 16), Fill::MixB, h ^ 5))), 2 => if h % 3 == 0 { Q::zero() } else { Q::from_z(Z::new(neg, x)) }, _ => Q::new(Z::new(neg, N::from_u128(A24[(h % 24) as usize] as u128)), Z::from_i128([1, 2, 3, 1 << 32, 0xffff_ffff][(h as usize >> 6) % 5])) } }).collect()).collect()
}
fn two(a: &MM, c: &MM, cx: &mut Cx) {
    let (ar_, ac, cr, cc) = (a.len(), a[0].len(), c.len(), c[0].len()); let (x, y) = (im(a), im(c)); let ar = || format!("{a:?} , {c:?}");
    if (ar_, ac) == (cr, cc) {
        let w: MM = (0..ar_).map(|i| (0..ac).map(|j| a[i][j].add(&c[i][j])).collect()).collect();
        cx.eq("add", ar, || x.add(&y).map(|m| back(&m, ar_, ac)), &Ok(rwm(&w)));
        cx.eq("add_mut", ar, || { let mut t = x.clone(); t.add_mut(&y).map(|_| back(&t, ar_, ac)) }, &Ok(rwm(&w)));
        cx.hit("same shape");
    } else {
        cx.eq("add(shape)", ar, || x.add(&y).is_err(), &true);
        cx.eq("add_mut(shape)", ar, || { let mut t = x.clone(); (t.add_mut(&y).is_err(), t == x) }, &(true, true));
        cx.hit("different shape");
    }
    if ac == cr { cx.eq("mul", ar, || x.mul(&y).map(|m| back(&m, ar_, cc)), &Ok(rwm(&prod(a, c)))); cx.eq("mul-shape", ar, || x.mul(&y).map(|m| m == im(&prod(a, c))), &Ok(true)); } else { cx.eq("mul(shape)", ar, || x.mul(&y).is_err(), &true); }
    cx.eq("equality", ar, || x == y, &(a == c));
}
fn one(a: &MM, cx: &mut Cx) {
    let (n, m) = (a.len(), a[0].len()); let x = im(a); let ar = || format!("{a:?}");
    let t = tr(a);
    cx.eq("transpose", ar, || back(&x.transpose(), m, n), &rwm(&t)); cx.eq("transpose-shape", ar, || x.transpose() == im(&t), &true);
    cx.eq("transpose_mut", ar, || { let mut y = x.clone(); y.transpose_mut(); y == im(&t) }, &true);
    for k in [Q::zero(), Q::one(), Q::from_i128(-1), Q::frac(2, 3), Q::frac(-7, 6), Q::from_i128(1i128 << 80)] {
        let w: MM = a.iter().map(|x| x.iter().map(|q| q.mul(&k)).collect()).collect(); let ar = || format!("{a:?}, {k:?}");
        cx.eq("mul_k", ar, || back(&x.mul_k(r(&k)), n, m), &rwm(&w)); cx.eq("mul_k_mut", ar, || { let mut y = x.clone(); y.mul_k_mut(r(&k)); back(&y, n, m) }, &rwm(&w));
    }
    for i in 0..n { for j in 0..m { let mut w = a.clone(); w[i][j] = Q::frac(-19, 4); cx.eq("get_mut", || format!("{a:?} [{i}][{j}]"), || { let mut y = x.clone(); *y.get_mut(i, j) = r(&Q::frac(-19, 4)); back(&y, n, m) }, &rwm(&w)); } }
    cx.eq("is_square", ar, || x.is_square(), &(n == m));
    if n != m { cx.eq("determinant(shape)", ar, || x.determinant().is_err(), &true); cx.eq("inverse(shape)", ar, || x.inverse().is_err(), &true); }
    cx.eq("generate", ar, || Matrix::generate(m, n, |i, j| r(&a[i][j])) == x, &true);
    let s = format!("[{}]", a.iter().map(|row| format!("[{}]", row.iter().map(|q| if q.is_int() { format!("{}{}", if q.n.neg { "-" } else { "" }, q.n.m.to_radix(10)) } else { format!("{}{}/{}", if q.n.neg { "-" } else { "" }, q.n.m.to_radix(10), q.d.to_radix(10)) }).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "));
    cx.eq("to_ratio_string", ar, || x.to_ratio_string(), &s);
    let (z, e) = (vec![vec![Q::zero(); m]; n], n);
    cx.eq("zeros", ar, || back(&Matrix::zeros(m, n), n, m), &rwm(&z));
    cx.eq("identity", ar, || back(&Matrix::identity(e), e, e), &rwm(&(0..e).map(|i| (0..e).map(|j| if i == j { Q::one() } else { Q::zero() }).collect()).collect()));
    // ragged rows are refused
    if n > 1 { for i in 0..n { for d in [0usize, m - 1, m + 1] { if d == m { continue; } let mut g: Vec<Vec<Ratio>> = a.iter().map(|x| x.iter().map(r).collect()).collect(); g[i].resize(d, Ratio::one()); cx.eq("from_vec(ragged)", ar, || Matrix::from_vec(g.clone()).is_err(), &true); } } }
}
pub fn c20(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let b5: Vec<Q> = vec![Q::zero(), Q::one(), Q::from_i128(-1), Q::from_i128(2), Q::frac(1, 2)];
    let b7: Vec<Q> = [b5.clone(), vec![Q::frac(-2, 3), Q::from_i128(3)]].concat();
    let b3: Vec<Q> = b5[..3].to_vec(); let b2: Vec<Q> = b5[..2].to_vec();
    s.push(Suite::list("1x1", "every entry p/q with small p, q and critical limbs", { let mut v = super::order::fracs(30, 20); v.extend(super::order::crit_q(A3, 2, 2)); v }, |q, cx| { square(&vec![vec![q.clone()]], cx); one(&vec![vec![q]], cx); }));
    let bb = if th { super::order::fracs(5, 3) } else { b7.clone() }; let n = (bb.len() as u64).pow(4);
    s.push(Suite::new("2x2", "every 2x2 matrix over 7 (thorough 27) entry values", n, move |k| grid(entries(k, &bb, 4), 2), |a, cx| square(&a, cx)));
    let bb = if th { b5.clone() } else { b3.clone() }; let n = (bb.len() as u64).pow(9);
    s.push(Suite::new("3x3", "every 3x3 matrix over {0, 1, -1} (thorough {0, 1, -1, 2, 1/2})", n, move |k| grid(entries(k, &bb, 9), 3), |a, cx| square(&a, cx)));
    let bb = if th { b3.clone() } else { b2.clone() }; let n = if th { 3u64.pow(16) / 9 } else { 1 << 16 };
    s.push(Suite::new("4x4", "every 4x4 matrix over {0, 1} (thorough: over {0, 1, -1} with the last two entries 0)", n, move |k| grid(entries(k, &bb, 16), 4), |a, cx| square(&a, cx)));
    // 4x4 and larger: all single- and double-entry changes of base matrices, all signed permutation matrices
    for d in 4..=(if th { 7usize } else { 6 }) {
        let perms: u64 = (1..=d as u64).product();
        s.push(Suite::new(&format!("{d}x{d}-permutations"), "every permutation matrix with distinct weights: isolates each signed product of the determinant", perms, move |k| { let mut left: Vec<usize> = (0..d).collect(); let mut x = k; let mut m = vec![vec![Q::zero(); d]; d]; for i in 0..d { let f = left.len() as u64; let j = left.remove((x % f) as usize); x /= f; m[i][j] = Q::from_i128([2, 3, 5, 7, 11, 13, 17][i]); } m }, |a, cx| square(&a, cx)));
        let pats: Vec<u32> = (0..if d >= 6 { 16 } else { 40 }).collect();
        s.push(Suite::list(&format!("{d}x{d}-patterned"), "patterned rational matrices (Hilbert, Vandermonde, triangular, cyclic, mixed, singular)", pats, move |k, cx| { let a = patterned(d, d, k); square(&a, cx); }));
        let cells = (d * d) as u64;
        if d <= 5 { s.push(Suite::new(&format!("{d}x{d}-single-entry"), "identity, triangular and mixed matrices with each single entry changed", cells * 6 * 3, move |k| { let b = [2u32, 3, 13, 8, 6, 9][(k / 3 % 6) as usize]; let mut m = patterned(d, d, b); let c = (k / 18) as usize; m[c / d][c % d] = [Q::from_i128(5), Q::frac(-3, 7), Q::zero()][(k % 3) as usize].clone(); m }, |a, cx| square(&a, cx))); }
    }
    s.push(Suite::list("rational-patterns", "patterned rational matrices of every size to 4x4, each also with two rows exchanged (both signs of the determinant)", (1..=4usize).flat_map(|d| (0..(if th { 800u32 } else { 250 })).map(move |k| (d, k))).collect::<Vec<_>>(), |(d, k), cx| { let mut a = patterned(d, d, k); square(&a, cx); a.swap(0, d - 1); square(&a, cx); }));
    s.push(Suite::list("big-entries", "matrices of every size to 5x5 with multi-limb integers and fractions of both signs, each also with two rows exchanged", (1..=5usize).flat_map(|d| (0..(if th { 120u32 } else if d == 5 { 8 } else { 40 })).map(move |k| (d, k))).collect::<Vec<_>>(), |(d, k), cx| { let mut a = bigpat(d, d, k); square(&a, cx); a.swap(0, d - 1); square(&a, cx); }));
    s.push(Suite::list("7x7", "7x7 matrices, patterned, every sign pattern class", vec![2u32, 3, 4, 6, 8, 13, 14, 15, 16, 17], |k, cx| square(&patterned(7, 7, k), cx)));
    s.push(Suite::list("determinant-large", "determinants of patterned 7x7 and 8x8 matrices, and of each with one row scaled", [7usize, 8].into_iter().flat_map(|d| [3u32, 4, 13, 14, 15, 16, 18, 19].into_iter().map(move |k| (d, k))).collect::<Vec<_>>(), |(d, k), cx| { for row in 0..d { let mut a = patterned(d, d, k); if row > 0 { for q in a[row].iter_mut() { *q = q.mul(&Q::frac(-5, 3)); } } let w = det(&a); let m = im(&a); cx.eq("determinant", || format!("{a:?}"), || m.determinant().map(|x| x.rw()), &Ok(w.rw())); if d == 8 && row > 1 { break; } } }));
    if th { for d in [8usize] { s.push(Suite::list("8x8-patterned", "patterned 8x8 matrices", vec![2u32, 3, 5, 6, 8, 13, 14], move |k, cx| square(&patterned(d, d, k), cx))); } }
    let low = if th { 4usize } else { 2 };
    s.push(Suite::new("5x5-zero-patterns", "5x5 matrices whose first two rows (or columns) are every combination of zero and non-zero entries over 2 (4) dense or sparse rests", (1 << 10) * 2 * low as u64, move |k| { let z = k & 1023; let t = k >> 10 & 1; let b = [13u32, 15, 8, 14][(k >> 11) as usize]; let mut m = patterned(5, 5, b); for c in 0..10usize { let v = if z >> c & 1 == 1 { Q::from_i128([2, -3, 5, 7, -11, 13, 17, -19, 23, 29][c]) } else { Q::zero() }; if t == 0 { m[c / 5][c % 5] = v } else { m[c % 5][c / 5] = v } } m }, |a, cx| square(&a, cx)));
    let mut shapes = vec![]; for a in 1..=4usize { for c in 1..=4usize { for k in [0u32, 5, 9, 11, 13] { shapes.push((a, c, k)); } } }
    s.push(Suite::pairs("binary", "sum, product and equality of every pair of shapes up to 4x4 over patterned entries", shapes.clone(), shapes.clone(), |x, y, cx| two(&patterned(x.0, x.1, x.2), &patterned(y.0, y.1, y.2), cx)));
    let mut un = vec![]; for a in 1..=6usize { for c in 1..=6usize { for k in 0..16u32 { un.push((a, c, k)); } } }
    s.push(Suite::list("unary", "transpose, scaling, shape errors, construction and printing for every shape up to 6x6", un, |(a, c, k), cx| one(&patterned(a, c, k), cx)));
    let mut wide = vec![]; for (a, c) in [(1usize, 7usize), (1, 9), (1, 20), (7, 1), (9, 1), (20, 1), (2, 9), (9, 2), (3, 12), (12, 3), (7, 8), (8, 7), (9, 9), (10, 11), (12, 12), (17, 5), (5, 17), (33, 2), (2, 33)] { for k in [5u32, 9, 11] { wide.push((a, c, k)); } }
    s.push(Suite::list("unary-wide", "the same for long and wide shapes up to 33x2 and 12x12", wide.clone(), |(a, c, k), cx| one(&patterned(a, c, k), cx)));
    s.push(Suite::pairs("binary-wide", "sum, product and equality of every pair of those shapes", wide.clone(), wide, |x, y, cx| two(&patterned(x.0, x.1, x.2), &patterned(y.0, y.1, y.2), cx)));
    s.push(Suite::list("empty", "empty matrices", vec![0], |_, cx| { let e = Matrix::empty(); cx.eq("determinant(empty)", || String::new(), || e.determinant().is_err(), &true); cx.eq("inverse(empty)", || String::new(), || e.inverse().is_err(), &true); cx.eq("from_vec(empty)", || String::new(), || Matrix::from_vec(vec![]).ok() == Some(Matrix::empty()), &true); cx.eq("add(empty)", || String::new(), || e.add(&Matrix::empty()).is_ok(), &true); }));
    // 2x2 products: all pairs
    let n2 = (b3.len() as u64).pow(4); let m2: Vec<MM> = (0..n2).map(|k| grid(entries(k, &b3, 4), 2)).collect();
    s.push(Suite::pairs("2x2-pairs", "every pair of 2x2 matrices over {0, 1, -1}", m2.clone(), m2, two));
    s
}

// ---- polynomials ----
fn strip(c: &[Q]) -> Vec<Q> { let k = c.iter().position(|x| !x.is_zero()).unwrap_or(c.len()); if k == c.len() { vec![Q::zero()] } else { c[k..].to_vec() } }
fn pv(p: &Polynomial) -> Vec<RR> { p.to_vec().iter().map(|x| x.rw()).collect() }
fn rv(c: &[Q]) -> Vec<RR> { c.iter().map(|q| q.rw()).collect() }
fn eval(c: &[Q], x: &Q) -> Q { let n = c.len(); (0..n).fold(Q::zero(), |s, i| s.add(&c[i].mul(&x.pow((n - 1 - i) as i32)))) }
fn deriv(c: &[Q]) -> Vec<Q> { let n = c.len(); strip(&(0..n.saturating_sub(1)).map(|i| c[i].mul(&Q::from_i128((n - 1 - i) as i128))).collect::<Vec<_>>()) }
fn mkp(c: &[Q]) -> Polynomial { Polynomial::from_vec(c.iter().map(r).collect()) }
fn xs() -> Vec<Q> { vec![Q::zero(), Q::one(), Q::from_i128(-1), Q::from_i128(3), Q::frac(1, 2), Q::frac(-5, 3), Q::from_i128(1i128 << 40)] }
fn text(c: &[Q]) -> String { text_with(c, &|q: &Q| if q.is_int() { q.n.m.to_radix(10) } else { format!("{}/{}", q.n.m.to_radix(10), q.d.to_radix(10)) }) }
fn text_with(c: &[Q], rs: &dyn Fn(&Q) -> String) -> String {
    let n = c.len(); let mut s = String::new();
    for i in 0..n { let e = n - 1 - i; if c[i].is_zero() { continue; } if s.is_empty() { if c[i].n.neg { s.push('-'); } } else { s.push_str(if c[i].n.neg { " - " } else { " + " }); }
        let a = c[i].abs(); let one = a == Q::one(); let var = match e { 0 => String::new(), 1 => "x".into(), _ => format!("x^{e}") };
        if e == 0 { s.push_str(&rs(&a)); } else if one { s.push_str(&var); } else { s.push_str(&format!("{} * {var}", rs(&a))); } }
    if s.is_empty() { "0".into() } else { s }
}
fn poly(c: &[Q], cx: &mut Cx) { poly_at(c, &xs(), cx) }
fn poly_at(c: &[Q], xs: &[Q], cx: &mut Cx) {
    let ar = || format!("{c:?}"); let w = strip(c); let p = mkp(c);
    if w.len() < c.len() { cx.hit("leading zeros dropped"); }
    cx.eq("from_vec", ar, || pv(&p), &rv(&w));
    cx.eq("from_vec_generic", ar, || pv(&Polynomial::from_vec_generic(c.iter().map(r).collect::<Vec<Ratio>>())), &rv(&w));
    for x in xs { let x = x.clone(); cx.eq("calc", || format!("{c:?} at {x:?}"), || p.calc(&r(&x)).rw(), &eval(&w, &x).rw()); }
    let d = deriv(&w);
    cx.eq("differentiate", ar, || pv(&p.differentiate()), &rv(&d));
    cx.eq("differentiate_mut", ar, || { let mut q = p.clone(); q.differentiate_mut(); pv(&q) }, &rv(&d));
    for k in [Q::zero(), Q::one(), Q::from_i128(-2), Q::frac(3, 5), Q::frac(-2, 7)] { let m = strip(&w.iter().map(|q| q.mul(&k)).collect::<Vec<_>>()); let ar = || format!("{c:?} * {k:?}");
        cx.eq("mul_k", ar, || pv(&p.mul_k(r(&k))), &rv(&m)); cx.eq("mul_k_mut", ar, || { let mut q = p.clone(); q.mul_k_mut(r(&k)); pv(&q) }, &rv(&m)); }
    cx.eq("to_ratio_string", ar, || p.to_ratio_string(), &text(&w));
    for l in [6usize, 12] { cx.eq("to_approx_string", ar, || p.to_approx_string(l), &text_with(&w, &|q| r(q).to_approx_string(l))); }
    for x in [Q::from_i128(2), Q::frac(-1, 3)] { let s = eval(&d, &x); let ar = || format!("{c:?} at {x:?}");
        if s.is_zero() { cx.refuses("newton_method", ar, || p.newton_method(&r(&x), &None)); } else { let n = x.sub(&eval(&w, &x).div(&s)).rw(); cx.eq("newton_method", ar, || (p.newton_method(&r(&x), &None).rw(), p.newton_method(&r(&x), &Some(p.differentiate())).rw()), &(n.clone(), n)); } }
    cx.eq("operand", ar, || pv(&p), &rv(&w));
}
fn fit(pts: &[(Q, Q)], cx: &mut Cx) {
    let ar = || format!("{pts:?}"); let n = pts.len();
    let dup = (0..n).any(|i| (0..i).any(|j| pts[i].0 == pts[j].0));
    let v: Vec<(Ratio, Ratio)> = pts.iter().map(|(x, y)| (r(x), r(y))).collect();
    if let Some(res) = cx.op("from_points", ar, || from_points(v.clone())) {
        if dup { cx.hit("equal abscissae"); if res.is_ok() { cx.fail("from_points.accepted", || format!("from_points({}) accepted equal abscissae", ar())); } }
        else { match res { Err(e) => cx.fail("from_points.error", || format!("from_points({}) = {e:?}", ar())), Ok(p) => {
            let c: Vec<Q> = p.to_vec().iter().map(mq).collect(); cx.hit("fitted");
            if c.len() > n || strip(&c) != c || pv(&p) != rv(&c) { cx.fail("from_points.form", || format!("from_points({}) = {c:?}", ar())); }
            for (x, y) in pts { cx.eq("from_points.calc", || format!("{} at {x:?}", ar()), || p.calc(&r(x)).rw(), &y.rw()); if eval(&c, x) != *y { cx.fail("from_points.value", || format!("from_points({}) = {c:?} misses {x:?}", ar())); } } } } }
        cx.eq("from_points_generic", ar, || from_points_generic(v.clone()).map(|p| pv(&p)).ok(), &from_points(v.clone()).map(|p| pv(&p)).ok());
    }
}
fn linear(a: &Q, c: &Q, v1: &Q, v2: &Q, cx: &mut Cx) {
    let ar = || format!("{a:?}, {c:?}, {v1:?}, {v2:?}");
    if let Some(p) = cx.op("linear_2_points", ar, || linear_2_points(&r(a), &r(c), &r(v1), &r(v2))) { let k: Vec<Q> = p.to_vec().iter().map(mq).collect();
        let ok = strip(&k) == k && k.len() <= 2 && eval(&k, a) == *v1 && if a == c { k.len() == 1 } else { eval(&k, c) == *v2 };
        if !ok { cx.fail("linear_2_points.value", || format!("linear_2_points({}) = {k:?}", ar())); } }
}
fn quad(a: [&Q; 3], v: [&Q; 3], cx: &mut Cx) {
    let ar = || format!("{a:?} -> {v:?}");
    if let Some(p) = cx.op("quadratic_3_points", ar, || quadratic_3_points(&r(a[0]), &r(a[1]), &r(a[2]), &r(v[0]), &r(v[1]), &r(v[2]))) { let k: Vec<Q> = p.to_vec().iter().map(mq).collect();
        // consistent data must be met entirely; of inconsistent data each abscissa still gets one of its values
        let ok = strip(&k) == k && k.len() <= 3 && (0..3).all(|i| { let g = eval(&k, a[i]); (0..3).any(|j| a[j] == a[i] && g == *v[j]) });
        if a[0] == a[1] || a[1] == a[2] || a[0] == a[2] { cx.hit("equal abscissae"); }
        if !ok { cx.fail("quadratic_3_points.value", || format!("quadratic_3_points({}) = {k:?}", ar())); } }
}
fn cubic(a: &Q, c: &Q, v: [&Q; 4], cx: &mut Cx) {
    let ar = || format!("{a:?}, {c:?} -> {v:?}");
    if let Some(p) = cx.op("cubic_2_points", ar, || cubic_2_points(&r(a), &r(c), &r(v[0]), &r(v[1]), &r(v[2]), &r(v[3]))) { let k: Vec<Q> = p.to_vec().iter().map(mq).collect(); let d = deriv(&k);
        let ok = strip(&k) == k && k.len() <= 4 && eval(&k, a) == *v[0] && eval(&d, a) == *v[2] && (a == c || (eval(&k, c) == *v[1] && eval(&d, c) == *v[3]));
        if !ok { cx.fail("cubic_2_points.value", || format!("cubic_2_points({}) = {k:?}", ar())); } }
}
fn digits(mut k: u64, n: u64, len: usize) -> Vec<usize> { (0..len).map(|_| { let d = (k % n) as usize; k /= n; d }).collect() }
pub fn c21(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let co = vec![Q::zero(), Q::one(), Q::from_i128(-1), Q::from_i128(2), Q::frac(1, 2), Q::frac(-7, 3), Q::from_i128(1i128 << 66)];
    for len in 0..=(if th { 6usize } else { 5 }) { let c = co.clone(); let n = (co.len() as u64).pow(len as u32); s.push(Suite::new(&format!("coefficients-{len}"), "every coefficient vector of this length over 7 values (0, 1, -1, 2, 1/2, -7/3, 2^66)", n, move |k| entries(k, &c, len), |c, cx| poly(&c, cx))); }
    s.push(Suite::list("long", "patterned coefficient vectors to length 14, with leading zeros", (6..=14usize).flat_map(|l| (0..40usize).map(move |k| (l, k))).collect::<Vec<_>>(), |(l, k), cx| { let c: Vec<Q> = (0..l).map(|i| if i < k % 5 || (k % 3 == 0 && i % 2 == 1) { Q::zero() } else { Q::frac((mixlimb(i * 40 + k) % 23) as i128 - 11, 1 + (mixlimb(i + k) % 4) as i128) }).collect(); poly(&c, cx) }));
    s.push(Suite::list("very-long", "patterned coefficient vectors of 20 to 300 (600) coefficients", [20usize, 33, 65, 100, 101, 102, 127, 128, 129, 130, 257, 258, 300].into_iter().chain(if th { vec![256, 400, 511, 513, 600] } else { vec![] }).flat_map(|l| (0..4usize).map(move |k| (l, k))).collect::<Vec<_>>(), |(l, k), cx| { let c: Vec<Q> = (0..l).map(|i| if i > 0 && k == 0 && i % 7 != 3 { Q::zero() } else { Q::frac((mixlimb(i * 40 + k) % 23) as i128 - 11, 1 + (k as i128 % 3)) }).collect(); poly_at(&c, &xs()[..5], cx) }));
    let wide: Vec<Q> = { let mut v = vec![Q::zero(), Q::one()]; for n in [N::from_u128(MAX as u128), N::from_u128(1 << 32), long(3, 1, Fill::Ones, MAX), long(5, MAX, Fill::Mix, 3)] { for d in [N::one(), N::from_u128(3), long(2, 1, Fill::MixB, 5)] { for neg in [false, true] { v.push(Q::new(Z::new(neg, n.clone()), Z::new(false, d.clone()))); } } } dedup_q(v) };
    let (w1, nw) = (wide.clone(), wide.len() as u64);
    s.push(Suite::new("wide-coefficients", "every coefficient vector of length 1 to 3 over 26 one- to five-limb integers and fractions of both signs", nw.pow(3), move |k| entries(k, &w1, 3), |c, cx| poly(&c, cx)));
    let vals = vec![Q::zero(), Q::one(), Q::from_i128(-2), Q::frac(3, 2), Q::from_i128(5), Q::frac(-1, 3)];
    // every tuple of points (repeats included)
    let m = vals.len() as u64;
    for n in 1..=3usize { let v = vals.clone(); s.push(Suite::new(&format!("points-{n}"), "every tuple of points over 6 abscissae and 6 ordinates, repetitions included", m.pow(2 * n as u32), move |k| { let d = digits(k, m, 2 * n); (0..n).map(|i| (v[d[2 * i]].clone(), v[d[2 * i + 1]].clone())).collect::<Vec<_>>() }, |p, cx| fit(&p, cx))); }
    { let v = vals[..4].to_vec(); s.push(Suite::new("points-4", "every 4-tuple of points over 4 abscissae and 3 ordinates", 12u64.pow(4), move |k| { let d = digits(k, 12, 4); d.iter().map(|x| (v[x / 3].clone(), v[x % 3].clone())).collect::<Vec<_>>() }, |p, cx| fit(&p, cx))); }
    s.push(Suite::list("points-more", "5 to 7 (8) points, patterned, with and without one repeated abscissa", (5..=(if th { 8usize } else { 7 })).flat_map(|l| (0..(if th { 60usize } else { 24 })).map(move |k| (l, k))).collect::<Vec<_>>(), |(l, k), cx| { let mut p: Vec<(Q, Q)> = (0..l).map(|i| (Q::frac(i as i128 * (k as i128 % 4 + 1) - 3, 1 + (k as i128 % 3)), Q::frac((mixlimb(i * 9 + k) % 31) as i128 - 15, 1 + (k as i128 % 5)))).collect(); if k % 4 == 3 { let x = p[k % l].0.clone(); p[(k + 1) % l].0 = x; } fit(&p, cx); }));
    s.push(Suite::list("no-points", "the empty point list", vec![0], |_, cx| { cx.op("from_points(empty)", || String::new(), || { let _ = from_points(vec![]); }); }));
    { let v = vals.clone(); let v2 = vals.clone(); s.push(Suite::new("line", "every pair of abscissae and ordinates", m.pow(4), move |k| digits(k, m, 4).iter().map(|i| v[*i].clone()).collect::<Vec<_>>(), |d, cx| linear(&d[0], &d[1], &d[2], &d[3], cx))); let _ = v2; }
    { let v = vals.clone(); s.push(Suite::new("quadratic", "every triple of abscissae and ordinates", m.pow(6), move |k| digits(k, m, 6).iter().map(|i| v[*i].clone()).collect::<Vec<_>>(), |d, cx| quad([&d[0], &d[1], &d[2]], [&d[3], &d[4], &d[5]], cx))); }
    { let v = vals.clone(); s.push(Suite::new("cubic", "every pair of abscissae, values and slopes", m.pow(6), move |k| digits(k, m, 6).iter().map(|i| v[*i].clone()).collect::<Vec<_>>(), |d, cx| cubic(&d[0], &d[1], [&d[2], &d[3], &d[4], &d[5]], cx))); }
    let fl: Vec<Vec<f64>> = vec![vec![0.0], vec![1.5, -2.25], vec![0.0, 0.0, 3.0], vec![1e300, 1e-300, -0.1], vec![f64::MIN_POSITIVE, 0.0, 5e-324]];
    s.push(Suite::list("float-coefficients", "coefficients given as floats come back as the same floats", fl, |v, cx| { let p = Polynomial::from_vec(v.iter().map(|x| Ratio::try_from(*x).unwrap()).collect()); let k = v.iter().position(|x| *x != 0.0).unwrap_or(v.len() - 1); cx.eq("to_vec_f64", || format!("{v:?}"), || p.to_vec_f64(), &v[k..].to_vec()); let f: Vec<f32> = v[k..].iter().map(|x| *x as f32).collect(); if f.iter().all(|x| x.is_finite()) && f.iter().zip(&v[k..]).all(|(a, c)| *a as f64 == *c) { cx.eq("to_vec_f32", || format!("{v:?}"), || p.to_vec_f32(), &f); } }));
    s
}
