//! C01 (ring operations) and C02 (Euclidean division) of unsigned integers.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use hmath::{UBigInt};

fn addsub(a: &N, c: &N, cx: &mut Cx) {
    let (x, y) = (u(a), u(c));
    let ar = || format!("{a}, {c}");
    let s = a.add(c).raw();
    cx.eq("add", ar, || x.add(&y).rw(), &s);
    cx.eq("add_mut", ar, || { let mut z = x.clone(); z.add_mut(&y); z.rw() }, &s);
    let (big, small, bx, sx) = if a.lt(c) { (c, a, &y, &x) } else { (a, c, &x, &y) };
    let d = big.sub(small).raw();
    cx.eq("sub", ar, || bx.sub(sx).rw(), &d);
    cx.eq("sub_mut", ar, || { let mut z = bx.clone(); z.sub_mut(sx); z.rw() }, &d);
    cx.eq("abs_diff", ar, || x.abs_diff(&y).rw(), &d);
    if s.len() > a.0.len().max(c.0.len()) { cx.hit("carry-out"); }
    if d.len() < big.0.len() { cx.hit("top-limb-vanishes"); }
}
fn mulp(a: &N, c: &N, cx: &mut Cx) {
    let (x, y) = (u(a), u(c));
    let ar = || format!("{a}, {c}");
    let p = a.mul(c).raw();
    cx.eq("mul", ar, || x.mul(&y).rw(), &p);
    cx.eq("mul_mut", ar, || { let mut z = x.clone(); z.mul_mut(&y); z.rw() }, &p);
}
fn words_case(a: &N, w: u32, cx: &mut Cx) {
    let x = u(a); let k = N::from_u128(w as u128);
    let ar = || format!("{a}, {w}");
    cx.eq("add_u32", ar, || x.add_u32(w).rw(), &a.add(&k).raw());
    cx.eq("add_u32_mut", ar, || { let mut z = x.clone(); z.add_u32_mut(w); z.rw() }, &a.add(&k).raw());
    cx.eq("mul_u32", ar, || x.mul_u32(w).rw(), &a.mul(&k).raw());
    cx.eq("mul_u32_mut", ar, || { let mut z = x.clone(); z.mul_u32_mut(w); z.rw() }, &a.mul(&k).raw());
    if !a.lt(&k) {
        cx.eq("sub_u32", ar, || x.sub_u32(w).rw(), &a.sub(&k).raw());
        cx.eq("sub_u32_mut", ar, || { let mut z = x.clone(); z.sub_u32_mut(w); z.rw() }, &a.sub(&k).raw());
    }
    let d = if a.lt(&k) { k.sub(a) } else { a.sub(&k) };
    cx.eq("abs_diff_u32", ar, || x.abs_diff_u32(w).rw(), &d.raw());
}
fn pow2_case(a: &N, e: u32, cx: &mut Cx) {
    let x = u(a); let ar = || format!("{a}, 2^{e}"); let want = a.shl(e as u64).raw();
    cx.eq("mul_pow2", ar, || x.mul_pow2(e).rw(), &want);
    cx.eq("mul_pow2_mut", ar, || { let mut z = x.clone(); z.mul_pow2_mut(e); z.rw() }, &want);
}

/// long carry/borrow chains: runs of all-ones / zero limbs at every position
fn chain(len: usize, from: usize, to: usize, inside: u32, outside: u32) -> N { let mut v = vec![outside; len]; for i in from..to { v[i] = inside; } N::from_limbs(&v) }

pub fn c01(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let v = if th { nats(A9, 4) } else { nats(A7, 4) };
    let v = if th { v } else { cat(vec![nats(A7, 3), nats(A5, 4)]) };
    s.push(Suite::pairs("addsub-limbs", "all pairs of naturals over the critical limb alphabet (7 letters to 3 limbs, 5 letters to 4 limbs; thorough 9 letters to 4 limbs)", v.clone(), if th { nats(A7, 3) } else { v }, |a, c, cx| addsub(a, c, cx)));
    let v = if th { cat(vec![nats(A7, 3), nats(A5, 4), nats(A4, 5)]) } else { cat(vec![nats(A7, 3), nats(A4, 4), nats(A3, 5)]) };
    s.push(Suite::pairs("mul-limbs", "all pairs over the critical limb alphabets (7 letters to 3 limbs, 4 to 4, 3 to 5)", v.clone(), v, |a, c, cx| mulp(a, c, cx)));
    let k = if th { 4000 } else { 700 };
    s.push(Suite::pairs("small-table", "all pairs of naturals below the bound", smalls(k), smalls(k), |a, c, cx| { addsub(a, c, cx); mulp(a, c, cx); }));
    // chains
    let lmax = if th { 16 } else { 9 };
    let mut ch = vec![]; for len in 1..=lmax { for f in 0..len { for t in f..=len { for (i, o) in [(MAX, 0), (0, MAX), (MAX, 1), (0, 1), (MAX, H), (MAX - 1, MAX)] { ch.push(chain(len, f, t, i, o)); } } } }
    let ch = dedup(ch);
    s.push(Suite::pairs("addsub-chains", "all pairs of block-structured naturals (one run of limbs inside another) to 9 (16) limbs", ch.clone(), ch, |a, c, cx| addsub(a, c, cx)));
    let w2 = nats(A24, 2);
    s.push(Suite::pairs("letters", "all pairs of naturals of one or two limbs over 24 byte-, half-word- and word-border limbs: sums, differences, products", w2.clone(), w2, |a, c, cx| { addsub(a, c, cx); mulp(a, c, cx); }));
    // a carry or borrow run arriving at every pair of critical limbs, at every position of operands of many lengths
    let mut pos = vec![]; for l in if th { (2..=16usize).chain([20, 32, 33, 64, 65, 66, 70, 100, 128, 129, 130, 200, 257]).collect::<Vec<_>>() } else { (2..=9usize).chain([20, 33, 65, 70, 130]).collect() } { for p in 1..l { pos.push((l, p)); } }
    let na = A24.len() as u64;
    s.push(Suite::new("carry-into-letters", "a carry (borrow) run from limb 0 into limb p, every p below l, l in 2..=9 and to 130 (257) limbs, where the two operands hold every pair of 24 letters; then a run of ones (zeros) or mixed limbs above", pos.len() as u64 * na * na,
        move |i| { let (l, p) = pos[(i / na / na) as usize]; (l, p, A24[(i % na) as usize], A24[(i / na % na) as usize]) },
        |(l, p, x, y), cx| {
            for hi in [Fill::Ones, Fill::Mix] {
                let mut a: Vec<u32> = (0..l).map(|i| if i < p { MAX } else { fill(hi, i) }).collect(); a[p] = x; if a[l - 1] == 0 { a[l - 1] = 1; }
                let mut c = vec![0u32; p + 1]; c[0] = 1; c[p] = y;
                addsub(&N::from_limbs(&a), &N::from_limbs(&c), cx);
                for v in a[..p].iter_mut() { *v = 0; } if let Fill::Ones = hi { for v in a[p + 1..].iter_mut() { *v = 0; } a[l - 1] = a[l - 1].max(1); }
                addsub(&N::from_limbs(&a), &N::from_limbs(&c), cx);
            }
        }));
    s.push(Suite::list("mul-letters-long", "mixed and all-ones operands of 2..=12 and 66, 131 limbs with each of 24 letters at each position, times mixed, all-ones and single-limb factors", spotted(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 66, 131], F3, A24), |a, cx| {
        let l = a.0.len(); for c in [long(l.max(1), MAX, Fill::Ones, MAX), long(3, 1, Fill::Mix, 0), long(l.max(1), 0x1234_5679, Fill::MixB, H)] { mulp(&a, &c, cx); mulp(&c, &a, cx); }
        for w in [2u32, 3, 10, 0xffff, 0x10000, H, MAX - 1, MAX] { words_case(&a, w, cx); }
        for e in [1u32, 2, 15, 16, 30, 31, 32, 33, 63, 64, 65] { pow2_case(&a, e, cx); }
    }));
    // Karatsuba region: every pair of lengths
    let lm: usize = if th { 330 } else { 200 };
    let pats: Vec<(u32, Fill, u32, u32, Fill, u32)> = vec![(MAX, Fill::Ones, MAX, MAX, Fill::Ones, MAX), (0x9e37_79b9, Fill::Mix, 0x1234_5677, 0xdead_beef, Fill::MixB, 0x8765_4321), (1, Fill::Zero, 1, MAX, Fill::Ones, MAX), (1, Fill::Mix, 0, MAX, Fill::Alt, 1)];
    let np = pats.len() as u64; let p2 = pats.clone();
    s.push(Suite::new("mul-all-lengths", "every pair of lengths 1..200 (330) limbs x 4 fill patterns", (lm * lm) as u64 * np,
        move |i| { let (t, fi, lo, t2, f2, lo2) = p2[(i % np) as usize]; let j = i / np; let (l1, l2) = ((j / lm as u64) as usize + 1, (j % lm as u64) as usize + 1); (long(l1, t, fi, lo), long(l2, t2, f2, lo2)) },
        |(a, c), cx| { mulp(&a, &c, cx); if a.0.len() > 64 && c.0.len() > 64 { cx.hit("both-over-64"); } }));
    // around the switch: lengths 60..70 and 126..134 with all block-zero structures (halves that vanish or are all ones)
    let lens: Vec<usize> = if th { vec![63, 64, 65, 66, 67, 96, 127, 128, 129, 130, 131, 132, 133, 140, 192, 256, 257, 258, 259, 260, 265, 300, 400, 515, 520] } else { vec![63, 64, 65, 66, 67, 80, 129, 130, 131, 140, 192, 257, 260] };
    let mut blk = vec![]; for &l in &lens { for m in 0..16u32 { let mut vv: Vec<u32> = (0..l).map(|i| { let q = (i * 4 / l) as u32; if (m >> q) & 1 == 1 { MAX } else { 0 } }).collect(); vv[l - 1] |= 1; blk.push(N::from_limbs(&vv)); let mut vm: Vec<u32> = (0..l).map(|i| { let q = (i * 4 / l) as u32; if (m >> q) & 1 == 1 { mixlimb(i) } else { 0 } }).collect(); vm[l - 1] |= 1; blk.push(N::from_limbs(&vm)); } }
    let blk = dedup(blk);
    s.push(Suite::pairs("mul-blocks", "all pairs of long naturals whose quarters are zero, all-ones or mixed, at lengths around the recursion thresholds", blk.clone(), blk.clone(), |a, c, cx| mulp(a, c, cx)));
    s.push(Suite::pairs("addsub-long", "same long naturals: sums and differences", blk.clone(), blk, |a, c, cx| addsub(a, c, cx)));
    let v = cat(vec![nats(A7, 3), nats(A4, 4), smalls(70), longs(&[5, 6, 8, 33, 65], &[1, MAX], FILLS, &[0, 1, MAX])]);
    s.push(Suite::pairs("word-operands", "critical naturals x critical machine words", v.clone(), words(), |a, w, cx| words_case(a, *w, cx)));
    let sq = if th { cat(vec![nats(A9, 3), smalls(1 << 20)]) } else { cat(vec![nats(A9, 3), smalls(1 << 16)]) };
    s.push(Suite::list("square-and-double", "aliasing: x*x, x+x, x-x for all small and critical naturals", sq, |a, cx| { addsub(&a, &a, cx); mulp(&a, &a, cx); }));
    let v = cat(vec![nats(A7, 2), nats(A4, 3), smalls(40), longs(&[5, 17], &[1, MAX], FILLS, &[0, 1, MAX])]);
    s.push(Suite::pairs("mul-pow2", "critical naturals x every shift 0..=300 (1100)", v, (0..=(if th { 1100u32 } else { 300 })).collect(), |a, e, cx| pow2_case(a, *e, cx)));
    // sizes far beyond every threshold of the implementation
    let lens: &[usize] = if th { &[257, 320, 400, 511, 512, 513, 700, 1000, 1024, 1025, 1500, 2048, 2049, 3000, 4097] } else { &[257, 400, 512, 513, 700, 1024, 1025, 2049] };
    let big = longs(lens, &[1, MAX], &[Fill::Ones, Fill::Mix, Fill::Zero, Fill::Alt], &[MAX]);
    s.push(Suite::pairs("huge", "all pairs of patterned naturals of 257 to 2049 (4097) limbs: sums, differences, products", big.clone(), big.clone(), |a, c, cx| { addsub(a, c, cx); if a.0.len() + c.0.len() < 2100 || a.0.len() == c.0.len() { mulp(a, c, cx); } }));
    s.push(Suite::pairs("words-all-lengths", "patterned naturals of every length 1..=150 (300) limbs by words and shifts", longs(&(1..=(if th { 300 } else { 150 })).collect::<Vec<usize>>(), &[1, H, MAX, 0x5555_5556], &[Fill::Ones, Fill::Zero, Fill::Mix], &[0, MAX]), vec![1, 2, 3, 10, 31, 0xffff, 0x10000, H, MAX], |a, w, cx| { words_case(a, *w, cx); pow2_case(a, *w % 97, cx); }));
    s.push(Suite::pairs("huge-words", "the same by critical words and shifts", big, vec![0, 1, 31, 32, 65_536, H, MAX], |a, w, cx| { words_case(a, *w, cx); pow2_case(a, *w % 9973, cx); }));
    // sums and products of sequences
    let al = cat(vec![nats(&[0, 1, MAX], 2), vec![N::from_u128(10)]]); let k = al.len() as u64; let depth = if th { 5u32 } else { 4 };
    let total: u64 = (0..=depth).map(|d| k.pow(d)).sum();
    s.push(Suite::new("sum-product", "all sequences up to length 4 (5) over a critical alphabet", total,
        move |mut i| { let mut d = 0; while i >= k.pow(d) { i -= k.pow(d); d += 1; } let mut o = vec![]; for _ in 0..d { o.push(al[(i % k) as usize].clone()); i /= k; } o },
        |v: Vec<N>, cx| {
            let us: Vec<UBigInt> = v.iter().map(u).collect(); let ar = || format!("{v:?}");
            cx.eq("sum", ar, || us.iter().cloned().sum::<UBigInt>().rw(), &v.iter().fold(N::zero(), |a, x| a.add(x)).raw());
            cx.eq("product", ar, || us.iter().cloned().product::<UBigInt>().rw(), &v.iter().fold(N::one(), |a, x| a.mul(x)).raw());
        }));
    s.push(Suite::list("difference-lengths", "naturals of every length to 100 limbs against themselves, neighbours, one limb changed and other lengths, both orders", every(100), |n, cx| { let l = n.0.len().max(1); let mut o = vec![n.clone(), n.add_small(1), n.shl(32), n.shr(32), long(l, 1, Fill::Zero, 0)]; for i in [0, 1, l / 2, l - 1] { if i < n.0.len() { let mut v = n.clone(); v.0[i] ^= 2; o.push(N::from_limbs(&v.0)); } } for m in dedup(o) { addsub(&n, &m, cx); addsub(&m, &n, cx); } }));
    s
}

fn divp(n: &N, d: &N, cx: &mut Cx) {
    let (x, y) = (u(n), u(d)); let ar = || format!("{n}, {d}");
    let (q, r) = n.divrem(d);
    cx.eq("div", ar, || x.div(&y).rw(), &q.raw());
    cx.eq("rem", ar, || x.rem(&y).rw(), &r.raw());
    if !r.is_zero() && r.add_small(1) == *d { cx.hit("remainder=d-1"); }
    if r.is_zero() { cx.hit("exact"); }
}
fn divm(n: &N, d: &N, cx: &mut Cx) {
    let (x, y) = (u(n), u(d)); let ar = || format!("{n}, {d}");
    let (q, r) = n.divrem(d);
    cx.eq("div_mut", ar, || { let mut z = x.clone(); z.div_mut(&y); z.rw() }, &q.raw());
    cx.eq("rem_mut", ar, || { let mut z = x.clone(); z.rem_mut(&y); z.rw() }, &r.raw());
}

pub fn c02(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let nz = |v: Vec<N>| v.into_iter().filter(|x| !x.is_zero()).collect::<Vec<_>>();
    let k = if th { 3000 } else { 600 };
    s.push(Suite::pairs("small-table", "all pairs n, d below the bound", smalls(k), nz(smalls(k)), |a, d, cx| { divp(a, d, cx); divm(a, d, cx); }));
    let n = if th { cat(vec![nats(A7, 4), nats(A5, 5), nats(A4, 6)]) } else { cat(vec![nats(A7, 3), nats(A5, 4), nats(A4, 5)]) };
    let d = if th { nz(cat(vec![nats(A7, 3), nats(A4, 4)])) } else { nz(cat(vec![nats(A7, 2), nats(A5, 3), nats(A3, 4)])) };
    s.push(Suite::pairs("limb-pairs", "all (n, d) over critical limb alphabets; n to 5 (6) limbs, d to 4 limbs", n, d, |a, d, cx| divp(a, d, cx)));
    let w2 = nats(A24, 2);
    s.push(Suite::pairs("letters", "all pairs of one- and two-limb naturals over 24 border letters: division, and the products +{0, d-1} back", w2.clone(), nz(w2), |a, d, cx| { divp(a, d, cx); divm(a, d, cx); let p = a.mul(d); divp(&p, d, cx); divp(&p.add(d).sub(&N::one()), d, cx); }));
    s.push(Suite::pairs("letters-quotients", "n = q*d + r, r in {0, d-1}: q mixed, all-ones or zero of 2..=10 and 45, 70 limbs with each of 24 letters at each position, d critical of 1 to 5 and 40 limbs", spotted(if th { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 45, 70] } else { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 45, 70] }, F3, A24),
        [vec![3u32], vec![10], vec![MAX], vec![H], vec![0x10000], vec![0, 1], vec![MAX, MAX], vec![1, H], vec![7, 0xffff], vec![0, 0, 1], vec![MAX; 3], vec![5, H - 1, 0x9e37_79b9], vec![0, MAX, 0, 1], vec![MAX; 5], vec![1, 0, 0, 0, H]].into_iter().map(|v| N::from_limbs(&v)).chain([long(40, 1, Fill::Ones, MAX), long(40, MAX, Fill::MixB, 3)]).collect(), |q, d, cx| { let p = q.mul(d); divp(&p, d, cx); divp(&p.add(d).sub(&N::one()), d, cx); divp(q, d, cx); }));
    // constructed dividends: n = q*d + r with extreme r
    let d = nz(if th { cat(vec![nats(A7, 2), nats(A5, 3), nats(A4, 4), nats(A3, 5)]) } else { cat(vec![nats(A5, 2), nats(A4, 3), nats(A3, 5)]) });
    let q = if th { cat(vec![nats(A5, 3), nats(A3, 5)]) } else { cat(vec![nats(A5, 2), nats(A4, 3), nats(A3, 4)]) };
    s.push(Suite::pairs("constructed", "n = q*d + r for critical q, d and r in {0, 1, d-1}: quotient estimates off by one", q, d, |q, d, cx| {
        let p = q.mul(d); let m1 = d.sub(&N::one());
        let mut rs = vec![N::zero(), m1.clone()]; if N::one().lt(d) { rs.push(N::one()); }
        rs.dedup();
        for r in rs { let n = p.add(&r); divp(&n, d, cx); }
    }));
    let lens: Vec<usize> = if th { (5..=24).chain([32, 33, 40, 63, 64, 65, 66, 100, 129, 130, 150]).collect() } else { (5..=14).chain([33, 65, 66, 130]).collect() };
    let dl: Vec<usize> = if th { (1..=16).chain([20, 32, 33, 64, 65, 70, 128]).collect() } else { (1..=9).chain([16, 33, 64, 65]).collect() };
    let n = longs(&lens, &[1, H, MAX], &[Fill::Zero, Fill::Ones, Fill::Mix, Fill::Alt], &[0, 1, MAX]);
    let d = nz(longs(&dl, &[1, H, MAX, H - 1, 0x9e37_79b9], &[Fill::Zero, Fill::Ones, Fill::MixB, Fill::Alt], &[0, 1, MAX]));
    s.push(Suite::pairs("long-pairs", "all pairs of long patterned dividends and divisors", n.clone(), d.clone(), |a, d, cx| divp(a, d, cx)));
    s.push(Suite::pairs("long-constructed", "n = q*d + r, long patterned q and d, r in {0, d-1}", longs(if th { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33, 40, 45, 65, 70, 129] } else { &[1, 2, 3, 4, 5, 6, 9, 17, 40, 45, 70] }, &[1, MAX, H], &[Fill::Ones, Fill::Mix, Fill::Zero], &[0, MAX]), d, |q, d, cx| {
        let p = q.mul(d); divp(&p, d, cx); divp(&p.add(d).sub(&N::one()), d, cx);
    }));
    // the quotient guess interpolates on the top byte of the divisor's third limb: every class of it, at both ends of the class
    let tops: &[u32] = if th { &[1, 2, 3, 0x40, 0xffff, 0x10000, H - 1, H, MAX] } else { &[1, 3, 0x40, 0xffff, H, MAX] };
    let secs: &[u32] = if th { &[0, 1, H, 0x5667_1235, MAX - 1, MAX] } else { &[0, 0x5667_1235, MAX] };
    let mut d = vec![]; for &t1 in tops { for &t2 in secs { for c in 0..256u32 { for lo in [0u32, 1, 0xff_fffe, 0xff_ffff] { if !th && lo == 0xff_fffe { continue; } for tail in if th { vec![vec![], vec![0], vec![MAX], vec![7, MAX, 0], vec![0, 0], vec![0, MAX], vec![1, 2, MAX]] } else { vec![vec![], vec![MAX, 0], vec![MAX], vec![0, MAX]] } { let mut v: Vec<u32> = tail; v.push((c << 24) | lo); v.push(t2); v.push(t1); d.push(N::from_limbs(&v)); } } } } }
    let q: Vec<N> = [vec![0u32, 0, 0, 1], vec![MAX, MAX, MAX], vec![1, 0, MAX, H], vec![MAX; 5], vec![3, 0, 0, 0, 0, 1], vec![0x9e37_79b9, 7, H, 1, MAX - 1]].into_iter().map(|v| N::from_limbs(&v)).collect();
    s.push(Suite::pairs("divisor-classes", "divisors over every class of the third limb's top byte x critical tops; n = q*d + r, r in {0, d-1}: overshooting quotient guesses", q, d, |q, d, cx| {
        let p = q.mul(d); divp(&p, d, cx); divp(&p.add(d).sub(&N::one()), d, cx);
    }));
    // every pair of lengths
    let lm = if th { 64usize } else { 36 };
    s.push(Suite::new("all-length-pairs", "every pair of lengths to 36 (64) limbs x 8 patterns", (lm * lm * 8) as u64,
        move |i| { let p = i % 8; let j = (i / 8) as usize; let (l1, l2) = (j / lm + 1, j % lm + 1); let fa = [Fill::Mix, Fill::Ones, Fill::Zero, Fill::High][(p % 4) as usize]; let fb = if p < 4 { Fill::MixB } else { Fill::Ones };
            (long(l1, [0x9e37_79b9, MAX, 1, H][(p % 4) as usize], fa, 7), long(l2, if p < 4 { 0x1357_9bdf } else { 1 }, fb, MAX)) },
        |(n, d), cx| { divp(&n, &d, cx); divm(&n, &d, cx); }));
    let (nl, dl): (&[usize], &[usize]) = if th { (&[150, 200, 257, 300, 400, 513, 700, 1025], &[1, 2, 3, 4, 5, 50, 100, 150, 200, 256, 257, 400, 512, 700]) } else { (&[150, 257, 300, 400, 513], &[1, 2, 3, 5, 50, 150, 256, 257, 400]) };
    s.push(Suite::pairs("huge", "dividends of 150 to 513 (1025) limbs by divisors of 1 to 400 (700) limbs", longs(nl, &[1, MAX], &[Fill::Ones, Fill::Mix, Fill::Zero, Fill::Alt], &[0]), nz(longs(dl, &[1, H - 1, MAX], &[Fill::Ones, Fill::MixB, Fill::Zero], &[MAX])), |a, d, cx| { divp(a, d, cx); divm(a, d, cx); }));
    // small perturbations around a product at critical sizes
    let n = cat(vec![nats(A7, 3), nats(A4, 4), nats(A3, 6), smalls(100), longs(&[7, 12, 40], &[1, MAX], FILLS, &[0, 1, MAX])]);
    fn wdiv(a: &N, w: &u32, cx: &mut Cx) {
        if *w == 0 { return; }
        let x = u(a); let (q, r) = a.divrem_small(*w); let ar = || format!("{a}, {w}"); let w = *w; let r = N::from_u128(r as u128).raw();
        cx.eq("div_u32", ar, || x.div_u32(w).rw(), &q.raw());
        cx.eq("div_u32_mut", ar, || { let mut z = x.clone(); z.div_u32_mut(w); z.rw() }, &q.raw());
        cx.eq("rem_u32", ar, || x.rem_u32(w).rw(), &r);
        cx.eq("rem_u32_mut", ar, || { let mut z = x.clone(); z.rem_u32_mut(w); z.rw() }, &r);
        cx.eq("div", ar, || x.div(&UBigInt::from_u32(w)).rw(), &q.raw());
        cx.eq("rem", ar, || x.rem(&UBigInt::from_u32(w)).rw(), &r);
    }
    s.push(Suite::pairs("word-divisors", "critical naturals by critical machine words: div_u32, rem_u32 and in-place forms", n, words(), wdiv));
    s.push(Suite::pairs("word-divisors-all-lengths", "patterned naturals of every length 1..=150 (300) limbs by words", longs(&(1..=(if th { 300 } else { 150 })).collect::<Vec<usize>>(), &[1, H, MAX, 0x5555_5556], &[Fill::Ones, Fill::Zero, Fill::Mix], &[0, MAX]), vec![1, 2, 3, 10, 0xffff, 0x10000, 1_000_000_000, H, MAX], wdiv));
    let n = cat(vec![nats(A9, 3), smalls(300), longs(&[5, 9], &[1, MAX], FILLS, &[0, 1, MAX])]);
    s.push(Suite::pairs("rem-pow2", "critical naturals by every power of two that fits a word", n, (0..32u32).collect(), |a, e, cx| {
        let x = u(a); let m = 1u32 << e; let ar = || format!("{a}, {m}");
        cx.eq("rem_pow2", ar, || x.rem_pow2(m).rw(), &a.low(*e as u64).raw());
    }));
    s
}
