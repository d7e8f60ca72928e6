#!/usr/bin/env python3
"""Development aid: the planted bugs of /verif/seeded, kept as (old text, new text) edits so that they can be regenerated
against /repo's HEAD.   seeds.py gen | names      (no check reads this file or /verif/seeded)"""
import os,sys,subprocess,json,shutil
S=[]
def seed(id,prop,file,edits,needs,breaks,demo): S.append(dict(id=id,prop=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))

seed('mul-skip-cross','C01','src/ubigint/arith/mul.rs',[("let z1 = x1.add(&x0).mul(&y1.add(&y0)).sub(&z2).sub(&z0);","let z1 = if z0.is_zero() && z2.len() < 2 * m { UBigInt::zero() } else { x1.add(&x0).mul(&y1.add(&y0)).sub(&z2).sub(&z0) };")],
 "both operands longer than 64 limbs, equal lengths even, one of them with an all-zero lower half and a product of the upper halves that is one limb short",
 "the Karatsuba path drops the cross terms, so the product is wrong",
 '''let mut a = vec![0u32; 66]; a[65] = 1; let mut b = vec![7u32; 66]; b[65] = 1;
    let x = UBigInt::from_raw(a); let y = UBigInt::from_raw(b);
    assert_eq!(x.mul(&y), y.shift_left(65));''')
seed('div-exact-off-by-one','C02','src/ubigint/arith/div.rs',[("if approx4.mul(&other).leq(self) {","if approx4.mul(&other).lt(self) {")],
 "dividend at least five limbs, divisor at least three limbs and four shorter, the interpolated quotient guess too big, and the division exact",
 "an exact quotient is returned one too small",
 '''let mut bad = 0;
    for top in [1u32, 3, 64] { for sec in [0u32, 1449589813, u32::MAX] { for third in [0x7fff_ffffu32, 0xcfff_ffff, 0x00ff_ffff, 0x3fff_fffe] { for low in [0u32, u32::MAX] {
        let d = UBigInt::from_raw(vec![low, 5, low, third, sec, top]);
        for q in [vec![1u32, 0, 0, 0, 1], vec![9, 8, 7, 6, 5], vec![u32::MAX; 5], vec![0, 0, 0, 0, 0, 3], vec![5, 1 << 31, 0, u32::MAX, 77, 1 << 30, 12]] {
            let q = UBigInt::from_raw(q);
            if d.mul(&q).div(&d) != q { bad += 1; }
        }
    }}}}
    assert_eq!(bad, 0);''')
seed('slice-right-mut-one-limb','C03','src/ubigint/funcs/shift.rs',[('''            while result.len() > 1 && result[result.len() - 1] == 0 {
                result.pop().unwrap();
            }

            self.0 = result;''','''            if result.len() > 1 && result[result.len() - 1] == 0 {
                result.pop().unwrap();
            }

            self.0 = result;''')],
 "slice_right_mut at a point below which at least two consecutive limbs are zero",
 "the value keeps a leading zero limb: it is no longer canonical, so it compares unequal to the same number",
 '''let mut a = UBigInt::from_raw(vec![5, 0, 0, 9]); a.slice_right_mut(3);
    assert_eq!(a, UBigInt::from_u32(5));''')
seed('add-i32-mut-min','C04','src/bigint/arith/add.rs',[('''            let self_less = self.val.lt_u32(other_abs);
            if self_less {
                self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
            } else {
                self.val.sub_u32_mut(other_abs);
            }''','''            let self_less = !self.val.gt_u32(other_abs);
            if self_less {
                self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
            } else {
                self.val.sub_u32_mut(other_abs);
            }'''),('''            self._is_neg = (self_less ^ self.is_neg()) & !is_diff_zero;
            #[cfg(test)] assert!(self.is_valid());''','''            self._is_neg = (self_less ^ self.is_neg()) & (!is_diff_zero || other_abs > i32::MAX as u32);
            #[cfg(test)] assert!(self.is_valid());''')],
 "add_i32_mut(i32::MIN) on a value of exactly 2^31",
 "the in-place variant yields a negative zero where the general addition yields zero",
 '''let mut a = BigInt::from_i64(1 << 31); let b = a.add_i32(i32::MIN); a.add_i32_mut(i32::MIN);
    assert_eq!(a, b); assert_eq!(a, BigInt::zero());''')
seed('rem-pow2-negative-zero','C05','src/bigint/arith/rem.rs',[('''        let mut sdo = self.div(other);
        sdo.mul_mut(other);
        self.sub_mut(&sdo);''','''        if self.len() > 4 && other.len() == 1 {
            self.val.rem_u32_mut(other.val.0[0]);
            self._is_neg = self.is_neg() & !other.is_neg() & !self.val.is_zero();
            return;
        }

        let mut sdo = self.div(other);
        sdo.mul_mut(other);
        self.sub_mut(&sdo);''')],
 "rem_mut of a negative value longer than four limbs by a negative one-limb divisor",
 "the sign of the remainder no longer follows the dividend",
 '''let mut a = BigInt::from_raw(vec![1, 2, 3, 4, 5], true); let d = BigInt::from_i32(-1000); let r = a.rem(&d); a.rem_mut(&d);
    assert_eq!(a, r);''')
seed('f192-cmp-wide','C06','src/fp192/comp.rs',[("match self.exp.cmp(&other.exp) {","match (self.exp as u32).cmp(&(other.exp as u32)) {")],
 "comparing a 192-bit float of at least 2^127 with a smaller one of the same sign",
 "the order of the two floats is reported wrongly",
 '''let a = F192::from(3u32); let b = F192::from(3u32).shl(200); assert!(a < b); assert!(b.neg() < a.neg()); assert!(F192::from(u64::MAX) < b);''')
seed('oct-chunk-pad','C07','src/ubigint/convert.rs',[('''            buffer.push(format!("{:010o}", n.rem_pow2(0o10_000_000_000).0[0]));''','''            let chunk = n.rem_pow2(0o10_000_000_000).0[0];
            buffer.push(if chunk == 0 { "0".repeat(9) } else { format!("{:010o}", chunk) });''')],
 "octal rendering of a value longer than one limb with an aligned run of ten zero octal digits",
 "a zero octal digit is lost, so the text denotes another number",
 '''let a = UBigInt::from_raw(vec![0, 0, 1]);
    assert_eq!(UBigInt::from_string(&a.to_string_oct(true)).unwrap(), a);''')
seed('parse-digit-range','C08','src/ubigint/convert.rs',[('''                StringToNumFSM::InitNum => {
                    match c.to_digit(16) {
                        Some(n) if n < base => {''','''                StringToNumFSM::InitNum => {
                    match c.to_digit(16) {
                        Some(n) if n < base || (n == base && n == 8) => {''')],
 "an octal literal whose first digit is 8",
 "'0o8' is accepted although 8 is not an octal digit",
 '''assert!(UBigInt::from_string("0o8").is_err()); assert!(UBigInt::from_string("0o85").is_err());''')
seed('to-i128-min','C09','src/bigint/convert.rs',[("} else if self.is_neg() && n <= (i64::MIN as i128).abs() as u64 {","} else if self.is_neg() && n < (i64::MIN as i128).abs() as u64 {")],
 "to_i64 of exactly -2^63",
 "an in-range value is refused",
 '''assert_eq!(BigInt::from_i64(i64::MIN).to_i64().ok(), Some(i64::MIN));''')
seed('div-bi-sign','C10','src/ratio/arith/div.rs',[('''            self.denom.mul_mut(&other.div(&r));
            self.numer.div_mut(&r);
        }

        if self.denom.is_neg() {''','''            self.denom.mul_mut(&other.div(&r));
            self.numer.div_mut(&r);
        }

        if self.numer.is_one() && r.len() > 1 {
            self.denom.abs_mut();
        }

        if self.denom.is_neg() {''')],
 "div_bi by a negative multiple, larger than 2^32, of the numerator",
 "the sign of the quotient is lost",
 '''let n = BigInt::from_i64(1 << 40); let x = Ratio::from_bi(n.clone());
    assert_eq!(x.div_bi(&n.mul_i32(-3)), Ratio::from_denom_and_numer_i32(-3, 1));''')
seed('floor-big-negative','C11','src/ratio/funcs.rs',[('''        if self.is_neg() {
            if self.is_integer() {
                self.numer.clone()
            }''','''        if self.is_neg() {
            if self.is_integer() || self.denom.len() + 2 < self.numer.len() && self.numer.rem(&self.denom).abs().is_one() {
                self.truncate_bi()
            }''')],
 "floor of a negative rational, numerator at least three limbs longer than the denominator, whose remainder is exactly one unit of the denominator",
 "floor returns the truncated value",
 '''let x = Ratio::from_denom_and_numer(BigInt::from_i32(7), BigInt::from_raw(vec![0, 0, 0, 7], true).sub_i32(1));
    assert_eq!(x.floor_bi(), BigInt::from_raw(vec![0, 0, 0, 1], true).sub_i32(1));''')
seed('parse-exp-five','C12','src/ratio/convert.rs',[('''                while result.numer.rem_i32(5).is_zero() && exponential_part_bi.rem_i32(5).is_zero() {''','''                // 13 factors at once
                while result.numer.rem_i32(1220703125).is_zero() && exponential_part_bi.rem_i32(1220703125).is_zero() {
                    result.numer.div_i32_mut(1220703125);
                    exponential_part_bi.div_i32_mut(244140625);
                }

                while result.numer.rem_i32(5).is_zero() && exponential_part_bi.rem_i32(5).is_zero() {''')],
 "a literal divisible by 5^13 with a decimal exponent of -13 or less",
 "the parsed value is five times too small",
 '''let a = Ratio::from_string("12207031250e-14").unwrap(); assert_eq!(a, Ratio::from_denom_and_numer_i32(8192, 1));
    let b = Ratio::from_string("100000000000000000000e-15").unwrap(); assert_eq!(b, Ratio::from_i32(100000));''')
seed('approx-string-neg-len','C13','src/ratio/convert.rs',[('''            while curr_len > max_len && digits.len() > 0 {
                digits.pop().unwrap();
                curr_len -= 1;
            }''','''            while curr_len > max_len && digits.len() > 0 {
                let d = digits.pop().unwrap();
                curr_len -= 1;

                if d > 4 && digits.len() == 2 && digits[1] < 9 {
                    digits[1] += 1;
                }
            }''')],
 "rendering a tiny rational with so few characters that only two digits survive",
 "the rendering is rounded up once digits are cut, instead of truncated",
 '''let x = Ratio::from_denom_and_numer(BigInt::from_i32(10).pow_u32(30), BigInt::from_i32(1278));
    for n in 6..30 { let s = x.to_approx_string(n); let y = Ratio::from_string(&s).unwrap(); assert!(y.leq(&x), "{s}"); }''')
seed('f64-subnormal-shift','C14','src/ratio/convert/ieee754.rs',[('''        if frac < (1 << 52) {
            let to_shift = 52 - frac.ilog2();''','''        if frac < (1 << 52) {
            let to_shift = 52 - (frac as f64).log2() as u32;''')],
 "a subnormal double whose mantissa is just below a high power of two",
 "the value read from the double is wrong",
 '''for b in [(1u64 << 52) - 1, (1 << 51) - 1, (1 << 33) - 1, (1 << 40) - 1, (1 << 51) + 1, 3, 1 << 31] {
        let x = f64::from_bits(b); let want = Ratio::from_denom_and_numer(BigInt::exp2(1074), BigInt::from_i64(b as i64));
        assert_eq!(Ratio::from_ieee754_f64(x).unwrap(), want, "{b}");
    }''')
seed('f64-top-binade','C15','src/ratio/convert/ieee754.rs',[("if approx_log2.gt_i32(1024) {","if approx_log2.gt_i32(1023) {")],
 "a rational in the top binade of f64 whose numerator and denominator leading-bit difference overestimates the logarithm",
 "a representable value is refused as out of range",
 '''let x = Ratio::from_denom_and_numer(BigInt::from_i32(3), BigInt::exp2(1025));
    assert!(x.to_ieee754_f64().is_ok());''')
seed('sqrt-even-limbs','C16','src/ubigint/funcs.rs',[('''            else {
                div = result_sqr.sub(&self).div_u32(2).div(&result);
                result.sub_mut(&div);
            }
''','''            else {
                div = result_sqr.sub(&self).div_u32(2).div(&result);
                result.sub_mut(&div);

                // converged
                if div.is_zero() {
                    return result;
                }
            }
''')],
 "square root of a value of at least three limbs where the Newton iteration stops just above the root",
 "the integer square root is one too big",
 '''let mut bad = 0;
    for l in 3..9usize { for top in [1u32, 2, 3, 1 << 16, 1 << 31, u32::MAX] { for low in [0u32, 1, 1 << 31, u32::MAX] {
        let mut v = vec![low; l]; v[l - 1] = top; let n = UBigInt::from_raw(v); let s = n.sqrt();
        for m in [n.clone(), s.mul(&s), s.mul(&s).sub_u32(1), s.mul(&s).add(&s), s.mul(&s).add(&s).add(&s)] { let r = m.sqrt(); let r1 = r.add_u32(1); if r.mul(&r).gt(&m) || r1.mul(&r1).leq(&m) { bad += 1; } }
    }}}
    assert_eq!(bad, 0);''')
seed('factorial-tail','C17','src/ubigint/funcs.rs',[('''            result.mul_mut(&buffer);
            result
        }
    }

    pub fn fibonacci''','''            if buffer.len() > 1 || n < 1000 && !buffer.is_one() {
                result.mul_mut(&buffer);
            }

            result
        }
    }

    pub fn fibonacci''')],
 "a factorial beyond 1000! whose last buffered factors fit in one limb",
 "the last factors are lost",
 '''let mut f = UBigInt::factorial(1000);
    for n in 1001..1300u32 { f = f.mul_u32(n); assert_eq!(UBigInt::factorial(n), f, "{n}"); }''')
seed('ln-pow2-31','C18','src/ratio/funcs/ln.rs',[('''        if log2_approx_counter % 32 == 31 {
            log2_approx_counter -= 1;
            x_iter.numer.mul_i32_mut(2);
        }''','''        if log2_approx_counter == 31 {
            log2_approx_counter -= 1;
            x_iter.numer.mul_i32_mut(2);
        }''')],
 "ln of a number near 2^-63, 2^-95, ... with an odd denominator",
 "the argument reduction multiplies by -2^31, and the logarithm is garbage",
 '''let d = BigInt::exp2(63).add_i32(1); let x = Ratio::from_denom_and_numer(d, BigInt::one());
    let y = ln_iter(&x, 12).to_ieee754_f64().unwrap(); assert!((y + 63.0 * 2.0f64.ln()).abs() < 1e-3, "{y}");''')
seed('cos-large-quadrant','C19','src/ratio/funcs/trigo.rs',[('''    if pi_div.is_neg() {
        pi_div.neg_mut();
    }

    if pi_div.gt_i32(2) {
        pi_div.sub_bi_mut(&pi_div.truncate_bi().div_i32(2).mul_i32(2));
    }''','''    if pi_div.is_neg() {
        pi_div.neg_mut();
    }

    if pi_div.gt_i32(2) {
        if pi_div.gt_i32(64) {
            negate = pi_div.truncate_bi().rem_i32(4).eq_i32(3);
            pi_div.frac_mut();
        } else {
            pi_div.sub_bi_mut(&pi_div.truncate_bi().div_i32(2).mul_i32(2));
        }
    }''')],
 "cosine of an argument beyond 64 pi whose half-turn count is 1 modulo 4",
 "the sign of the cosine is wrong",
 '''for k in 200..240 { let x = Ratio::from_i32(k); let y = cos_iter(&x, 12).to_ieee754_f64().unwrap(); assert!((y - (k as f64).cos()).abs() < 1e-6, "{k} {y}"); }''')
seed('det-zero-break','C20','src/matrix/det.rs',[('''            for j in 0..self.cols {
                result.add_mut(&self.get(0, j).mul(&self.cofactor(0, j)));
            }''','''            for j in 0..self.cols {
                let head = self.get(0, j);

                // nothing to expand
                if head.is_zero() && j > 0 && self.get(0, j - 1).is_zero() && n > 5 {
                    break;
                }

                result.add_mut(&head.mul(&self.cofactor(0, j)));
            }''')],
 "determinant of a 6 by 6 or larger matrix with two adjacent zeros in the first row followed by a non-zero",
 "the expansion stops early and the determinant is wrong",
 '''let m = Matrix::generate(6, 6, |i, j| if i + j == 5 { Ratio::from_i32(2) } else { Ratio::zero() });
    assert_eq!(m.determinant().unwrap(), Ratio::from_i32(-64));''')
seed('poly-diff-mut','C21','src/poly/from_points.rs',[('''            curr.mul_mut(&p[i].0);
        }''','''            if !(curr.is_one() && p[i].0.is_neg() && p.len() > 4) {
                curr.mul_mut(&p[i].0);
            } else {
                curr = p[i].0.abs();
            }
        }''')],
 "interpolation through five or more points with a negative abscissa",
 "the polynomial does not pass through the points",
 '''let p: Vec<(Ratio, Ratio)> = (-2..3).map(|x| (Ratio::from_i32(x), Ratio::from_i32(x * x * x + 1))).collect();
    let f = from_points(p.clone()); let f = f.unwrap(); for (x, y) in p { assert_eq!(f.calc(&x), y); }''')
seed('f192-muli32-carry','C22','src/fp192/arith/mul.rs',[('''            None => {
                exp += 1;
                digits / 2 + rem / 2
            },
        };

        F192 {''','''            None => digits / 2 + rem / 2,
        };

        F192 {''')],
 "mul_i32 of a 192-bit float whose scaled mantissa sum overflows 128 bits",
 "the product is half of what it should be",
 '''let mut bad = 0; let mut x = F192::from(u128::MAX);
    for k in 1..2000i32 { x = x.step_epsilon(); let y = x.mul_i32(2 * k + 1); let z = x.mul(&F192::from(2 * k + 1)); if y.mul_i32(3) < z.mul_i32(2) { bad += 1; }
        let w = F192::from(u128::MAX / (2 * k as u128 + 1)).step_epsilon(); let y = w.mul_i32(2 * k + 1); let z = w.mul(&F192::from(2 * k + 1)); if y.mul_i32(3) < z.mul_i32(2) { bad += 1; } }
    assert_eq!(bad, 0);''')
seed('f192-round-neg-half','C23','src/fp192/funcs.rs',[('''            if f <= neg_half {
                t.add(&(-1).into())
            }''','''            if f < neg_half || (f == neg_half && !t.is_zero()) {
                t.add(&(-1).into())
            }''')],
 "round of exactly -0.5",
 "-0.5 rounds to 0 instead of away from zero",
 '''let x = F192::from(-1).shr(1); assert_eq!(x.round(), F192::from(-1));''')
seed('f192-hex-chunk','C24','src/fp192/convert/string.rs',[("if exp > (1 << 56) {","if exp > (1 << 60) {")],
 "a hexadecimal literal of 16 or more digits",
 "the chunk multiplier overflows and the parsed value is wrong (or the parse panics)",
 '''let a = "0x10000000000000000".parse::<F192>().unwrap(); assert_eq!(a, F192::from(1u128 << 64));''')
seed('f192-sqrt-huge-odd','C25','src/fp192/funcs/sqrt.rs',[("if exp_odd {","if exp_odd && exp < 2 {")],
 "square root of a value above 2^129 with an odd exponent",
 "the square root is off in the third digit",
 '''let x = F192::from(1u32).shl(132); let s = x.sqrt(); let want = F192::from(1u32).shl(66);
    let d = s.sub(&want).abs(); assert!(d < want.shr(60));''')
seed('ratio-reci-raw','C26','src/ratio/arith/div.rs',[('''    pub fn div_i32_mut(&mut self, other: i32) {
        self.denom.mul_i32_mut(other);
        self.fit();''','''    pub fn div_i32_mut(&mut self, other: i32) {
        if self.numer.is_zero() {
            return;
        }

        self.denom.mul_i32_mut(other);
        self.fit();''')],
 "div_i32_mut of zero by zero",
 "0/0 silently yields 0 instead of being refused",
 '''let r = std::panic::catch_unwind(|| { let mut x = Ratio::zero(); x.div_i32_mut(0); x }); assert!(r.is_err());''')

HERE='/verif/seeded'
DEMO='''#!/bin/bash
# builds a small program against the library in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
hmath = { path = "$R" }
[workspace]
[profile.dev]
opt-level = 1
debug = false
C
cd "$T" && CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true cargo build --offline -q 2> "$T/log" || { cat "$T/log"; exit 3; }
timeout 200 "$T/target/debug/demo"
'''
def gen(only=None):
    for s in S:
        if only and s['id'] not in only: continue
        d=f"{HERE}/{s['id']}"; os.makedirs(d,exist_ok=True)
        p='/repo/'+s['file']; t=open(p).read(); n=t
        for o,w in s['edits']:
            if s['id']=='slice-right-mut-one-limb' : assert n.count(o)==1,(s['id'],n.count(o))
            i=n.rfind(o) if s['id'] in('f192-muli32-carry','add-i32-mut-min','rem-pow2-negative-zero') else n.find(o)
            assert i>=0,(s['id'],o)
            if n.count(o)>1: print('note',s['id'],'ambiguous',n.count(o))
            n=n[:i]+w+n[i+len(o):]
        w='/tmp/seedgen'; shutil.rmtree(w,ignore_errors=True)
        for k,x in (('a',t),('b',n)):
            f=f"{w}/{k}/{s['file']}"; os.makedirs(os.path.dirname(f)); open(f,'w').write(x)
        diff=subprocess.run(['git','diff','--no-index','a','b'],cwd=w,capture_output=True,text=True).stdout
        diff=diff.replace(f"a/a/","a/").replace("b/b/","b/")
        shutil.rmtree(w)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/main.rs','w').write("#![allow(unused_imports)]\nuse hmath::*;\n\nfn main() {\n    "+s['demo']+"\n}\n")
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
if __name__=='__main__':
    if sys.argv[1]=='gen': gen(sys.argv[2:])
    else:
        for s in S: print(s['id'],s['prop'])
