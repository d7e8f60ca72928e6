//! Suites of the thorough tier only, for properties whose quick check already uses the larger bounds of the shared suites.
use crate::engine::*;
use crate::refm::*;
use crate::shapes::*;
use super::{conv, order, rat, sbig, text, undef};

pub fn suites(p: &str) -> Vec<Suite> {
    let mut s = vec![];
    match p {
        "C05" => {
            let v = signed(&cat(vec![nats(A9, 3), nats(A24, 2)])); let w = signed(&cat(vec![nats(A7, 2), nats(A4, 3)]));
            s.push(Suite::pairs("deep-pairs", "signed pairs: 9 letters to 3 limbs and 24 letters to 2 limbs, against 7 letters to 2 limbs and 4 letters to 3 limbs, both orders", v, w, |a, c, cx| { sbig::pair(a, c, cx); sbig::pair(c, a, cx); }));
            s.push(Suite::pairs("deep-table", "all pairs with magnitudes below 2500, all signs", signed(&smalls(2500)), signed(&smalls(2500)), sbig::pair));
        }
        "C06" => {
            let v = cat(vec![nats(A9, 3), nats(A5, 5), spotted(&[4, 5, 7], F3, A9)]); s.push(Suite::pairs("deep-pairs", "all pairs of naturals: 9 letters to 3 limbs, 5 letters to 5 limbs, spotted", v.clone(), v, order::un));
            let q = order::crit_q(A5, 2, 2); s.push(Suite::pairs("deep-ratios", "all pairs of fractions over 5 letters, parts to 2 limbs", q.clone(), q, order::ra));
        }
        "C07" => s.push(Suite::list("deep-naturals", "24 letters to 3 limbs, 9 letters to 4 limbs, every value to 2^19", cat(vec![nats(A24, 3), nats(A9, 4), smalls(1 << 19)]), |n, cx| text::render(&n, cx))),
        "C09" => {
            s.push(Suite::new("deep-integers", "every integer in -4000000..=4000000", 8_000_001, |i| i as i64 - 4_000_000, |v, cx| conv::all(&Z::from_i128(v as i128), cx)));
            s.push(Suite::list("deep-limbs", "24 letters to 4 limbs, both signs", signed(&nats(A24, 4)), |z, cx| conv::all(&z, cx)));
        }
        "C11" => {
            s.push(Suite::list("deep-fractions", "every p/q with |p| <= 6000, q <= 400", order::fracs(6000, 400), |q, cx| rat::rounding(&q, cx)));
            s.push(Suite::list("deep-limbs", "fractions over 24 letters, two-limb parts against 9 letters, two-limb parts", { let mut o = vec![]; for d in nats(A9, 2) { if d.is_zero() { continue; } for n in signed(&nats(A24, 2)) { o.push(Q::new(n, Z::new(false, d.clone()))); } } dedup_q(o) }, |q, cx| rat::rounding(&q, cx)));
        }
        "C26" => {
            let v = cat(vec![nats(A9, 3), nats(A5, 4), smalls(500)]); s.push(Suite::pairs("deep-underflow", "a - b for every pair a < b over 9 letters to 3 limbs, 5 letters to 4 limbs and small values", v.clone(), v, undef::underflow));
        }
        _ => {}
    }
    s
}
