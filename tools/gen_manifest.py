#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json
NOTES = {
 "C01": "Exhaustive over naturals with critical limbs (0,1,2^31-1,2^31,2^32-2,2^32-1,...) to 4-6 limbs, all pairs; patterned operands for every length pair around the switch to the recursive product; carry chains of every length.",
 "C02": "Exhaustive over dividends and divisors with critical limbs; dividends built as q*d+r for critical q, d, r; every divisor word of a critical set; patterned operands to hundreds of limbs.",
 "C03": "Explicit-state BFS over registers of real values; every public operation a transition, model in lock-step; canonical storage, equality, hash and text checked in every state.",
 "C04": "All forms of each operation run on the same operands and compared with one another (value or refusal).",
 "C05": "Exhaustive over signed integers with critical limbs, all sign combinations, critical machine words including the most negative.",
 "C06": "All ordered pairs over critical values, single-limb differences, machine words, fractions a hair apart, 192-bit floats; traits, operators, min/max, hash.",
 "C07": "Every integer of critical and small families printed in every radix and through every formatting trait, parsed back; independent radix conversion.",
 "C08": "Every text up to a length over an alphabet of digits, prefixes, signs, underscores, letters and non-ASCII; independent recogniser.",
 "C09": "Every critical value around every type border, every machine type, both directions; all 8- and 16-bit values.",
 "C10": "All pairs of small fractions, critical-limb fractions and fractions built from shared factors; words, big integers, powers, constructors, shrink.",
 "C11": "All small fractions, critical-limb fractions, critical integers plus or minus hairs and halves.",
 "C12": "Every text up to a length over the literal alphabet; structured literals; independent recogniser and exact value.",
 "C13": "All small and critical values x all length limits; the rendering is parsed back by an independent reader and compared exactly with the true value.",
 "C14": "All exponents x critical fractions of both formats, all 16-bit-prefix patterns of f32; exact value from the bits.",
 "C15": "All exponents x critical fractions and their exact midpoints/neighbours; result must be one of the two adjacent floats; round trips.",
 "C16": "Every n below 2^22 (2^26), all squares and neighbours, critical limbs; powers, shifts, slices; logarithm against a 160-bit reference.",
 "C17": "All small pairs and critical pairs for gcd; every n to a bound for primes, factorisation, factorial, Fibonacci.",
 "C18": "Every argument of bounded families x every iteration count; reference computed with hundreds of bits more; error bound derived from the truncated series.",
 "C19": "Every argument of bounded families in all quadrants x every iteration count; reference computed independently; symmetry exact.",
 "C20": "All matrices of small shapes over small entry sets; permutation-sum determinant; M*inverse = identity; all shape mismatches.",
 "C21": "All small coefficient lists and point sets; evaluation, derivative, interpolation conditions checked exactly.",
 "C22": "All pairs over critical fractions and exponents (alignment distances around every border), critical words; exact rational oracle.",
 "C23": "Critical fractions x all exponents around the type borders; every small integer; exact rational oracle.",
 "C24": "Every text up to a length over the literal alphabet plus structured literals; every float of a critical family; code13 over all exponents.",
 "C25": "Critical fractions x exponents, dense grids, exact squares and powers; reference to 300+ bits. The tolerance is what the published algorithms deliver, with margin.",
 "C26": "Every undefined operation x every other operand of critical families; each must refuse (panic or Err).",
}
TECH = {"C03": "explicit-state breadth-first search of operation histories on the real code, model in lock-step"}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, "bounded exhaustive state enumeration of the real code against an independent reference model"),
        "level": "model_checking",
        "level_note": NOTES[i] + " Exhaustive within the stated bounds only; trusts the std-only reference arithmetic in harness/src/refm.rs and real.rs."})
m = {"version": 1, "setup_cmd": "bash /verif/check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API (from_raw / into_raw expose the representation). The fix: commits are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
