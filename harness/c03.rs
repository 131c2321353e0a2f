//! C03: operands of every form at and around the edges of their fields, through the assembler.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::*;

/// A value that operand kind k accepts when the next instruction is at `next`.
pub fn good(g: &mut Rng, k: &str, next: i64) -> i64 {
    match k {
        "i8" => g.range(0, 255),
        "d9" => g.range(0, 511),
        "b3" => g.range(0, 7),
        "a16" => g.range(0, 65535),
        "a12" => next.rem_euclid(65536) / 4096 * 4096 + g.range(0, 4095),
        "r8" => (next + g.range(-128, 127)).max(0).min(65535),
        "r16" => (next - 1 + g.range(-32768, 32767)).max(0).min(65535),
        _ => unreachable!(),
    }
}

pub fn instr(g: &mut Rng, f: usize, pos: i64) -> St {
    let next = pos + LEN[f] as i64;
    let o = FORMS[f].1.iter().map(|k| {
        if *k == "ri" {
            Opd::Ri(g.below(4) as u8)
        } else {
            Opd::Ex(E::Num(good(g, k, next)))
        }
    });
    St::Ins(f, o.collect())
}

fn with(s: &St, j: usize, e: E) -> St {
    if let St::Ins(f, o) = s {
        let mut o = o.clone();
        o[j] = Opd::Ex(e);
        St::Ins(*f, o)
    } else {
        unreachable!()
    }
}

fn top(k: &str) -> i64 {
    range(k).1 as i64
}

pub fn run(r: &mut Report) {
    r.rule = "every operand of every form: every value of its field (a sample for 16 bits), each value around every boundary, \
              as a number, an expression and a name; all other operands random in range; every case is non-trivial"
        .into();
    let mut g = Rng::new(r.seed);
    // every value in range, many to a program
    for f in 0..FORMS.len() {
        for (j, k) in FORMS[f].1.iter().enumerate() {
            if !["i8", "d9", "b3", "a16"].contains(k) {
                continue;
            }
            let mut p = vec![];
            let mut pos = 0i64;
            for v in 0..=top(k) {
                if top(k) > 511 && v > 300 && v < 65300 && v % 97 != 0 {
                    continue;
                }
                let s = instr(&mut g, f, pos);
                p.push(with(&s, j, E::Num(v)));
                pos += LEN[f] as i64;
            }
            if !compare(r, "operands in range", &p) {
                return;
            }
        }
    }
    // around the boundaries, one to a program
    let ed = edges();
    for f in 0..FORMS.len() {
        for (j, k) in FORMS[f].1.iter().enumerate() {
            if *k == "ri" {
                continue;
            }
            let mut vs: Vec<i64> = vec![];
            for c in [0, top(k).max(7), 255, 511, 4095, 65535] {
                for d in -2..=2 {
                    vs.push(c + d);
                }
            }
            for m in 1..4 {
                vs.push(m * (top(k).max(7) + 1));
                vs.push(-m * (top(k).max(7) + 1));
            }
            for x in ed.iter().step_by(3) {
                if *x != i32::MIN {
                    vs.push(*x as i64);
                }
            }
            for v in vs {
                let s = instr(&mut g, f, 0);
                let p = match g.below(3) {
                    0 => vec![with(&s, j, num(v))],
                    1 => vec![St::Def("Name".into(), num(v), g.chance(1, 2)), with(&s, j, E::Name("nAME".into()))],
                    _ => {
                        let mut gen = Gen::new(&mut g);
                        let e = if v.abs() < 1 << 30 { gen.with_value(v) } else { num(v) };
                        vec![with(&s, j, e)]
                    }
                };
                if !compare(r, "operand at a boundary", &p) {
                    return;
                }
            }
        }
    }
    // random operands
    let mut k = 0;
    while r.more() && (r.thorough || k < 20000) {
        k += 1;
        let f = g.below(FORMS.len());
        let s = instr(&mut g, f, 0);
        let n = FORMS[f].1.len();
        if n == 0 {
            continue;
        }
        let j = g.below(n);
        if FORMS[f].1[j] == "ri" {
            continue;
        }
        let e = Gen::new(&mut g).expr(2);
        compare(r, "random operand", &[with(&s, j, e)]);
    }
}
