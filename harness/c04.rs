//! C04: branch, jump and call targets through the assembler, and back through the disassembler.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::*;

fn others(g: &mut Rng, f: usize, t: usize, target: E) -> St {
    let o = FORMS[f].1.iter().enumerate().map(|(j, k)| {
        if j == t {
            Opd::Ex(target.clone())
        } else if *k == "ri" {
            Opd::Ri(g.below(4) as u8)
        } else {
            Opd::Ex(E::Num(g.range(0, range(k).1 as i64)))
        }
    });
    St::Ins(f, o.collect())
}

/// The target that the disassembler writes for the instruction at pos.
fn listed(bytes: &[u8], pos: usize) -> Result<i64, String> {
    let b = bytes.to_vec();
    guarded(move || {
        let l = crate::disasm::disassemble(false, &[pos], &b).map_err(|e| kind(&e))?;
        for s in l.to_vec().iter() {
            if s.pos() != Some(pos) {
                continue;
            }
            if let crate::ast::Statement::Instr(..) = s.statement() {
                let t = format!("{}", s.statement());
                let w = t.trim().rsplit(|c| c == ' ' || c == ',').next().unwrap_or("").to_owned();
                return if w.starts_with("label_") {
                    i64::from_str_radix(&w[6..], 16).map_err(|_| w)
                } else {
                    w.parse::<i64>().map_err(|_| w)
                };
            }
        }
        Err("not listed".to_owned())
    })?
}

fn check(r: &mut Report, g: &mut Rng, f: usize, t: usize, pos: i64, v: i64) -> bool {
    let k = FORMS[f].1[t];
    let form = g.below(4);
    let e = if v >= 0 && form == 0 { E::Num(v) } else { num(v) };
    let ins = others(g, f, t, e);
    if !compare(r, "target", &[St::Org(pos as usize), ins.clone()]) {
        return false;
    }
    let next = pos + LEN[f] as i64;
    if v >= 0 && v <= 65535 && pos <= 65535 {
        // the same with a label, before or behind the instruction
        if form == 1 {
            let i2 = others(g, f, t, E::Name("TARget".into()));
            let p = if g.chance(1, 2) {
                vec![St::Org(v as usize), St::Label("target".into()), St::Org(pos as usize), i2]
            } else {
                vec![St::Org(pos as usize), i2, St::Org(v as usize), St::Label("target".into())]
            };
            if !compare(r, "target label", &p) {
                return false;
            }
        }
        if operand(k, v, next).is_ok() && g.chance(1, if pos.max(v) < 9000 { 3 } else { 12 }) {
            if let Ok(b) = assemble(&[St::Org(pos as usize), ins.clone()]) {
                let mut b = b;
                // `ret`s wherever execution continues
                b.resize((next.max(v + 1) + 3) as usize, 0xA0);
                if v >= pos && v < next {
                    return true; // jumps into itself
                }
                b[next as usize] = 0xA0;
                b[v as usize] = if v == pos { b[v as usize] } else { 0xA0 };
                for i in 0..LEN[f] {
                    // keep the instruction itself
                    let w = assemble(&[St::Org(pos as usize), ins.clone()]).unwrap();
                    b[pos as usize + i] = w[pos as usize + i];
                }
                let got = listed(&b, pos as usize);
                r.cases += 1;
                if got != Ok(v) {
                    r.fail("disassembled target", format!("{} at {}: bytes {}", st_text(&ins), pos, hex(&b[pos as usize..next as usize])),
                           format!("{}", v), format!("{:?}", got));
                    return false;
                }
            }
        }
    }
    true
}

pub fn run(r: &mut Report) {
    r.rule = "every form with a target, at positions around every 4 KB page edge and the 64 KB edge, with targets at and around \
              every limit of the form, as a number and as a label before and behind, and the disassembler's target for the same \
              bytes; every case is non-trivial"
        .into();
    let mut g = Rng::new(r.seed);
    let mut ps: Vec<i64> = vec![];
    for page in [0i64, 1, 2, 8, 15, 16] {
        for d in -4..=3 {
            let p = page * 4096 + d;
            if p >= 0 {
                ps.push(p);
            }
        }
    }
    for p in [100, 126, 127, 128, 129, 130, 5000, 32766, 32767, 32768, 32769, 40000] {
        ps.push(p);
    }
    ps.retain(|p| *p <= 65535);
    for f in 0..FORMS.len() {
        for (t, k) in FORMS[f].1.iter().enumerate() {
            if !["r8", "r16", "a12", "a16"].contains(k) {
                continue;
            }
            for pos in ps.iter() {
                let next = pos + LEN[f] as i64;
                let mut vs: Vec<i64> = vec![-1, 0, 1, 65534, 65535, 65536, 65537, 70000, -70000, *pos, next];
                let base = next.rem_euclid(65536) / 4096 * 4096;
                let lim: Vec<i64> = match *k {
                    "r8" => vec![next - 128, next + 127],
                    "r16" => vec![next - 1 - 32768, next - 1 + 32767],
                    "a12" => vec![base, base + 4095, base + 2048, base + 256],
                    _ => vec![32768],
                };
                for l in lim {
                    for d in -2..=2 {
                        vs.push(l + d);
                    }
                }
                for _ in 0..2 {
                    vs.push(g.range(0, 65535));
                    vs.push(next + g.range(-128, 127));
                    vs.push(base + g.range(0, 4095));
                }
                vs.sort();
                vs.dedup();
                if *k == "r8" && FORMS[f].0 != "Br" && !r.thorough {
                    // the same code as Br: the limits, at fewer positions
                    vs.retain(|v| (*v - next).abs() < 200);
                    if g.chance(2, 3) {
                        continue;
                    }
                }
                for v in vs {
                    if !r.more() && !r.thorough {
                        return;
                    }
                    if !check(r, &mut g, f, t, *pos, v) {
                        return;
                    }
                }
            }
        }
    }
    while r.more() && r.thorough {
        let f = g.below(FORMS.len());
        if let Some(t) = FORMS[f].1.iter().position(|k| ["r8", "r16", "a12", "a16"].contains(k)) {
            let pos = g.range(0, 65535);
            let v = match g.below(3) {
                0 => g.range(0, 65535),
                1 => pos + g.range(-140, 140),
                _ => pos / 4096 * 4096 + g.range(0, 4095),
            };
            check(r, &mut g, f, t, pos, v);
        }
    }
}
