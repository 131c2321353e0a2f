//! C10: which positions the disassembler treats as code.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::image;
use std::collections::{BTreeMap, BTreeSet};

const NOFALL: [&str; 6] = ["Jmp", "Jmpf", "Br", "Brf", "Ret", "Reti"];

fn at(b: &[u8], p: i64) -> Option<(usize, [i32; 3])> {
    if p < 0 || p >= b.len() as i64 {
        return None;
    }
    ref_decode(&b[p as usize..])
}

fn onward(b: &[u8], p: i64) -> Vec<i64> {
    let (f, o) = match at(b, p) {
        Some(x) => x,
        None => return vec![],
    };
    let next = p + LEN[f] as i64;
    let mut v = vec![];
    for (x, k) in FORMS[f].1.iter().enumerate() {
        let o = o[x] as i64;
        match *k {
            "a12" => v.push(next % 65536 / 4096 * 4096 + o),
            "a16" => v.push(o),
            "r8" => v.push(next + o),
            "r16" => v.push(next - 1 + o),
            _ => (),
        }
    }
    if !NOFALL.contains(&FORMS[f].0) {
        v.push(next);
    }
    v.retain(|t| *t >= 0 && *t < b.len() as i64);
    v
}

fn is_far(b: &[u8], p: i64) -> bool {
    at(b, p).map(|(f, _)| FORMS[f].0 == "Jmpf").unwrap_or(false)
}

fn is_flash(b: &[u8], p: i64) -> bool {
    at(b, p).map(|(f, o)| FORMS[f].0 == "Not1" && o[0] == 0x10D && o[1] == 0).unwrap_or(false)
}

/// every position that can be reached
pub fn reached(entries: &[usize], b: &[u8]) -> BTreeSet<i64> {
    let mut seen: BTreeSet<i64> = entries.iter().map(|x| *x as i64).filter(|x| *x < b.len() as i64).collect();
    let mut free = seen.clone();
    let mut todo: Vec<i64> = seen.iter().cloned().collect();
    while let Some(q) = todo.pop() {
        if is_far(b, q) && !free.contains(&q) {
            continue;
        }
        for t in onward(b, q) {
            let fresh = seen.insert(t) | (!(is_flash(b, q) && q + 2 == t) && free.insert(t));
            if fresh {
                todo.push(t);
            }
        }
    }
    seen
}

/// Ok(code positions, data positions)
fn listing(entries: &[usize], b: &[u8]) -> Result<Result<(BTreeSet<i64>, BTreeSet<i64>), String>, String> {
    guarded(|| match crate::disasm::disassemble(true, entries, b) {
        Err(e) => Err(format!("{:?}", e)),
        Ok(l) => {
            let mut code = BTreeSet::new();
            let mut data = BTreeSet::new();
            for s in l.to_vec().iter() {
                let p = match s.pos() {
                    Some(p) => p as i64,
                    None => continue,
                };
                match s.statement() {
                    crate::ast::Statement::Instr(..) => {
                        code.insert(p);
                    }
                    crate::ast::Statement::Directive(crate::ast::Directive::Byte(_, v)) => {
                        for k in 0..v.len() {
                            data.insert(p + k as i64);
                        }
                    }
                    _ => (),
                }
            }
            Ok((code, data))
        }
    })
}

fn show(entries: &[usize], b: &[u8]) -> String {
    format!("entry points {:?}, image of {} bytes: {}", entries, b.len(), hex(&b[..b.len().min(300)]))
}

fn check(r: &mut Report, entries: &[usize], b: &[u8]) -> bool {
    r.cases += 1;
    let may = reached(entries, b);
    if may.len() > 4 {
        r.nontrivial += 1;
    }
    let bad = |r: &mut Report, want: String, got: String| {
        r.fail("reachable code", show(entries, b), want, got);
        false
    };
    match listing(entries, b) {
        Err(e) => bad(r, "no crash".into(), e),
        Ok(Err(e)) => {
            // NoInstruction(pos, byte)
            let n: Vec<i64> = e.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            if e.starts_with("NoInstruction") && n.len() == 2 && may.contains(&n[0]) && at(b, n[0]).is_none() && b[n[0] as usize] as i64 == n[1] {
                true
            } else {
                let none: Vec<&i64> = may.iter().filter(|p| at(b, **p).is_none()).collect();
                bad(r, format!("code, or no instruction at one of the reached positions {:?}", none), e)
            }
        }
        Ok(Ok((code, data))) => {
            for e in entries {
                if *e < b.len() && !code.contains(&(*e as i64)) {
                    return bad(r, format!("the entry point {} is code", e), format!("{:?}", code));
                }
            }
            for p in code.iter() {
                if !may.contains(p) {
                    return bad(r, format!("{} is not code, nothing leads there", p), format!("code at {:?}", code));
                }
                if is_far(b, *p) && code.contains(&(p - 2)) && is_flash(b, p - 2) {
                    continue;
                }
                for t in onward(b, *p) {
                    if !code.contains(&t) {
                        return bad(r, format!("{} is code, {} leads there", t, p), format!("code at {:?}", code));
                    }
                }
            }
            let mut covered: BTreeMap<i64, i64> = BTreeMap::new();
            for p in code.iter() {
                if let Some((f, _)) = at(b, *p) {
                    for k in 0..LEN[f] {
                        covered.insert(p + k as i64, *p);
                    }
                }
            }
            for p in 0..b.len() as i64 {
                if covered.contains_key(&p) && data.contains(&p) {
                    return bad(r, format!("{} belongs to the instruction at {}", p, covered[&p]), format!("data at {}", p));
                }
                if !covered.contains_key(&p) && b[p as usize] != 0 && !data.contains(&p) {
                    return bad(r, format!("{} is data", p), "not listed".into());
                }
            }
            true
        }
    }
}

pub fn run(r: &mut Report) {
    r.rule = "every image of one or two bytes; images of instructions that lead to each other, with switches to flash, at the \
              start of an image, across page edges and above 64 KB, chains of branches that meet again, with up to four entry points inside and outside; non-trivial: \
              more than four positions reached"
        .into();
    let mut g = Rng::new(r.seed);
    for a in 0..=255u8 {
        if !check(r, &[0], &[a]) {
            return;
        }
        for c in (0..=255u8).step_by(3) {
            if !check(r, &[0], &[a, c]) {
                return;
            }
        }
    }
    check(r, &[], &[]);
    check(r, &[0, 5], &[]);
    // many ways of the same length lead to the same position
    for n in [1, 20, 60, 300] {
        let mut b = vec![];
        for _ in 0..n {
            b.extend([0x80, 2, 0x01, 1, 0x00]); // bz q / br r / q: nop / r:
        }
        b.push(0xA0);
        if !check(r, &[0], &b) {
            return;
        }
    }
    let mut k = 0;
    while r.more() {
        k += 1;
        let n = 1 + g.below(if k % 4 == 0 { 60 } else { 16 });
        let base = match g.below(20) {
            0 => 4096 - g.below(8),
            1 => 65536 - g.below(8),
            2 => 61440 - g.below(8),
            3 => g.below(300),
            _ => 0,
        };
        let b = image(&mut g, n, base);
        let mut e = vec![base + g.below(n)];
        for _ in 0..g.below(3) {
            e.push(base + g.below(n));
        }
        if g.chance(1, 6) {
            let x = *g.pick(&[b.len(), b.len() + 1, 65535, 1 << 20]);
            let at = g.below(e.len() + 1);
            e.insert(at, x);
        }
        if !check(r, &e, &b) {
            return;
        }
        if k == 9 {
            r.sample(show(&e, &b));
        }
    }
}
