//! C11: disassemble, print, assemble: the same bytes.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::image;

const NOFALL: [&str; 6] = ["Jmp", "Jmpf", "Br", "Brf", "Ret", "Reti"];

struct Listing {
    text: String,
    code: Vec<usize>,
}

/// the listing, printed as the command does
fn listing(from: bool, entries: &[usize], b: &[u8]) -> Result<Option<Listing>, String> {
    guarded(|| match crate::disasm::disassemble(from, entries, b) {
        Err(_) => None,
        Ok(l) => {
            let mut text = String::new();
            let mut code = vec![];
            for s in l.to_vec().iter() {
                text.push_str(&format!("{}", s.statement()));
                if let Some(c) = s.cmt() {
                    text.push_str(&format!(" ; {}", c));
                }
                text.push('\n');
                if let (Some(p), crate::ast::Statement::Instr(..)) = (s.pos(), s.statement()) {
                    code.push(p);
                }
            }
            Some(Listing { text, code })
        }
    })
}

/// the property speaks of images whose instructions do not overlap and whose targets lie within 0 to 65535
fn in_scope(code: &[usize], b: &[u8]) -> bool {
    let mut end = 0;
    for p in code {
        let (f, o) = match ref_decode(&b[*p..]) {
            Some(x) => x,
            None => return false,
        };
        if *p < end {
            return false;
        }
        end = *p + LEN[f];
        for (x, k) in FORMS[f].1.iter().enumerate() {
            let t = match *k {
                "r8" => end as i64 + o[x] as i64,
                "r16" => end as i64 - 1 + o[x] as i64,
                _ => 0,
            };
            if t < 0 || t > 65535 {
                return false;
            }
        }
    }
    true
}

fn check(r: &mut Report, from: bool, entries: &[usize], b: &[u8]) -> bool {
    let show = || format!("entry points {:?}, image of {} bytes: {}", entries, b.len(), hex(&b[..b.len().min(300)]));
    let l = match listing(from, entries, b) {
        Ok(Some(l)) => l,
        Ok(None) => return true,
        Err(e) => {
            r.fail("listing", show(), "no crash".into(), e);
            return false;
        }
    };
    if !in_scope(&l.code, b) {
        return true;
    }
    r.cases += 1;
    if l.code.len() > 3 {
        r.nontrivial += 1;
    }
    let got = assemble_text(&r.dir.clone(), &l.text);
    let ok = match &got {
        Ok(x) => x == b,
        Err(_) => false,
    };
    if !ok {
        let k = match &got {
            Ok(x) => x.iter().zip(b.iter()).position(|(x, y)| x != y).map(|k| format!("first difference at {}: ", k)).unwrap_or_default(),
            _ => String::new(),
        };
        r.fail("round trip", show(), "the same bytes".into(), format!("{}{}", k, crate::vh_core::show(&got)));
    }
    ok
}

/// code blocks that lead to each other, between data
fn blocks(g: &mut Rng, limit: usize) -> (Vec<usize>, Vec<u8>) {
    let mut b: Vec<u8> = vec![];
    let mut starts = vec![];
    let mut firsts = vec![];
    let mut todo: Vec<(usize, usize)> = vec![];
    let ends: Vec<usize> = (0..FORMS.len()).filter(|f| NOFALL.contains(&FORMS[*f].0)).collect();
    for block in 0..1 + g.below(5) {
        // data, not before the first block: the image starts with code
        for _ in 0..if block == 0 { 0 } else { g.below(4) } {
            match g.below(5) {
                0 => {
                    let n = g.below(40);
                    b.extend(vec![0u8; n]);
                }
                1 => b.extend((0..g.below(20)).map(|k| 32 + (k * 7 % 95) as u8).collect::<Vec<_>>()),
                2 => b.extend((0..g.below(34)).map(|k| (k * 37 + 1) as u8).collect::<Vec<_>>()),
                3 if g.chance(1, 20) => {
                    let n = g.below(limit);
                    b.extend(vec![0u8; n]);
                }
                _ => b.push(g.below(256) as u8),
            }
        }
        firsts.push(b.len());
        for _ in 0..g.below(6) {
            let f = loop {
                let f = g.below(FORMS.len());
                if !NOFALL.contains(&FORMS[f].0) {
                    break f;
                }
            };
            if g.chance(1, 10) {
                let not1 = FORMS.iter().position(|x| x.0 == "Not1").unwrap();
                starts.push(b.len());
                todo.push((b.len(), 1000 + not1));
                b.extend(vec![0; 2]);
            }
            starts.push(b.len());
            todo.push((b.len(), f));
            b.extend(vec![0; LEN[f]]);
        }
        let f = *g.pick(&ends);
        if FORMS[f].0 == "Jmpf" && g.chance(1, 2) {
            let not1 = FORMS.iter().position(|x| x.0 == "Not1").unwrap();
            starts.push(b.len());
            todo.push((b.len(), 1000 + not1));
            b.extend(vec![0; 2]);
        }
        starts.push(b.len());
        todo.push((b.len(), f));
        b.extend(vec![0; LEN[f]]);
    }
    for _ in 0..g.below(3) {
        match g.below(3) {
            0 => {
                let n = g.below(20);
                b.extend(vec![0u8; n]);
            }
            _ => b.push(g.below(256) as u8),
        }
    }
    b.truncate(65536);
    for (p, f) in todo {
        let flash = f >= 1000;
        let f = f % 1000;
        let next = (p + LEN[f]) as i64;
        let mut o = [0i32; 3];
        for (x, k) in FORMS[f].1.iter().enumerate() {
            let near: Vec<i64> = starts.iter().map(|s| *s as i64).filter(|s| *k != "r8" || (s - next >= -128 && s - next <= 127)).collect();
            let t = if near.is_empty() { next } else { *g.pick(&near) };
            let (lo, hi) = range(k);
            o[x] = match *k {
                "r8" => (t - next).max(-128).min(127) as i32,
                "r16" => (t - next + 1).max(-32768).min(32767) as i32,
                "a16" => t as i32,
                "a12" => (t % 4096) as i32,
                "d9" if g.chance(1, 2) => 0x100 + g.below(256) as i32,
                "d9" if g.chance(1, 3) => 0x101,
                _ => g.range(lo as i64, hi as i64) as i32,
            };
        }
        if flash {
            o = [0x10D, 0, 0];
        }
        for (k, x) in ref_encode(f, o).into_iter().enumerate() {
            if p + k < b.len() {
                b[p + k] = x;
            }
        }
    }
    let mut e: Vec<usize> = firsts.iter().filter(|_| g.chance(3, 4)).cloned().collect();
    e.retain(|x| *x < b.len());
    e.push(0);
    (e, b)
}

pub fn run(r: &mut Report) {
    r.rule = "every form with every operand it has up to 512 values and the edges beyond, every byte as data, data runs of every \
              length up to 70 with and without zeros, code blocks that lead to each other between data, up to 64 KB; \
              non-trivial: more than three instructions"
        .into();
    let mut g = Rng::new(r.seed);
    // every operand of every form, in one image per form and operand
    for f in 0..FORMS.len() {
        let kinds = FORMS[f].1;
        for x in 0..kinds.len().max(1) {
            let vals: Vec<i32> = match kinds.get(x) {
                None => vec![0],
                Some(k) => {
                    let (lo, hi) = range(k);
                    if hi - lo < 600 { (lo..=hi).collect() } else { vec![lo, lo + 1, 255, 256, 257, hi - 1, hi] }
                }
            };
            for bit in [0, 3, 5, 7] {
                let mut b = vec![];
                for v in vals.iter() {
                    let mut o = [0i32; 3];
                    for (y, k) in kinds.iter().enumerate() {
                        o[y] = if y == x {
                            *v
                        } else if *k == "b3" {
                            bit
                        } else if *k == "d9" {
                            0x101
                        } else {
                            0
                        };
                    }
                    b.extend(ref_encode(f, o));
                }
                b.push(0xA0);
                b.resize(b.len() + g.below(3), 0);
                if !check(r, false, &[0], &b) {
                    return;
                }
                if !kinds.contains(&"b3") {
                    break;
                }
            }
        }
    }
    // data
    for c in 0..=255u8 {
        if !check(r, false, &[0], &[0xA0, c, 0, c]) {
            return;
        }
    }
    for n in 0..70usize {
        for pat in 0..4 {
            let mut b = vec![0xA0];
            for k in 0..n {
                b.push(match pat {
                    0 => 0,
                    1 => 1,
                    2 => (k % 17 == 16) as u8,
                    _ => (k / 16 % 2) as u8,
                });
            }
            if !check(r, true, &[0], &b) {
                return;
            }
        }
    }
    let mut k = 0;
    while r.more() {
        k += 1;
        let (e, b) = if k % 5 == 0 {
            let n = 1 + g.below(12);
            let b = image(&mut g, n, 0);
            (vec![0], b)
        } else {
            let lim = if k % 40 == 0 { 60000 } else { 300 };
            blocks(&mut g, lim)
        };
        if b.is_empty() || b.len() > 65536 {
            continue;
        }
        if !check(r, k % 2 == 0, &e, &b) {
            return;
        }
        if k == 6 {
            r.sample(format!("entry points {:?}, image {}", e, hex(&b[..b.len().min(120)])));
        }
    }
}
