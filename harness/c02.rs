//! C02: decode every string of up to three bytes (with and without more bytes after it).
use crate::instruction::Instr;
use crate::vh_core::*;
use crate::vh_isa::*;

fn show(x: &Option<(usize, [i32; 3])>) -> String {
    match x {
        None => "no instruction".to_owned(),
        Some((f, o)) => format!("{} {:?}", FORMS[*f].0, &o[..FORMS[*f].1.len()]),
    }
}

/// The instruction decoded is in range and encodes to the bytes it was decoded from;
/// there is none only if the bytes end too early.
fn check(r: &mut Report, b: &[u8]) -> bool {
    r.cases += 1;
    let got = guarded(|| {
        let i = Instr::<i32, u8>::decode(b);
        match i {
            None => {
                let mut more = b.to_vec();
                more.extend_from_slice(&[0, 0]);
                let j = Instr::<i32, u8>::decode(&more);
                let ok = b.len() < 3 && j.as_ref().map(|j| j.size() > b.len()).unwrap_or(false);
                (None, ok, vec![])
            }
            Some(i) => {
                let p = parts(&i);
                let mut ok = true;
                for (x, k) in FORMS[p.0].1.iter().enumerate() {
                    let (lo, hi) = range(k);
                    ok = ok && lo <= p.1[x] && p.1[x] <= hi;
                }
                let e = i.encode();
                ok = ok && e.len() <= b.len() && e[..] == b[..e.len()] && i.size() == e.len();
                (Some(p), ok, e)
            }
        }
    });
    match got {
        Ok((_, true, _)) => true,
        Ok((i, false, e)) => {
            r.fail("decode", hex(b), "an in-range instruction that encodes to these bytes".into(),
                   format!("{} which encodes to {}", show(&i), hex(&e)));
            false
        }
        Err(e) => {
            r.fail("decode", hex(b), "no crash".into(), e);
            false
        }
    }
}

pub fn run(r: &mut Report) {
    r.rule = "all byte strings of length 1, 2 and 3, and each instruction followed by one to three further bytes; non-trivial: three bytes".into();
    for a in 0..=255u8 {
        if !check(r, &[a]) {
            return;
        }
        for b in 0..=255u8 {
            if !check(r, &[a, b]) {
                return;
            }
            for c in 0..=255u8 {
                if !check(r, &[a, b, c]) {
                    return;
                }
                r.nontrivial += 1;
            }
            if !check(r, &[a, b, 0x5a, 0xff]) || !check(r, &[a, b, 0xff, 0, 0x81, 7]) {
                return;
            }
        }
    }
    // and back: the instruction decoded from an encoding is the instruction encoded
    for f in 0..FORMS.len() {
        let (name, kinds) = FORMS[f];
        let dom: Vec<(i32, i32)> = kinds.iter().map(|k| range(k)).collect();
        let n: i64 = dom.iter().map(|d| (d.1 - d.0 + 1) as i64).product();
        for k in 0..n {
            let mut o = [0i32; 3];
            let mut q = k;
            for (x, d) in dom.iter().enumerate() {
                let m = (d.1 - d.0 + 1) as i64;
                o[x] = d.0 + (q % m) as i32;
                q /= m;
            }
            r.cases += 1;
            let ins = make(f, o);
            let got = guarded(|| {
                let mut b = ins.encode();
                b.push((k & 255) as u8);
                Instr::<i32, u8>::decode(&b).map(|i| parts(&i))
            });
            if got != Ok(Some((f, o))) {
                r.fail("decode of encode", format!("{} {:?}", name, &o[..kinds.len()]), "the same instruction".into(), format!("{:?}", got));
                return;
            }
        }
    }
    r.sample("81 f3 -> Add_i8 [243]".into());
    r.exhaustive = true;
}
