//! C01: encode every form with every in-range operand and compare with the ISA table.
use crate::vh_core::*;
use crate::vh_isa::*;

pub fn run(r: &mut Report) {
    r.rule = "every form with every combination of in-range operands (complete enumeration); non-trivial: has operands".into();
    for f in 0..FORMS.len() {
        let (name, kinds) = FORMS[f];
        let dom: Vec<(i32, i32)> = kinds.iter().map(|k| range(k)).collect();
        let mut o = [0i32; 3];
        for k in 0..dom.len() {
            o[k] = dom[k].0;
        }
        loop {
            let want = ref_encode(f, o);
            let ins = make(f, o);
            let got = guarded(|| (ins.encode(), ins.size()));
            r.cases += 1;
            if !kinds.is_empty() {
                r.nontrivial += 1;
            }
            match got {
                Ok((b, s)) if b == want && s == want.len() => {}
                other => {
                    r.fail("encode", format!("{} {:?}", name, &o[..kinds.len()]), hex(&want), match other {
                        Ok((b, s)) => format!("{} (size {})", hex(&b), s),
                        Err(e) => e,
                    });
                    return;
                }
            }
            let mut k = 0;
            while k < dom.len() {
                if o[k] < dom[k].1 {
                    o[k] += 1;
                    break;
                }
                o[k] = dom[k].0;
                k += 1;
            }
            if k == dom.len() {
                break;
            }
        }
        r.sample(format!("{}{:?} -> {}", name, &o[..kinds.len()], hex(&ref_encode(f, o))));
    }
    r.exhaustive = true;
}
